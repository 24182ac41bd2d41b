// A value as the harness and the adapter exchange it.
#pragma once
#include <cstddef>
struct JN {
  char k = 0; // n integer, d floating, b, c, s string, v list, m pairs, r record, o optional
  long long i = 0;
  unsigned long long u = 0;
  double d = 0;
  const char *s = nullptr;
  size_t n = 0;
  JN **c = nullptr;   // elements, fields, values
  JN **key = nullptr; // keys of pairs
  size_t nc = 0;
};
