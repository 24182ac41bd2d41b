// Included before everything else in the code under test: std::string must be
// instantiated (and so instrumented) there, not taken from the library binary.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
