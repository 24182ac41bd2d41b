// Entry from JavaScript into the simulated addon (a library of its own, so
// that the addon registers itself exactly as it does in production).
#include <dlfcn.h>
#include <node.h>
#include <string>
using namespace v8;
static void call(const FunctionCallbackInfo<Value> &A) {
  Isolate *I = A.GetIsolate();
  String::Utf8Value P(I, A[0]);
  void *H = dlopen(*P, RTLD_LAZY | RTLD_NOLOAD);
  auto F = H ? (void (*)(const FunctionCallbackInfo<Value> &))dlsym(H, "sim_node_main") : nullptr;
  if (F)
    F(A);
  else
    I->ThrowException(Exception::Error(String::NewFromUtf8Literal(I, "the simulated addon is not loaded")));
}
static void init(Local<Object> E, Local<Object> M) { NODE_SET_METHOD(M, "exports", call); }
NODE_MODULE(simhost, init)
