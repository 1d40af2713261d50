#include "UnaryOps.cpp"
#include "mt.h"
extern "C" {
__attribute__((used)) extern const int64_t vc_cb_off[] = { sizeof(UNARY_CALLBACK), offsetof(UNARY_CALLBACK, pUnaryCallbackStrided), offsetof(UNARY_CALLBACK, pDataIn), offsetof(UNARY_CALLBACK, pDataOut), offsetof(UNARY_CALLBACK, itemSizeIn), offsetof(UNARY_CALLBACK, itemSizeOut) };
bool vc_cb(stMATH_WORKER_ITEM * i, int core, int64_t wi) { return UnaryThreadCallbackStrided(i, core, wi); }
}
