#include "Bins.cpp"
#include "mt.h"
#define O(f) offsetof(RIDX_CALLBACK, f)
extern "C" {
__attribute__((used)) extern const int64_t vc_cb_off[] = { sizeof(RIDX_CALLBACK), O(reIndexCallback), O(pDataOut), O(pDataIn), O(pIndex1), O(itemSize), O(indexTypeSize) };
bool vc_cb(stMATH_WORKER_ITEM * i, int core, int64_t wi) { return ReIndexThreadCallback(i, core, wi); }
}
