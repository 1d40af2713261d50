#include "Merge.cpp"
#include "mt.h"
#define O(f) offsetof(MBGET_CALLBACK, f)
extern "C" {
__attribute__((used)) extern const int64_t vc_cb_off[] = { sizeof(MBGET_CALLBACK), O(GetItemCallback), O(pValues), O(pIndex), O(pDataOut), O(aValueLength), O(aValueItemSize), O(strideIndex), O(strideValue), O(pDefault) };
bool vc_cb(stMATH_WORKER_ITEM * i, int core, int64_t wi) { return GetItemCallback(i, core, wi); }
}
