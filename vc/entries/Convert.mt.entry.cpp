#include "Convert.cpp"
#include "mt.h"
#define O(t, f) offsetof(t, f)
extern "C" {
__attribute__((used)) extern const int64_t vc_cb_off[] = { sizeof(CONVERT_CALLBACK), O(CONVERT_CALLBACK, anyConvertCallback), O(CONVERT_CALLBACK, pDataIn), O(CONVERT_CALLBACK, pDataOut), O(CONVERT_CALLBACK, pBadInput1), O(CONVERT_CALLBACK, pBadOutput1), O(CONVERT_CALLBACK, typeSizeIn), O(CONVERT_CALLBACK, typeSizeOut) };
bool vc_cb(stMATH_WORKER_ITEM * i, int core, int64_t wi) { return ConvertThreadCallback(i, core, wi); }
__attribute__((used)) extern const int64_t vc_cb1_off[] = { sizeof(COMBINE_CALLBACK), O(COMBINE_CALLBACK, anyCombineCallback), O(COMBINE_CALLBACK, pDataIn), O(COMBINE_CALLBACK, pDataOut), O(COMBINE_CALLBACK, pFilter), O(COMBINE_CALLBACK, typeSizeOut) };
bool vc_cb1(stMATH_WORKER_ITEM * i, int core, int64_t wi) { return CombineThreadCallback(i, core, wi); }
__attribute__((used)) extern const int64_t vc_cb2_off[] = { sizeof(COMBINE_ACCUM2_CALLBACK), O(COMBINE_ACCUM2_CALLBACK, anyCombineCallback), O(COMBINE_ACCUM2_CALLBACK, pDataIn1), O(COMBINE_ACCUM2_CALLBACK, pDataIn2), O(COMBINE_ACCUM2_CALLBACK, pDataOut), O(COMBINE_ACCUM2_CALLBACK, pFilter), O(COMBINE_ACCUM2_CALLBACK, typeSizeIn1), O(COMBINE_ACCUM2_CALLBACK, typeSizeIn2), O(COMBINE_ACCUM2_CALLBACK, typeSizeOut), O(COMBINE_ACCUM2_CALLBACK, multiplier), O(COMBINE_ACCUM2_CALLBACK, maxbin), O(COMBINE_ACCUM2_CALLBACK, pCountWorkSpace) };
bool vc_cb2(stMATH_WORKER_ITEM * i, int core, int64_t wi) { return CombineThreadAccum2Callback(i, core, wi); }
}
