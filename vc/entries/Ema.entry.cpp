// Extraction entry: the repository's file as it is, plus exported names for static functions under contract.
#include "Ema.cpp"
#define VC_EMA(N, K) \
extern "C" EMA_BY_TWO_FUNC vc_GetEmaByFunction_##N(int t, int * o, int tt, int f) { return GetEmaByFunction<K>(t, o, tt, (EMA_FUNCTIONS)f); }
VC_EMA(8, int8_t)
VC_EMA(16, int16_t)
VC_EMA(32, int32_t)
VC_EMA(64, int64_t)
