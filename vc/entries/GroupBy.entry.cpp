// Extraction entry: the repository's file as it is, plus exported names for static functions under contract.
#include "GroupBy.cpp"
#define VC_GB(N, V, W) \
extern "C" GROUPBY_TWO_FUNC vc_GetGroupByFunction_##N(bool * a, int32_t * b, int32_t * c, int t, int f) \
{ \
    return GetGroupByFunction<V, W>(a, b, c, t, (GB_FUNCTIONS)f); \
}
VC_GB(8_32, int8_t, int32_t)
VC_GB(16_32, int16_t, int32_t)
VC_GB(32_32, int32_t, int32_t)
VC_GB(64_32, int64_t, int32_t)
VC_GB(8_64, int8_t, int64_t)
VC_GB(16_64, int16_t, int64_t)
VC_GB(32_64, int32_t, int64_t)
VC_GB(64_64, int64_t, int64_t)
#define VC_GX(N, V) \
extern "C" GROUPBY_X_FUNC vc_GetGroupByXFunction_##N(int t, int * o, int f) \
{ \
    return GetGroupByXFunction<V>(t, o, (GB_FUNCTIONS)f); \
}
VC_GX(32, int32_t)
VC_GX(64, int64_t)
