// Extraction entry: the repository's file as it is, plus exported names for static functions under contract.
#include "Convert.cpp"
extern "C" CONVERT_SAFE vc_GetConversionFunctionSafe(int in, int out)
{
    return GetConversionFunctionSafe(in, out);
}
extern "C" CONVERT_SAFE vc_GetConversionFunctionUnsafe(int in, int out)
{
    return GetConversionFunctionUnsafe(in, out);
}
extern "C" MASK_CONVERT_SAFE vc_GetConversionPutMask(int in, int out)
{
    return GetConversionPutMask(in, out);
}
extern "C" COMBINE_MASK vc_GetCombineFunction(int out)
{
    return GetCombineFunction(out);
}
