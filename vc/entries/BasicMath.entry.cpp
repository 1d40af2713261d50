// Extraction entry: the repository's file as it is, plus exported names for static functions under contract.
#include "BasicMath.cpp"
extern "C" ANY_TWO_FUNC vc_CheckMathOpTwoInputs(int func, int scalarMode, int t1, int t2, int out, int * wanted)
{
    return CheckMathOpTwoInputs(func, scalarMode, t1, t2, out, wanted);
}
