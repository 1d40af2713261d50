// Extraction entry: the repository's file as it is, plus exported names for static functions under contract.
#include "Merge.cpp"
extern "C" GETITEM_FUNC vc_GetItemFunction(int64_t itemSize, int indexType) { return GetItemFunction(itemSize, indexType); }
