#include "BasicMath.cpp"
#include "mt.h"
extern "C" {
__attribute__((used)) extern const int64_t vc_off_fl[] = { sizeof(FUNCTION_LIST), offsetof(FUNCTION_LIST, AnyTwoStubCall), offsetof(FUNCTION_LIST, InputItemSize), offsetof(FUNCTION_LIST, OutputItemSize) };
void vc_two(FUNCTION_LIST * fl, void * a, void * b, void * o, int64_t n, int32_t mode) { WorkTwoStubCall(fl, a, b, o, n, mode); }
void vc_mtwork(int32_t n, MTWORK_CALLBACK cb, void * arg) { g_cMathWorker->DoMultiThreadedWork(n, cb, arg); }
void vc_mtchunk(int64_t n, MTCHUNK_CALLBACK cb, void * arg) { g_cMathWorker->DoMultiThreadedChunkWork(n, cb, arg); }
void vc_groupby(GROUPBY_FUNC f, void * data, int64_t n) { g_cMathWorker->WorkGroupByCall(f, data, n); }
}
