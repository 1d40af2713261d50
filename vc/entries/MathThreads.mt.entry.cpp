#include "MathThreads.cpp"
#include "mt.h"
extern "C" {
void vc_mtchunk(int64_t n, MTCHUNK_CALLBACK cb, void * arg) { g_cMathWorker->DoMultiThreadedChunkWork(n, cb, arg); }
void * vc_thread(void * ring) { return WorkerThreadFunction(ring); }
}
