// offsets of the shared scheduler structures, read from the repository's own declarations on every extraction
#include <cstddef>
extern "C" {
__attribute__((used)) extern const int64_t vc_off[] = {
    offsetof(stWorkerRing, WorkIndex), offsetof(stWorkerRing, WorkIndexCompleted), offsetof(stWorkerRing, ThreadsAwakened),
    offsetof(stWorkerRing, ThreadWakeup), offsetof(stWorkerRing, ThreadsRunning), offsetof(stWorkerRing, Cancelled), offsetof(stWorkerRing, WorkerQueue),
    sizeof(stMATH_WORKER_ITEM), offsetof(stMATH_WORKER_ITEM, DoWorkCallback), offsetof(stMATH_WORKER_ITEM, BlockSize),
    offsetof(stMATH_WORKER_ITEM, BlockLast), offsetof(stMATH_WORKER_ITEM, BlockNext), offsetof(stMATH_WORKER_ITEM, BlocksCompleted),
    sizeof(stWorkerRing), offsetof(CMathWorker, pWorkerRing), sizeof(CMathWorker), offsetof(CMathWorker, NoThreading), offsetof(CMathWorker, WorkerThreadCount),
    offsetof(stMATH_WORKER_ITEM, WorkCallbackArg), offsetof(stMATH_WORKER_ITEM, TotalElements), offsetof(stWorkerRing, FutexWakeCount), stMATH_WORKER_ITEM::WORK_ITEM_CHUNK };
}
