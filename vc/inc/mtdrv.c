/* Native driver for the scheduler cases: real threads run the extracted code on a ring built here; the kernel records its calls.
   Bounded search only (used for replay): the deciding step is the verifier. */
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
typedef struct { int64_t a[10]; int64_t done, me; } rec;
enum { NREC = 1 << 14 };
static rec recs[NREC];
static volatile int64_t nrec;
static volatile int stop, delay;
static char *ring, *worker;
static int64_t off[32];
void * vcmt_fn;
static pthread_t th[32];
static int nth;
static int64_t (*proc)(void *, int, int64_t);
static __thread unsigned rs = 1;
static __thread int me = -1, ismain;
static volatile int inkernel, gate;
static unsigned rnd(void) { rs = rs * 1664525u + 1013904223u; return rs >> 8; }
#define AT(p, o) (*(volatile int64_t *)((p) + (o)))

static void dly(void)
{
    int d = delay;
    if (d == 1) { if (rnd() % 3 == 0) sched_yield(); }
    else if (d == 2) { if (me >= 0) usleep(200); }
    else if (d == 3) { if (me < 0) usleep(300); }
    else if (d == 4) usleep(rnd() % 100);
}

int64_t vcmt_kernel(int64_t a0, int64_t a1, int64_t a2, int64_t a3, int64_t a4, int64_t a5, int64_t a6, int64_t a7, int64_t a8, int64_t a9)
{
    __sync_fetch_and_add(&inkernel, 1);
    if (me < 0 && !ismain) me = 1000 + (int)syscall(SYS_gettid);
    int64_t k = __sync_fetch_and_add(&nrec, 1);
    if (k < NREC) {
        int64_t v[10] = { a0, a1, a2, a3, a4, a5, a6, a7, a8, a9 };
        memcpy(recs[k].a, v, sizeof v);
        recs[k].me = me;
    }
    dly();
    if (k < NREC) __atomic_store_n(&recs[k].done, 1, __ATOMIC_RELEASE);
    __sync_fetch_and_sub(&inkernel, 1);
    return 1;
}

static void *thread(void *p)
{
    int core = (int)(intptr_t)p;
    me = core;
    rs = core * 7919 + 13;
    int64_t seen = 0;
    while (!stop) {
        int64_t wi = AT(ring, off[0]);
        if (wi > AT(ring, off[1]) && wi != seen) {
            __sync_fetch_and_add((int64_t *)(ring + off[2]), 1);
            wi = AT(ring, off[0]);
            if (wi > AT(ring, off[1])) {
                char *item = ring + off[6] + ((wi - 1) & 1023) * off[7];
                ((char (*)(void *, int, int64_t))(*(void **)(item + off[8])))(item, core, wi);
                seen = wi;
            }
            __sync_fetch_and_sub((int64_t *)(ring + off[2]), 1);
        }
        if (delay == 1 && !(rnd() & 15)) sched_yield();
        else __builtin_ia32_pause();
    }
    return 0;
}

void vcmt_init(int64_t *o, int n, char *w)
{
    memcpy(off, o, 18 * 8);
    worker = w;
    ring = aligned_alloc(64, (off[13] + 63) & ~63ll);
    memset(ring, 0xA5, off[13]);
    AT(ring, off[0]) = 1022;
    AT(ring, off[1]) = 1022;
    AT(ring, off[2]) = 0;
    AT(ring, off[3]) = 0;
    *(volatile int32_t *)(ring + off[4]) = 0;
    *(ring + off[5]) = 0;
    *(char **)(worker + off[14]) = ring;
    stop = 0;
    nth = n;
    for (int i = 0; i < n; i++) pthread_create(&th[i], 0, vcmt_fn ? (void *(*)(void *))vcmt_fn : thread, vcmt_fn ? (void *)ring : (void *)(intptr_t)i);
}
void vcmt_ring32(int64_t o, int32_t v) { *(int32_t *)(ring + o) = v; }
void vcmt_fini(void) { stop = 1; if (vcmt_fn) return; for (int i = 0; i < nth; i++) pthread_join(th[i], 0); }

/* returns the number of recorded calls; out: 0 recs not finished at return, 1 awake at return, 2 late calls, 3 ring index advance, 4 completed advance */
int64_t vcmt_call(void *f, int64_t *a, int na, int d, int64_t *out)
{
    ismain = 1;
    delay = d;
    nrec = 0;
    memset(recs, 0, sizeof recs[0] * 4096);
    int64_t w0 = AT(ring, off[0]), c0 = AT(ring, off[1]);
    ((void (*)(int64_t, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t))f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
    int64_t awake = AT(ring, off[2]), ik = inkernel, n1 = nrec;
    out[0] = ik;
    out[1] = awake;
    for (int i = 0; i < 4; i++) { usleep(d ? 100 : 1); }
    while (inkernel || AT(ring, off[2])) {
        __builtin_ia32_pause();
        sched_yield();
    }
    out[2] = nrec - n1;
    out[3] = AT(ring, off[0]) - w0;
    out[4] = AT(ring, off[1]) - c0;
    for (int64_t i = 0; i < nrec && i < NREC; i++) if (!recs[i].done) out[0]++;
    return nrec;
}
rec *vcmt_recs(void) { return recs; }

/* worker side only: publish a hand-made item whose callback is f, then work on it from this thread and the others; returns calls */
int64_t vcmt_item(void *f, void *arg, int64_t argoff, int64_t total, int64_t totoff, int64_t B, int64_t blocks, int d, int64_t *out)
{
    ismain = 1;
    delay = d;
    nrec = 0;
    memset(recs, 0, sizeof recs[0] * 4096);
    int64_t wi = AT(ring, off[0]);
    char *item = ring + off[6] + (wi & 1023) * off[7];
    memset(item, 0xA5, off[7]);
    *(void **)(item + off[8]) = f;
    if (argoff >= 0) *(void **)(item + argoff) = arg;
    AT(item, totoff) = total;
    AT(item, off[9]) = B;
    AT(item, off[10]) = blocks;
    AT(item, off[11]) = 0;
    AT(item, off[12]) = 0;
    __sync_fetch_and_add((int64_t *)(ring + off[0]), 1);
    ((char (*)(void *, int, int64_t))f)(item, -1, 0);
    int64_t t = 0;
    while ((AT(ring, off[2]) || AT(item, off[12]) < blocks) && t++ < 200000) sched_yield();
    __sync_fetch_and_add((int64_t *)(ring + off[1]), 1);
    while (AT(ring, off[2])) sched_yield();
    out[0] = AT(item, off[12]) - blocks;
    out[1] = 0;
    out[2] = AT(item, off[11]);
    for (int64_t i = 0; i < nrec && i < NREC; i++) if (!recs[i].done) out[1]++;
    return nrec;
}
