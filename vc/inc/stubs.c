
/* Functions of other translation units that replayed kernels call. */
#include <stdlib.h>
#include <stdint.h>
#include <math.h>
#include <string.h>
#define W __attribute__((weak))
W int _Z12GetNumpyTypeb(int x) { return 0; }
W int _Z12GetNumpyTypea(int x) { return 1; }
W int _Z12GetNumpyTypeh(int x) { return 2; }
W int _Z12GetNumpyTypes(int x) { return 3; }
W int _Z12GetNumpyTypet(int x) { return 4; }
W int _Z12GetNumpyTypei(int x) { return 5; }
W int _Z12GetNumpyTypej(int x) { return 6; }
W int _Z12GetNumpyTypel(long x) { return 7; }
W int _Z12GetNumpyTypem(long x) { return 8; }
W int _Z12GetNumpyTypef(float x) { return 11; }
W int _Z12GetNumpyTyped(double x) { return 12; }
W int _Z12GetNumpyTypee(long double x) { return 13; }
static int64_t i64 = (int64_t)0x8000000000000000ull;
static int32_t i32 = (int32_t)0x80000000;
static uint16_t i16 = 0x8000;
static uint8_t i8 = 0x80;
static uint64_t u64 = ~0ull;
static float f32; static double f64; static long double f80; static int8_t b;
static char str[1024];
W void * _Z17GetDefaultForTypei(int t)
{
    f32 = __builtin_nanf(""); f64 = __builtin_nan(""); f80 = __builtin_nanl("");
    switch (t) {
    case 0: return &b;
    case 1: return &i8; case 3: return &i16; case 5: return &i32; case 7: case 9: return &i64;
    case 2: case 4: case 6: case 8: case 10: return &u64;
    case 11: return &f32; case 12: return &f64; case 13: return &f80;
    }
    return str;
}
W void * _Z7FmAllocm(size_t n) { return malloc(n); }
W void _Z6FmFreePv(void * p) { free(p); }
W void * _Z19WorkSpaceAllocLargem(size_t n) { return malloc(n); }
W void * _Z19WorkSpaceAllocSmallm(size_t n) { return malloc(n); }
W void _Z23WorkSpaceFreeAllocLargeRPvm(void ** p, size_t n) { free(*p); *p = 0; }
W int64_t gBooleanLUT64[256];
W int32_t gBooleanLUT32[16];
W int64_t gBooleanLUT64Inverse[256];
W int32_t gBooleanLUT32Inverse[16];
__attribute__((constructor)) static void init(void)
{
    for (int i = 0; i < 256; i++) for (int j = 0; j < 8; j++) ((unsigned char *)&gBooleanLUT64[i])[j] = (i >> j) & 1;
    for (int i = 0; i < 16; i++) for (int j = 0; j < 4; j++) ((unsigned char *)&gBooleanLUT32[i])[j] = (i >> j) & 1;
    for (int i = 0; i < 256; i++) gBooleanLUT64Inverse[i] = gBooleanLUT64[i] ^ 0x0101010101010101LL;
    for (int i = 0; i < 16; i++) gBooleanLUT32Inverse[i] = gBooleanLUT32[i] ^ 0x01010101;
}
