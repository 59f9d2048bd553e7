/* src/FMI.c: default argument promotions of the printf arguments are made explicit (x - 0) for the verifier */
#include "FMI.h"
#include <stdio.h>
int vf_snprintf(char *b, size_t n, const char *f, ...); int vf_sprintf(char *b, const char *f, ...);
#define VF_CNT_(a0,a1,a2,a3,a4,a5,a6,n,...) n
#define VF_CNT(...) VF_CNT_(__VA_ARGS__,6,5,4,3,2,1,0,0)
#define VF_A0(f) f
#define VF_A1(f,a) f, (a) - 0
#define VF_A2(f,a,b) f, (a) - 0, (b) - 0
#define VF_A3(f,a,b,c) f, (a) - 0, (b) - 0, (c) - 0
#define VF_A4(f,a,b,c,d) f, (a) - 0, (b) - 0, (c) - 0, (d) - 0
#define VF_A5(f,a,b,c,d,e) f, (a) - 0, (b) - 0, (c) - 0, (d) - 0, (e) - 0
#define VF_A6(f,a,b,c,d,e,g) f, (a) - 0, (b) - 0, (c) - 0, (d) - 0, (e) - 0, (g) - 0
#define VF_CAT_(a,b) a##b
#define VF_CAT(a,b) VF_CAT_(a,b)
#define VF_ARGS(...) VF_CAT(VF_A, VF_CNT(__VA_ARGS__))(__VA_ARGS__)
#define snprintf(b, n, ...) vf_snprintf(b, n, VF_ARGS(__VA_ARGS__))
#define sprintf(b, ...) vf_sprintf(b, VF_ARGS(__VA_ARGS__))
