/* shared by all generated harnesses (proof mode and native replay mode) */
static int g_log;            /* ghost: number of log messages issued */
static int g_bad;
#ifdef REPLAY
#define __CPROVER_assume(c) do { if (!(c)) { printf("ASSUME-FAILED %s\n", #c); exit(77); } } while (0)
#define HASSERT(c, name) do { if (!(c)) { printf("ENSURES-FAILED %s\n", name); g_bad = 1; } } while (0)
#else
#define HASSERT(c, name) __CPROVER_assert(c, "ens:" name)
#endif
#define IMP(a, b) (!(a) || (b))
/* bitwise equality of double/float lvalues (distinguishes zeros, NaN payloads) */
#ifdef REPLAY
#define DEQ(a, b) (*(const uint64_t *)&(a) == *(const uint64_t *)&(b))
#define SEQ(a, b) (*(const uint32_t *)&(a) == *(const uint32_t *)&(b))
#else
#define DEQ(a, b) __CPROVER_equal((double)(a), (double)(b))
#define SEQ(a, b) __CPROVER_equal((float)(a), (float)(b))
#endif
static inline _Bool feq(double a, double b) { return DEQ(a, b) || (a != a && b != b); }   /* equal, any NaN equals any NaN */
static inline _Bool feqf(float a, float b) { return SEQ(a, b) || (a != a && b != b); }
