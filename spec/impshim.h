/* importer units: calls that append to the call log carry the number of values they pass */
#if IMPVER == 2
#include "FMI2.h"
#else
#include "FMI3.h"
#endif
#define VF_PICK(a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,a20,n,...) n
#define VF_NARGS(...) VF_PICK(__VA_ARGS__,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,0)
void vf_append(FMIInstance *instance, int nargs, const char *format, ...);
#define FMIAppendToLogMessageBuffer(i, ...) vf_append((i), VF_NARGS(__VA_ARGS__), __VA_ARGS__)
