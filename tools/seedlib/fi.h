/* counting and failing allocator: link with the -Wl,--wrap list of lib.sh */
#include <stddef.h>
extern long fi_live;        /* blocks not released yet */
extern long fi_calls;       /* allocations so far */
extern long fi_fail_at;     /* 0 - never, n - n-th allocation from now fails */
void fi_fail(long n);
