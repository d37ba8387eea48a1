PROPERTY="C09"
NEEDS="the caller hands in only a release function and the copy fails after blocks were allocated"
BREAKS="the caller's release function is silently replaced by free()"
EDITS=[("src/value_deep.c","""        calloc_fn = calloc;
    }
""","""        calloc_fn = calloc;
        free_fn = free;
    }
""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build_fi demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
#include "fi.h"
static int released;
static void my_free(void *p) { if (p != NULL) { ++released; free(p); } }
int main(void) {
    int failed = 0;
    for (int k = 1; k < 400; ++k) {
        struct lst z = {3, NULL}, y = {2, &z}, x = {1, &y}, o;
        memset(&o, 0, sizeof(o));
        metac_value_t *s = metac_new_value(&e_lst, &x), *d = metac_new_value(&e_lst, &o);
        if (s == NULL || d == NULL) return 2;
        fi_fail(k);
        metac_value_t *c = metac_value_copy_ex(s, d, NULL, NULL, my_free, NULL);
        fi_fail(0);
        metac_value_delete(s); metac_value_delete(d);
        if (c == NULL) { ++failed; continue; }
        free(o.next->next); free(o.next);
        break;
    }
    if (failed == 0) return 2;
    if (released == 0) { printf("%d failed copies, my_free was never called\n", failed); return 1; }
    return 0;
}
"""}
