PROPERTY="C31"
NEEDS="a cyclic structure copied with unknown pointers taken as values"
BREAKS="the pointer that closes the cycle is copied as a value: the copy leads back into the source instead of into the copy"
EDITS=[("src/value_deep.c","""                    } else if (p->loop_level > 0) {
                        /* copy ptr value""","""                    } else if (p->loop_level > 0 && p_mode->unknown_ptr_mode != METAC_UPTR_as_values) {
                        /* copy ptr value""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
int main(void) {
    for (int m = 0; m < 2; ++m) {
        struct lst c = {3, NULL}, b = {2, &c}, a = {1, &b}, *s = &a, *d = NULL;
        c.next = &a;
        metac_value_memory_map_mode_t mode = {.unknown_ptr_mode = m ? METAC_UPTR_as_values : METAC_UPTR_ignore};
        metac_value_t *v = metac_new_value(&e_plst, &s), *w = metac_new_value(&e_plst, &d);
        if (metac_value_copy_ex(v, w, &mode, NULL, NULL, NULL) == NULL) { printf("no copy\n"); return 2; }
        metac_value_delete(v); metac_value_delete(w);
        if (d == NULL || d == &a || d->next->next->next != d) { printf("mode %d: the copied ring is not closed\n", m); return 1; }
    }
    return 0;
}
"""}
