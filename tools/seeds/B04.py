PROPERTY="C04"
NEEDS="one value of a comparison is NULL (a lookup before it failed) while the other one is a pointer"
BREAKS="metac_value_equal_pointer reads through the NULL value instead of reporting an error"
EDITS=[("src/value.c","""    if (metac_value_pointer(p_val1, &v1) != 0) {
        return -(EFAULT);
    }
    if (metac_value_pointer(p_val2, &v2) != 0) {""","""    if (metac_value_pointer(p_val1, &v1) != 0) {
        return -(EFAULT);
    }
    if (p_val1->addr == p_val2->addr) {
        return 1; /* the same pointer */
    }
    if (metac_value_pointer(p_val2, &v2) != 0) {""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
int main(void) {
    int i = 0, *p = &i, *q = &i;
    metac_value_t *v = metac_new_value(&e_pint, &p), *w = metac_new_value(&e_pint, &q);
    int ok = metac_value_equal_pointer(v, w) == 1 && metac_value_equal_pointer(v, NULL) < 0 && metac_value_equal_pointer(NULL, v) < 0;
    metac_value_delete(v);
    metac_value_delete(w);
    return !ok;
}
"""}
