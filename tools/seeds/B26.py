PROPERTY="C30"
NEEDS="two cyclic structures with the same number of nodes and the same values whose last pointers lead back to different nodes"
BREAKS="deep comparison no longer looks at where a cycle closes: a ring and a list whose last node points to itself compare equal"
EDITS=[("src/value_deep.c","""                    p1->loop_level != p2->loop_level ||
""","")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
static int eq(struct lst *a, struct lst *b) {
    metac_value_t *v = metac_new_value(&e_plst, &a), *w = metac_new_value(&e_plst, &b);
    int res = metac_value_equal_ex(v, w, NULL, NULL);
    metac_value_delete(v); metac_value_delete(w);
    return res;
}
int main(void) {
    struct lst c1 = {1, NULL}, b1 = {1, &c1}, a1 = {1, &b1}, c2 = {1, NULL}, b2 = {1, &c2}, a2 = {1, &b2}, c3 = {1, NULL}, b3 = {1, &c3}, a3 = {1, &b3};
    c1.next = &a1; c2.next = &b2; c3.next = &a3;
    if (eq(&a1, &a3) != 1) { printf("two equal rings: %d\n", eq(&a1, &a3)); return 2; }
    if (eq(&a1, &a2) != 0) { printf("different cycles: %d\n", eq(&a1, &a2)); return 1; }
    return 0;
}
"""}
