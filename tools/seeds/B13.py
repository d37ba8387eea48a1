PROPERTY="C07"
NEEDS="a flexible array (no length in its type) for which a handler delivers the element count of one particular object"
BREAKS="creating a counted view of one object writes the count into the shared type description: every other object of the type now has that length"
EDITS=[("src/entry.c","""    return metac_new_entry(p_new_entry);
}

""","""    if (p_final_entry->kind == METAC_KND_array_type && p_final_entry->array_type_info.count < 0) {
        p_final_entry->array_type_info.count = count;
        return metac_new_entry(p_final_entry);
    }
    return metac_new_entry(p_new_entry);
}

""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
static metac_entry_t e_flex = {.kind=METAC_KND_array_type,.array_type_info={.type=&e_int,.count=-1}};
int main(void) {
    int a[3] = {1,2,3};
    metac_entry_t before = e_flex;
    metac_value_t *v = metac_new_value(&e_flex, a);
    if (v == NULL) return 2;
    metac_value_t *c = metac_new_element_count_value(v, 3);
    if (c == NULL || metac_value_element_count(c) != 3) return 2;
    metac_value_delete(c);
    metac_value_delete(v);
    if (memcmp(&before, &e_flex, sizeof(before)) != 0) { printf("the description changed, count %d\n", (int)e_flex.array_type_info.count); return 1; }
    return 0;
}
"""}
