PROPERTY="C05"
NEEDS="a function type is asked for something only arrays have (its size); function types with no parameters still answer correctly"
BREAKS="metac_entry_byte_size reads the array fields of a function type description: parameters_count as element count and the result type as element type"
EDITS=[("src/entry.c","""        case METAC_KND_array_type:
            if (p_entry->array_type_info.count <= 0) {""","""        case METAC_KND_subroutine_type: /* void (*)() and such: no size unless something is described */
        case METAC_KND_array_type:
            if (p_entry->array_type_info.count <= 0) {""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
int main(void) {
    static metac_entry_t e_sub = {.kind=METAC_KND_subroutine_type,.subroutine_type_info={.type=&e_int,.parameters_count=2,.parameters=pr_fn}};
    metac_size_t sz = 0;
    int ok = metac_entry_byte_size(&e_arr3, &sz) == 0 && sz == 3*sizeof(int);
    ok = ok && metac_entry_byte_size(&e_sub, &sz) != 0;
    return !ok;
}
"""}
