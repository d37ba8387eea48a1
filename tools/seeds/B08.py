PROPERTY="C06"
NEEDS="a parameter of a function type (not of a function) is requested with the id one past the last parameter"
BREAKS="metac_entry_by_paremeter_id returns the address behind the parameters of the function type instead of NULL"
EDITS=[("src/entry.c","param_id >= p_final_entry->subroutine_type_info.parameters_count","param_id > p_final_entry->subroutine_type_info.parameters_count")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
int main(void) {
    static metac_entry_t e_sub = {.kind=METAC_KND_subroutine_type,.subroutine_type_info={.type=&e_int,.parameters_count=2,.parameters=pr_fn}};
    int ok = metac_entry_by_paremeter_id(&e_sub, 1) == &pr_fn[1] && metac_entry_by_paremeter_id(&e_fn, 2) == NULL;
    ok = ok && metac_entry_by_paremeter_id(&e_sub, 2) == NULL && metac_entry_by_paremeter_id(&e_sub, -1) == NULL;
    return !ok;
}
"""}
