PROPERTY="C24"
NEEDS="a const qualifier above another qualifier or a volatile above a typedef'ed const: the order of the qualifiers matters, a single qualifier does not show it"
BREAKS="metac_entry_final_entry forgets the const qualifier as soon as another qualifier follows on the way to the type"
EDITS=[("src/entry.c","quals.flag_const |= (p_entry->kind == METAC_KND_const_type);","quals.flag_const = (p_entry->kind == METAC_KND_const_type);")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
int main(void) {
    static metac_entry_t e_v = {.kind=METAC_KND_volatile_type,.qual_type_info={.type=&e_int}};
    static metac_entry_t e_cv = {.kind=METAC_KND_const_type,.qual_type_info={.type=&e_v}};
    static metac_entry_t e_vc = {.kind=METAC_KND_volatile_type,.qual_type_info={.type=&e_cint}};
    metac_quals_t q = {.flags = 0};
    int ok = metac_entry_final_entry(&e_vc, &q) == &e_int && q.flag_const && q.flag_volatile;
    q.flags = 0;
    ok = ok && metac_entry_final_entry(&e_cv, &q) == &e_int && q.flag_const && q.flag_volatile;
    return !ok;
}
"""}
