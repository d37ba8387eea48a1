PROPERTY="C11"
NEEDS="a const-qualified struct member (not a plain variable) is written through the typed setters"
BREAKS="metac_value_set_* overwrite const members instead of refusing with -EPERM"
EDITS=[("src/value.c","""    if (quals.flag_const != 0) {
        return -(EPERM);""","""    if (quals.flag_const != 0 && metac_entry_kind(p_val->p_entry) != METAC_KND_member) {
        return -(EPERM);""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
struct cm { int a; const int b; };
static metac_entry_t m_cm[] = {MB(a,&e_int,struct cm), MB(b,&e_cint,struct cm)};
static metac_entry_t e_cm = {.kind=METAC_KND_struct_type,.name="cm",.structure_type_info={.byte_size=sizeof(struct cm),.members_count=2,.members=m_cm}};
int main(void) {
    union { struct cm s; int raw[2]; } u = {.raw = {1, 2}};
    metac_value_t *v = metac_new_value(&e_cm, &u), *a = metac_new_value_by_member_id(v, 0), *b = metac_new_value_by_member_id(v, 1);
    int ok = metac_value_set_int(a, 7) == 0 && u.raw[0] == 7;
    ok = ok && metac_value_set_int(b, 9) != 0 && u.raw[1] == 2;
    metac_value_delete(a); metac_value_delete(b); metac_value_delete(v);
    return !ok;
}
"""}
