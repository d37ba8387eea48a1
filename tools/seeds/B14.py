PROPERTY="C08"
NEEDS="a deep copy of a structure with an undiscriminated union in METAC_UNION_ignore mode"
BREAKS="the copy clears the union in the source object instead of the destination"
EDITS=[("src/value_deep.c","memset(metac_value_addr(p_dst_val), 0, p->byte_size);","memset(metac_value_addr(p->p_val), 0, p->byte_size);")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
union u { int i; char c; };
static metac_entry_t m_u[] = {MB(i,&e_int,union u), MB(c,&e_char,union u)};
static metac_entry_t e_u = {.kind=METAC_KND_union_type,.name="u",.structure_type_info={.byte_size=sizeof(union u),.members_count=2,.members=m_u}};
struct s { int x; union u u; };
static metac_entry_t m_s[] = {MB(x,&e_int,struct s), MB(u,&e_u,struct s)};
static metac_entry_t e_s = {.kind=METAC_KND_struct_type,.name="s",.structure_type_info={.byte_size=sizeof(struct s),.members_count=2,.members=m_s}};
int main(void) {
    struct s a = {.x = 5, .u = {.i = 77}}, before = a, b;
    memset(&b, 0x5a, sizeof(b));
    metac_value_t *s = metac_new_value(&e_s, &a), *d = metac_new_value(&e_s, &b);
    metac_value_memory_map_mode_t mode = {.union_mode = METAC_UNION_ignore};
    if (metac_value_copy_ex(s, d, &mode, NULL, NULL, NULL) == NULL) { printf("no copy\n"); return 2; }
    metac_value_delete(s); metac_value_delete(d);
    if (memcmp(&a, &before, sizeof(a)) != 0) { printf("source changed\n"); return 1; }
    return 0;
}
"""}
