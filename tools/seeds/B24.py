PROPERTY="C28"
NEEDS="a union whose selector has a value that is not among the cases but is a valid member number"
BREAKS="with cases given, a selector value that no case names is taken as the member's number: the deep operations follow a member that the data does not hold"
EDITS=[("src/entry_tag.c","""                        if (id_converted == 0) {
                            return -(ENOENT);""","""                        if (id_converted == 0 && metac_entry_by_member_id(metac_value_entry(p_val), id) == NULL) {
                            return -(ENOENT);""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
#include "metac/reflect/entry_tag.h"
#include "metac/reflect/value.h"
struct s { int sel; union { int a; int b; } u; };
static metac_entry_t INT = {.kind = METAC_KND_base_type, .name = "int", .base_type_info = {.byte_size = 4, .encoding = METAC_ENC_signed}};
static metac_entry_t um[2], sm[2];
static metac_entry_t U = {.kind = METAC_KND_union_type, .structure_type_info = {.byte_size = 4, .members_count = 2, .members = um}};
static metac_entry_t S = {.kind = METAC_KND_struct_type, .name = "s", .structure_type_info = {.byte_size = 8, .members_count = 2, .members = sm}};
static char *text(metac_tag_map_t *t, int sel) {
    struct s x = {.sel = sel, .u = {.a = 5}};
    metac_value_t *v = metac_new_value(&S, &x);
    char *r = metac_value_string_ex(v, METAC_WMODE_deep, t);
    metac_value_delete(v);
    return r;
}
int main(void) {
    um[0] = (metac_entry_t){.kind = METAC_KND_member, .name = "a", .parents_count = 1, .parents = (metac_entry_t*[]){&U}, .member_info = {.type = &INT}};
    um[1] = (metac_entry_t){.kind = METAC_KND_member, .name = "b", .parents_count = 1, .parents = (metac_entry_t*[]){&U}, .member_info = {.type = &INT}};
    sm[0] = (metac_entry_t){.kind = METAC_KND_member, .name = "sel", .parents_count = 1, .parents = (metac_entry_t*[]){&S}, .member_info = {.type = &INT}};
    sm[1] = (metac_entry_t){.kind = METAC_KND_member, .name = "u", .parents_count = 1, .parents = (metac_entry_t*[]){&S}, .member_info = {.type = &U, .byte_offset = 4}};
    metac_tag_map_t *t = metac_new_tag_map(NULL);
    metac_entry_tag_t tag = {METAC_UNION_MEMBER_SELECT_BY(sel, {.fld_val = 10, .union_fld_name = "a"}, {.fld_val = 20, .union_fld_name = "b"})};
    if (metac_tag_map_set_tag(t, 0, 1, &sm[1], METAC_TEO_entry, &tag) != 0) return 3;
    char *a = text(t, 10), *b = text(t, 20);
    if (a == NULL || strstr(a, ".a = 5") == NULL || b == NULL || strstr(b, ".b = 5") == NULL) return 2;
    if (text(t, 30) != NULL) return 2;
    if (text(t, 1) != NULL) return 1;
    return 0;
}
"""}
