PROPERTY="C02"
NEEDS="deep operation on a counted pointer whose counter member has a type that can not be read as a number (for example double)"
BREAKS="the sibling value is released twice on the path where the counter can not be read"
EDITS=[("src/entry_tag.c","""                metac_num_t content_len = 0;
                if (metac_value_num(p_sibling_val, &content_len) != 0) {
                    metac_value_delete(p_sibling_val);
                    return -(EFAULT);
                }
                metac_value_delete(p_sibling_val);
                p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);
                return (p_ev->p_return_value != NULL)?0:-(EFAULT);
            }
        } else if""","""                metac_num_t content_len = 0;
                int num_res = metac_value_num(p_sibling_val, &content_len);
                metac_value_delete(p_sibling_val);
                if (num_res != 0) {
                    metac_value_delete(p_sibling_val);
                    return -(EFAULT);
                }
                p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);
                return (p_ev->p_return_value != NULL)?0:-(EFAULT);
            }
        } else if""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build_fi demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
#include "fi.h"
struct bad { int *arr; double count; };
static metac_entry_t m_bad[] = {MB(arr,&e_pint,struct bad), MB(count,&e_double,struct bad)};
static metac_entry_t e_bad = {.kind=METAC_KND_struct_type,.name="bad",.structure_type_info={.byte_size=sizeof(struct bad),.members_count=2,.members=m_bad}};
int main(void) {
    metac_tag_map_t *p_map = metac_new_tag_map(NULL);
    metac_entry_tag_t tag = {.p_context = metac_new_count_by_context("count"), .handler = metac_handle_count_by, .context_free_handler = metac_count_by_context_delete};
    if (metac_tag_map_set_tag(p_map, 0, 0, &m_bad[0], METAC_TEO_entry, &tag) != 0) return 2;
    int a[2] = {1, 2};
    struct bad b = {a, 2.0};
    metac_value_t *v = metac_new_value(&e_bad, &b);
    char *s = metac_value_string_ex(v, METAC_WMODE_deep, p_map);
    free(s);
    metac_value_delete(v);
    metac_tag_map_delete(p_map);
    return s != NULL;
}
"""}
