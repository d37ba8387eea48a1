PROPERTY="C27"
NEEDS="a category with the final bit whose map has a tag for the final entry only, and an entry that is looked up after another category with the final bit had none"
BREAKS="a lookup that finds no tag for the final entry in one category stops there with the default tag; later categories are never asked"
EDITS=[("src/entry_tag.c","""                if (p_tag != NULL) {
                    return p_tag;
                }
            }
        }
    }
""","""                if (p_tag != NULL) {
                    return p_tag;
                }
                break;
            }
        }
    }
""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
#include "metac/reflect/entry_tag.h"
static metac_entry_t t = {.kind = METAC_KND_base_type, .name = "int", .base_type_info = {.byte_size = 4, .encoding = METAC_ENC_signed}};
static metac_entry_t m = {.kind = METAC_KND_member, .name = "m", .member_info = {.type = &t}};
int main(void) {
    metac_entry_tag_t a = {.p_tagstring = "a"}, d = {.p_tagstring = "d"};
    metac_tag_map_t *p = metac_new_tag_map_ex(2, (metac_tag_map_entry_t[]){{.mask = 12}, {.mask = 4}}, &d);
    if (p == NULL) return 3;
    metac_entry_tag_t *x = metac_tag_map_tag(p, &m);
    if (x == NULL || strcmp(x->p_tagstring, "d")) return 2;
    if (metac_tag_map_set_tag(p, 1, 0, &m, METAC_TEO_entry, &a) != 0) return 2;
    x = metac_tag_map_tag(p, &m);
    if (x == NULL || strcmp(x->p_tagstring, "a")) return 1;
    metac_tag_map_delete(p);
    return 0;
}
"""}
