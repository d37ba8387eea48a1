PROPERTY="C03"
NEEDS="the allocation of the categories array fails while a tag map is created"
BREAKS="metac_new_tag_map_ex writes through the NULL result of calloc"
EDITS=[("src/entry_tag.c","""    p_tag_map->p_categories = calloc(categories_count, sizeof(*p_tag_map->p_categories));
    if (p_tag_map->p_categories == NULL) {
        _entry_tag_delete(p_tag_map->p_default_tag);
        free(p_tag_map);
        return NULL;
    }

    for (""","""    p_tag_map->p_categories = calloc(categories_count, sizeof(*p_tag_map->p_categories));
    if (p_tag_map->p_categories == NULL && p_tag_map->p_default_tag != NULL) {
        _entry_tag_delete(p_tag_map->p_default_tag);
        free(p_tag_map);
        return NULL;
    }

    for (""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build_fi demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
#include "fi.h"
int main(void) {
    for (int i = 1; i < 8; ++i) {
        fi_fail(i);
        metac_tag_map_t *p = metac_new_tag_map(NULL);
        fi_fail(0);
        metac_tag_map_delete(p);
    }
    return fi_live != 0;
}
"""}
