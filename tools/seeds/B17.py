PROPERTY="C15"
NEEDS="two names of which one is the beginning of the other, in one place of the database: other names are found as before"
BREAKS="the name level of the entry database compares only as many characters as the key has, so the lookup of a name may answer with an entry that has a longer name"
EDITS=[("src/entry_db.c","    return strcmp(p_a->name, p_b->name);","    return strncmp(p_a->name, p_b->name, strlen(p_a->name));")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
static metac_entry_t a = {.kind = METAC_KND_variable, .name = "foobar"};
static metac_entry_t b = {.kind = METAC_KND_variable, .name = "zoo"};
static metac_entry_t * pa[] = {&a}, * pb[] = {&b};
static struct metac_per_name_item names[] = {{.name = "foobar", .entry_count = 1, .pp_entries = pa}, {.name = "zoo", .entry_count = 1, .pp_entries = pb}};
static struct metac_per_loc_item locs[] = {{.loc_name = "here", .per_name_item_count = 2, .per_name_items = names}};
static struct metac_per_file_item files[] = {{.file = "x.c", .per_loc_item_count = 1, .per_loc_items = locs}};
static struct metac_entry_db db = {.per_file_item_count = 1, .per_file_items = files};
int main(void) {
    struct metac_decl_loc dl = {.file = "x.c", .name = "here"};
    if (metac_entry_from_entry_db(&db, &dl, "foobar") != &a || metac_entry_from_entry_db(&db, &dl, "zoo") != &b) return 2;
    if (metac_entry_from_entry_db(&db, &dl, "foo") != NULL || metac_entry_from_entry_db(&db, &dl, "") != NULL) return 1;
    return 0;
}
"""}
