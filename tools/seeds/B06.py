PROPERTY="C10"
NEEDS="a description is deleted and another one is created at the same address between two queries (or two threads query at the same time)"
BREAKS="metac_entry_final_entry answers from what it remembered from an earlier call"
EDITS=[("src/entry.c","""    metac_quals_t quals = { .flags = 0, };
    /* make it NON-recursivly */
    do {""","""    metac_quals_t quals = { .flags = 0, };
    /* the walkers ask about the same entry several times in a row */
    static metac_entry_t *p_last_entry = NULL, *p_last_final_entry = NULL;
    if (p_quals == NULL && p_entry == p_last_entry) {
        return p_last_final_entry;
    }
    metac_entry_t *p_in_entry = p_entry;
    /* make it NON-recursivly */
    do {"""),("src/entry.c","""                p_quals->flags = quals.flags;
            }
            return p_entry;""","""                p_quals->flags = quals.flags;
            }
            p_last_entry = p_in_entry;
            p_last_final_entry = p_entry;
            return p_entry;""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
int main(void) {
    static metac_entry_t e_tdbl = {.kind=METAC_KND_typedef,.name="tdbl",.typedef_info={.type=&e_double}};
    for (int i = 0; i < 100; ++i) {
        metac_entry_t *e = metac_new_entry((i & 1)? &e_tdbl : &e_tint);
        if (metac_entry_final_entry(e, NULL) != ((i & 1) ? &e_double : &e_int)) return 1;
        metac_entry_delete(e);
    }
    return 0;
}
"""}
