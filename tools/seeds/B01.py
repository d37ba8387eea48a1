PROPERTY="C01"
NEEDS="a pointer-cast context that has both a selector field and a count field is destroyed"
BREAKS="the name of the count field is not released when the context also has a selector field (it always has)"
EDITS=[("src/entry_tag.c","""        free(p_cnxt->sibling_selector_fieldname);
    }
    if (p_cnxt->sibling_count_fieldname != NULL) {
        free(p_cnxt->sibling_count_fieldname);
    }
    if (p_cnxt->p_cases != NULL) {
        free(p_cnxt->p_cases);
    }
    free(p_cnxt);
}

int metac_handle_ptr_cast""","""        free(p_cnxt->sibling_selector_fieldname);
    } else if (p_cnxt->sibling_count_fieldname != NULL) {
        free(p_cnxt->sibling_count_fieldname);
    }
    if (p_cnxt->p_cases != NULL) {
        free(p_cnxt->p_cases);
    }
    free(p_cnxt);
}

int metac_handle_ptr_cast""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build_fi demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
#include "fi.h"
int main(void) {
    struct metac_ptr_cast_case c[] = {{.fld_val = 1, .p_ptr_entry = &e_pint}};
    long before = fi_live;
    void *p = metac_new_ptr_cast_context("count", "type", c, sizeof(c));
    metac_ptr_cast_context_delete(p);
    if (fi_live != before) { printf("%ld blocks lost\n", fi_live - before); return 1; }
    return 0;
}
"""}
