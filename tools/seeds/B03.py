PROPERTY="C13"
NEEDS="a deep operation over data with a circular pointer"
BREAKS="the element that closes the loop gets its result and then goes on as if it had not been finished"
EDITS=[("src/value_deep.c","""                        p_memory_entry->loop_level = loop_level;
                        metac_recursive_iterator_done(p_iter, p_memory_entry);
                        continue;    
                    }
                    /* generic case - we need to convert pointer to array (can be flexible), try handler first */
""","""                        p_memory_entry->loop_level = loop_level;
                        metac_recursive_iterator_done(p_iter, p_memory_entry);
                    }
                    /* generic case - we need to convert pointer to array (can be flexible), try handler first */
""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build_fi demo.c
timeout 20 "$OUT/demo"
""","demo.c":r"""
#include "md.h"
#include "fi.h"
#include "metac/backend/value.h"
int main(void) {
    struct lst *a = malloc(sizeof(*a)), *b = malloc(sizeof(*b));
    *a = (struct lst){1, b};
    *b = (struct lst){2, a};
    struct lst *p = a;
    metac_value_t *v = metac_new_value(&e_plst, &p);
    if (metac_value_free_ex(v, NULL, free, NULL) == 0) return 1;
    metac_value_delete(v);
    return fi_live != 0;
}
"""}
