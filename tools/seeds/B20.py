PROPERTY="C25"
NEEDS="a failed subtask followed by one that has not started yet"
BREAKS="the scheduler hands out a task as soon as it meets a failed subtask, although later subtasks of it have not ended"
EDITS=[("src/iterator.c","            if (!metac_r_iter_state_is_end(p_dep->state)) {\n                break;\n            }\n            p_dep = LIST_NEXT(p_dep, links);","            if (!metac_r_iter_state_is_end(p_dep->state)) {\n                break;\n            }\n            p_dep = (failed && p_iterator->p_current->state != METAC_R_ITER_start) ? NULL : LIST_NEXT(p_dep, links);")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include <stdio.h>
#include "metac/backend/iterator.h"
int main(void) {
    int t[3] = {0, 1, 2}, seen = 0, bad = 0;
    metac_recursive_iterator_t * it = metac_new_recursive_iterator(&t[0]);
    for (int * p = metac_recursive_iterator_next(it); p != NULL; p = metac_recursive_iterator_next(it)) {
        if (p == &t[0]) {
            if (metac_recursive_iterator_get_state(it) == METAC_R_ITER_start) {
                metac_recursive_iterator_create_and_append_dep(it, &t[1]);
                metac_recursive_iterator_create_and_append_dep(it, &t[2]);
                metac_recursive_iterator_set_state(it, 1);
                continue;
            }
            if (!(seen & 2)) { bad = 1; break; }
            while (!metac_recursive_iterator_dep_queue_is_empty(it)) metac_recursive_iterator_dequeue_and_delete_dep(it, NULL, NULL);
            metac_recursive_iterator_done(it, NULL);
        } else if (p == &t[1]) {
            metac_recursive_iterator_fail(it);
        } else {
            seen |= 2;
            metac_recursive_iterator_done(it, NULL);
        }
    }
    return bad;
}
"""}
