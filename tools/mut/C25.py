I="src/iterator.c"
MUT=[
 ("is-end",[("include/metac/backend/iterator.h","    return state == METAC_R_ITER_done || state == METAC_R_ITER_failed;","    return state == METAC_R_ITER_done;")]),
 ("no-deps",[(I,"            if (!metac_r_iter_state_is_end(p_dep->state)) {\n                break;","            if (p_dep->state == METAC_R_ITER_start) {\n                break;")]),
 ("stop-failed",[(I,"                failed = 1;\n            }","                failed = 1;\n                p_dep = NULL;\n                break;\n            }")]),
 ("last-dep",[(I,"        recursive_iterator_entry_t * p_dep = LIST_FIRST(&p_iterator->p_current->deps);\n        while","        recursive_iterator_entry_t * p_dep = p_iterator->p_current->last_dep;\n        while")]),
 ("root-up",[(I,"            p_iterator->p_current = p_iterator->p_current->p_parent;\n            continue;","            p_iterator->p_current = p_iterator->p_current->p_parent;\n            return p_iterator->p_current->p_in;")]),
 ("end-early",[(I,"            if (p_iterator->p_current->p_parent == NULL) {\n                return NULL;","            if (p_iterator->p_current->p_parent == NULL || p_iterator->p_current->state == METAC_R_ITER_failed) {\n                return NULL;")]),
 ("early",[(I,"        // check all deps\n        if (LIST_EMPTY(&p_iterator->p_current->deps)) {","        // check all deps\n        if (LIST_EMPTY(&p_iterator->p_current->deps) || p_iterator->p_current->state == METAC_R_ITER_start) {")]),
 ("dep-in",[(I,"        // all deps are finished (some of them may fail)\n","        // all deps are finished (some of them may fail)\n        if (failed) return NULL;\n")]),
 ("lifo",[(I,"        LIST_INSERT_AFTER(p_iterator->p_current->last_dep, p_new, links); ","        LIST_INSERT_BEFORE(p_iterator->p_current->last_dep, p_new, links); ")]),
 ("after-head",[(I,"        LIST_INSERT_AFTER(p_iterator->p_current->last_dep, p_new, links); ","        LIST_INSERT_AFTER(LIST_FIRST(&p_iterator->p_current->deps), p_new, links); ")]),
 ("nolast",[(I,"    p_iterator->p_current->last_dep = p_new;\n\n    return 0;","    if (p_iterator->p_current->last_dep == NULL) p_iterator->p_current->last_dep = p_new;\n\n    return 0;")]),
 ("parent-root",[(I,"metac_new_recursive_iterator_entry(p_iterator->p_current, p_in);","metac_new_recursive_iterator_entry(&p_iterator->recursive_iterator_entry, p_in);")]),
 ("deq-last",[(I,"    if (LIST_EMPTY(&p_iterator->p_current->deps)) {\n        p_iterator->p_current->last_dep = NULL;\n    }\n","")]),
 ("deq-last-always",[(I,"    if (LIST_EMPTY(&p_iterator->p_current->deps)) {\n        p_iterator->p_current->last_dep = NULL;\n    }\n","    p_iterator->p_current->last_dep = NULL;\n")]),
 ("deq-from-last",[(I,"    recursive_iterator_entry_t * p_entry = LIST_FIRST(&p_iterator->p_current->deps);\n    assert","    recursive_iterator_entry_t * p_entry = p_iterator->p_current->last_dep;\n    assert")]),
 ("fail-flag",[(I,"    int fail = p_iterator_entry->state == METAC_R_ITER_failed;","    int fail = p_iterator_entry->state != METAC_R_ITER_failed;")]),
 ("fail-flag2",[(I,"    int fail = p_iterator_entry->state == METAC_R_ITER_failed;","    int fail = p_iterator_entry->state == METAC_R_ITER_failed && p_iterator_entry->p_in != NULL;")]),
 ("fail-flag3",[(I,"    if (p_fail != NULL) {\n        *p_fail = fail;\n    }","    if (p_fail != NULL && fail) {\n        *p_fail = fail;\n    }")]),
 ("in-out",[(I,"        *pp_in = p_iterator_entry->p_in;","        *pp_in = p_iterator_entry->p_context;")]),
 ("done-out",[(I,"    p_iterator->p_current->p_out = p_out;\n","    if (p_out != NULL) p_iterator->p_current->p_out = p_out;\n")]),
 ("ctx",[(I,"    return p_iterator->p_current->p_context;\n}\n\nvoid * metac_recursive_iterator_set","    return p_iterator->recursive_iterator_entry.p_context;\n}\n\nvoid * metac_recursive_iterator_set")]),
 ("fail-done",[(I,"return metac_recursive_iterator_set_state(p_iterator, METAC_R_ITER_failed);","return metac_recursive_iterator_set_state(p_iterator, METAC_R_ITER_done);")]),
 ("level",[(I,"    int level = 0;\n    recursive_iterator_entry_t * p_entry = p_iterator->p_current;\n    while (p_entry->p_parent","    int level = 1;\n    recursive_iterator_entry_t * p_entry = p_iterator->p_current;\n    while (p_entry->p_parent")]),
 ("getin",[(I,"        if (level == req_level) {\n            return p_entry->p_in;\n        }\n        if (p_entry->p_parent == NULL) {\n            return NULL;\n        }","        if (level == req_level || p_entry->p_parent == NULL) {\n            return p_entry->p_in;\n        }")]),
 ("depout",[(I,"    while (i > 0) {\n        --i;","    while (i > 1) {\n        --i;")]),
 ("qsize",[(I,"        ++size;\n        p_entry = LIST_NEXT(p_entry, links);","        size += !metac_r_iter_state_is_end(p_entry->state);\n        p_entry = LIST_NEXT(p_entry, links);")]),
 ("set-state",[(I,"    p_iterator->p_current->state = state;\n    return p_iterator;","    p_iterator->p_current->state = state < METAC_R_ITER_failed ? METAC_R_ITER_failed : state;\n    return p_iterator;")]),
]
REF=[
 ("local-cur",[(I,"""    do {
        if (metac_r_iter_state_is_end(p_iterator->p_current->state)) {
            if (p_iterator->p_current->p_parent == NULL) {
                return NULL; // end of iterator
            }
            p_iterator->p_current = p_iterator->p_current->p_parent;
            continue;
        }""","""    do {
        recursive_iterator_entry_t * p_cur = p_iterator->p_current;
        if (metac_r_iter_state_is_end(p_cur->state)) {
            if (p_cur->p_parent == NULL) {
                return NULL; // end of iterator
            }
            p_iterator->p_current = p_cur->p_parent;
            continue;
        }""")]),
 ("for-deps",[(I,"""        recursive_iterator_entry_t * p_dep = LIST_FIRST(&p_iterator->p_current->deps);
        while (p_dep != NULL) {
            if (p_dep->state == METAC_R_ITER_failed) {
                failed = 1;
            }
            if (!metac_r_iter_state_is_end(p_dep->state)) {
                break;
            }
            p_dep = LIST_NEXT(p_dep, links);
        }""","""        recursive_iterator_entry_t * p_dep;
        LIST_FOREACH(p_dep, &p_iterator->p_current->deps, links) {
            if (!metac_r_iter_state_is_end(p_dep->state)) {
                break;
            }
            failed |= (p_dep->state == METAC_R_ITER_failed);
        }""")]),
 ("helper-dep",[(I,"void * metac_recursive_iterator_next(","static recursive_iterator_entry_t * first_unfinished(recursive_iterator_entry_t * p_entry) {\n    recursive_iterator_entry_t * p_dep = LIST_FIRST(&p_entry->deps);\n    while (p_dep != NULL && metac_r_iter_state_is_end(p_dep->state)) {\n        p_dep = LIST_NEXT(p_dep, links);\n    }\n    return p_dep;\n}\nvoid * metac_recursive_iterator_next("),(I,"""        // check all deps
        if (LIST_EMPTY(&p_iterator->p_current->deps)) {
            return p_iterator->p_current->p_in;
        }
        // if we have deps, we need to check deps
        int failed = 0;
        recursive_iterator_entry_t * p_dep = LIST_FIRST(&p_iterator->p_current->deps);
        while (p_dep != NULL) {
            if (p_dep->state == METAC_R_ITER_failed) {
                failed = 1;
            }
            if (!metac_r_iter_state_is_end(p_dep->state)) {
                break;
            }
            p_dep = LIST_NEXT(p_dep, links);
        }
        if (p_dep != NULL) { // found not finished dep - need to try to finish - ignore fails of other for now
            p_iterator->p_current = p_dep;
            continue; // go and try to get as deep as possible
        }
        // all deps are finished (some of them may fail)
        if (failed) {
            // p_iterator->p_current->state = METAC_R_ITER_dep_failed;
        }
        return p_iterator->p_current->p_in;
""","        recursive_iterator_entry_t * p_dep = first_unfinished(p_iterator->p_current);\n        if (p_dep == NULL) {\n            return p_iterator->p_current->p_in;\n        }\n        p_iterator->p_current = p_dep;\n")]),
 ("cur-phi",[(I,"    do {\n        if (metac_r_iter_state_is_end(p_iterator->p_current->state)) {\n            if (p_iterator->p_current->p_parent == NULL) {\n                return NULL; // end of iterator\n            }\n            p_iterator->p_current = p_iterator->p_current->p_parent;\n            continue;\n        }","    while (metac_r_iter_state_is_end(p_iterator->p_current->state)) {\n        if (p_iterator->p_current->p_parent == NULL) {\n            return NULL;\n        }\n        p_iterator->p_current = p_iterator->p_current->p_parent;\n    }\n    do {")]),
 ("is-end",[("include/metac/backend/iterator.h","    return state == METAC_R_ITER_done || state == METAC_R_ITER_failed;","    return state <= METAC_R_ITER_done && state >= METAC_R_ITER_failed;")]),
 ("is-end-switch",[("include/metac/backend/iterator.h","    return state == METAC_R_ITER_done || state == METAC_R_ITER_failed;","    switch (state) {\n    case METAC_R_ITER_done:\n    case METAC_R_ITER_failed:\n        return 1;\n    default:\n        return 0;\n    }")]),
 ("append-last",[(I,"    if (LIST_EMPTY(&p_iterator->p_current->deps)) {\n        assert(p_iterator->p_current->last_dep == NULL);","    if (p_iterator->p_current->last_dep == NULL) {")]),
 ("append-local",[(I,"""    if (LIST_EMPTY(&p_iterator->p_current->deps)) {
        assert(p_iterator->p_current->last_dep == NULL);
        LIST_INSERT_HEAD(&p_iterator->p_current->deps, p_new, links);
    }else {
        assert(p_iterator->p_current->last_dep != NULL);
        LIST_INSERT_AFTER(p_iterator->p_current->last_dep, p_new, links); 
    }
    p_iterator->p_current->last_dep = p_new;""","""    recursive_iterator_entry_t * p_cur = p_iterator->p_current;
    if (!LIST_EMPTY(&p_cur->deps)) {
        LIST_INSERT_AFTER(p_cur->last_dep, p_new, links); 
    } else {
        LIST_INSERT_HEAD(&p_cur->deps, p_new, links);
    }
    p_cur->last_dep = p_new;""")]),
 ("deq-early",[(I,"""    LIST_REMOVE(p_entry, links);
    if (LIST_EMPTY(&p_iterator->p_current->deps)) {
        p_iterator->p_current->last_dep = NULL;
    }

    void * p_out = metac_recursive_iterator_entry_get_out(p_entry, pp_in, p_fail);
    metac""","""    void * p_out = metac_recursive_iterator_entry_get_out(p_entry, pp_in, p_fail);
    if (p_iterator->p_current->last_dep == p_entry) {
        p_iterator->p_current->last_dep = NULL;
    }
    LIST_REMOVE(p_entry, links);
    metac""")]),
 ("deq-next",[(I,"    LIST_REMOVE(p_entry, links);\n    if (LIST_EMPTY(&p_iterator->p_current->deps)) {","    if (LIST_NEXT(p_entry, links) == NULL) {"),(I,"    void * p_out = metac_recursive_iterator_entry_get_out(p_entry, pp_in, p_fail);\n","    LIST_REMOVE(p_entry, links);\n    void * p_out = metac_recursive_iterator_entry_get_out(p_entry, pp_in, p_fail);\n")]),
 ("fail-if",[(I,"    if (p_fail != NULL) {\n        *p_fail = fail;\n    }","    if (p_fail != NULL) {\n        *p_fail = fail ? 1 : 0;\n    }")]),
 ("getin-for",[(I,"""    int level = 0;
    recursive_iterator_entry_t * p_entry = p_iterator->p_current;
    while (1) {
        if (level == req_level) {
            return p_entry->p_in;
        }
        if (p_entry->p_parent == NULL) {
            return NULL;
        }
        p_entry = p_entry->p_parent;
        ++level;
    }""","""    recursive_iterator_entry_t * p_entry = p_iterator->p_current;
    for (int level = 0; p_entry != NULL; ++level, p_entry = p_entry->p_parent) {
        if (level == req_level) {
            return p_entry->p_in;
        }
    }
    return NULL;""")]),
 ("level-for",[(I,"    while (p_entry->p_parent != NULL) {\n        p_entry = p_entry->p_parent;\n        ++level;\n    }\n    return level;","    for (; p_entry->p_parent != NULL; p_entry = p_entry->p_parent) {\n        level++;\n    }\n    return level;")]),
 ("depout-for",[(I,"    while (i > 0) {\n        --i;\n        p_entry = LIST_NEXT(p_entry, links);\n        if (p_entry == NULL) {\n            return NULL;\n        }\n    }","    for (; i > 0 && p_entry != NULL; --i) {\n        p_entry = LIST_NEXT(p_entry, links);\n    }\n    if (p_entry == NULL) {\n        return NULL;\n    }")]),
 ("qsize-foreach",[(I,"    recursive_iterator_entry_t * p_entry = LIST_FIRST(&p_iterator->p_current->deps);\n    while (p_entry != NULL) {\n        ++size;\n        p_entry = LIST_NEXT(p_entry, links);\n    }","    recursive_iterator_entry_t * p_entry;\n    LIST_FOREACH(p_entry, &p_iterator->p_current->deps, links) {\n        size++;\n    }")]),
 ("new-init",[(I,"    p_iterator->p_current = &p_iterator->recursive_iterator_entry;\n    return p_iterator;","    p_iterator->recursive_iterator_entry.state = METAC_R_ITER_start;\n    p_iterator->p_current = (recursive_iterator_entry_t *)p_iterator;\n    return p_iterator;")]),
]
