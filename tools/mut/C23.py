W="src/value_with_args.c"
INS="""    if (p_param_storage->p_last_added_param == NULL) {
        LIST_INSERT_HEAD(&p_param_storage->list, p_param, links);
    } else {
        LIST_INSERT_AFTER(p_param_storage->p_last_added_param, p_param, links);
    }
    ++p_param_storage->list_size;
    p_param_storage->p_last_added_param = p_param;
"""
MUT=[
    ("copy never succeeds", [("src/value_with_args.c", """            if (metac_parameter_storage_copy(p_inner_param_storage, p_inner_dst_param_storage) != 0) {
                return -(EFAULT);
            }
        }
    }
    return 0;""", """            if (metac_parameter_storage_copy(p_inner_param_storage, p_inner_dst_param_storage) != 0) {
                return -(EFAULT);
            }
        }
    }
    return 1;""")]),
 ("head-always",[(W,INS,"    LIST_INSERT_HEAD(&p_param_storage->list, p_param, links);\n    ++p_param_storage->list_size;\n    p_param_storage->p_last_added_param = p_param;\n")]),
 ("last-keep",[(W,"    ++p_param_storage->list_size;\n    p_param_storage->p_last_added_param = p_param;","    ++p_param_storage->list_size;\n    if (p_param_storage->p_last_added_param == NULL) p_param_storage->p_last_added_param = p_param;")]),
 ("count-early",[(W,"    metac_parameter_t * p_param = calloc(1, sizeof(*p_param));\n    _check_(p_param == NULL, NULL);\n","    ++p_param_storage->list_size;\n    metac_parameter_t * p_param = calloc(1, sizeof(*p_param));\n    _check_(p_param == NULL, NULL);\n"),(W,"    ++p_param_storage->list_size;\n    p_param_storage->p_last","    p_param_storage->p_last")]),
 ("count-size0",[(W,"    ++p_param_storage->list_size;\n    p_param_storage->p_last","    p_param_storage->list_size += (size != 0);\n    p_param_storage->p_last")]),
 ("before",[(W,"        LIST_INSERT_AFTER(p_param_storage->p_last_added_param, p_param, links);","        LIST_INSERT_BEFORE(p_param_storage->p_last_added_param, p_param, links);")]),
 ("after-first",[(W,"        LIST_INSERT_AFTER(p_param_storage->p_last_added_param, p_param, links);","        LIST_INSERT_AFTER(LIST_FIRST(&p_param_storage->list), p_param, links);")]),
 ("entry-share",[(W,"    if (p_entry_copy != NULL) {\n        p_param->p_entry = p_entry_copy;","    if (p_entry_copy != NULL && size != 0) {\n        p_param->p_entry = p_entry_copy;")]),
 ("size-less",[(W,"    p_param->size = size;","    p_param->size = size > 16 ? 16 : size;")]),
 ("addr-none",[(W,"    p_param->addr = addr;\n","    p_param->addr = p_entry != NULL ? addr : NULL;\n")]),
 ("cleanup-last",[(W,"    p_param_storage->list_size = 0;\n    p_param_storage->p_last_added_param = NULL;\n}","    p_param_storage->list_size = 0;\n}")]),
 ("cleanup-size",[(W,"    p_param_storage->list_size = 0;\n    p_param_storage->p_last_added_param = NULL;\n}","    p_param_storage->p_last_added_param = NULL;\n}")]),
 ("size-q",[(W,"    return p_param_storage->list_size;","    return p_param_storage->p_last_added_param == NULL ? 1 : p_param_storage->list_size;")]),
 ("copy-bytes",[(W,"memcpy(p_dst_param_storage->p_last_added_param->addr, p_param->addr, p_param->size);","memcpy(p_dst_param_storage->p_last_added_param->addr, p_param->addr, p_param->size > 8 ? 8 : p_param->size);")]),
 ("copy-inner",[(W,"            if (metac_parameter_storage_copy(p_inner_param_storage, p_inner_dst_param_storage) != 0) {\n                return -(EFAULT);\n            }","            (void)p_inner_dst_param_storage; (void)p_inner_param_storage;")]),
 ("copy-inner-ign",[(W,"            if (metac_parameter_storage_copy(p_inner_param_storage, p_inner_dst_param_storage) != 0) {\n                return -(EFAULT);\n            }","            metac_parameter_storage_copy(p_inner_param_storage, p_inner_dst_param_storage);")]),
 ("copy-inner-swap",[(W,"metac_parameter_storage_copy(p_inner_param_storage, p_inner_dst_param_storage) != 0","metac_parameter_storage_copy(p_inner_dst_param_storage, p_inner_param_storage) != 0")]),
 ("copy-stop",[(W,"                return -(EFAULT);\n            }\n        }\n    }\n    return 0;","                return -(EFAULT);\n            }\n            break;\n        }\n    }\n    return 0;")]),
 ("copy-skip",[(W,"    LIST_FOREACH(p_param, &p_src_param_storage->list, links) {\n        if (p_param->size != 0) {","    LIST_FOREACH(p_param, &p_src_param_storage->list, links) {\n        if (p_param->addr == NULL) continue;\n        if (p_param->size != 0) {")]),
 ("nth-1",[(W,"    metac_num_t current = 0;\n    metac_parameter_t","    metac_num_t current = 1;\n    metac_parameter_t")]),
 ("nth-ge",[(W,"        if (id == current) {\n            return metac_new_value","        if (id <= current) {\n            return metac_new_value")]),
 ("nth-skip",[(W,"        if (id == current) {\n            return metac_new_value(p_param->p_entry, p_param->addr);\n        }\n        ++current;","        if (id == current) {\n            return metac_new_value(p_param->p_entry, p_param->addr);\n        }\n        if (p_param->size != 0) ++current;")]),
 ("nth-entry",[(W,"metac_new_value(p_param->p_entry, p_param->addr)","metac_new_value(metac_entry_parameter_entry(p_param->p_entry), p_param->addr)")]),
]
REF=[
 ("prefix-inc",[(W,"    ++p_param_storage->list_size;\n    p_param_storage->p_last_added_param = p_param;","    p_param_storage->p_last_added_param = p_param;\n    p_param_storage->list_size += 1;")]),
 ("empty",[(W,"    if (p_param_storage->p_last_added_param == NULL) {\n        LIST_INSERT_HEAD","    if (LIST_EMPTY(&p_param_storage->list)) {\n        LIST_INSERT_HEAD")]),
 ("swap",[(W,INS,"""    metac_parameter_t * p_last = p_param_storage->p_last_added_param;
    if (p_last != NULL) {
        LIST_INSERT_AFTER(p_last, p_param, links);
    } else {
        LIST_INSERT_HEAD(&p_param_storage->list, p_param, links);
    }
    p_param_storage->p_last_added_param = p_param;
    p_param_storage->list_size++;
""")]),
 ("helper",[(W,"metac_parameter_t * _parameter_storage_append_by_buffer(","static void _link(metac_parameter_storage_t * p_param_storage, metac_parameter_t * p_param) {\n"+INS+"}\nmetac_parameter_t * _parameter_storage_append_by_buffer("),(W,"    // add to the end of list\n"+INS,"    _link(p_param_storage, p_param);\n")]),
 ("entry-cond",[(W,"    if (p_entry_copy != NULL) {\n        p_param->p_entry = p_entry_copy;\n    } else {\n        p_param->p_entry = p_entry;\n    }","    p_param->p_entry = (p_entry_copy != NULL) ? p_entry_copy : p_entry;")]),
 ("nth-for",[(W,"""    LIST_FOREACH(p_param, &p_param_storage->list, links) {
        if (id == current) {
            return metac_new_value(p_param->p_entry, p_param->addr);
        }
        ++current;
    }
    return NULL;""","""    for (p_param = LIST_FIRST(&p_param_storage->list); p_param != NULL && current != id; p_param = LIST_NEXT(p_param, links)) {
        ++current;
    }
    return p_param == NULL ? NULL : metac_new_value(p_param->p_entry, p_param->addr);""")]),
 ("nth-down",[(W,"""    metac_num_t current = 0;
    metac_parameter_t * p_param = NULL;
    LIST_FOREACH(p_param, &p_param_storage->list, links) {
        if (id == current) {
            return metac_new_value(p_param->p_entry, p_param->addr);
        }
        ++current;
    }""","""    metac_parameter_t * p_param = NULL;
    LIST_FOREACH(p_param, &p_param_storage->list, links) {
        if (id == 0) {
            return metac_new_value(p_param->p_entry, p_param->addr);
        }
        --id;
    }""")]),
 ("nth-bound",[(W,"    metac_num_t current = 0;\n    metac_parameter_t","    if (id >= p_param_storage->list_size) return NULL;\n    metac_num_t current = 0;\n    metac_parameter_t")]),
 ("copy-local",[(W,"memcpy(p_dst_param_storage->p_last_added_param->addr, p_param->addr, p_param->size);","metac_parameter_t * p_copy = p_dst_param_storage->p_last_added_param;\n            memcpy(p_copy->addr, p_param->addr, p_copy->size);")]),
 ("copy-helper",[(W,"int metac_parameter_storage_copy(","static int _copy_one(metac_parameter_t * p_param, metac_parameter_storage_t * p_dst_param_storage) {\n    int rc = metac_parameter_storage_append_by_buffer(p_dst_param_storage, p_param->p_entry, p_param->size);\n    if (rc != 0) {\n        return rc;\n    }\n    memcpy(p_dst_param_storage->p_last_added_param->addr, p_param->addr, p_param->size);\n    return 0;\n}\nint metac_parameter_storage_copy("),
   (W,"""            if (metac_parameter_storage_append_by_buffer(p_dst_param_storage, 
                p_param->p_entry, p_param->size) != 0) {
                return -(EFAULT);
            }
            assert(p_dst_param_storage->p_last_added_param != NULL);
            assert(p_dst_param_storage->p_last_added_param->addr != NULL);
            assert(p_dst_param_storage->p_last_added_param->size == p_param->size);
            memcpy(p_dst_param_storage->p_last_added_param->addr, p_param->addr, p_param->size);""","            if (_copy_one(p_param, p_dst_param_storage) != 0) {\n                return -(EFAULT);\n            }")]),
 ("copy-inv",[(W,"        if (p_param->size != 0) {\n            if (metac_parameter_storage_append_by_buffer(p_dst","        int plain = p_param->size > 0;\n        if (plain) {\n            if (metac_parameter_storage_append_by_buffer(p_dst")]),
 ("cleanup-for",[(W,"    while (!LIST_EMPTY(&p_param_storage->list)) {\n        metac_parameter_t * p_param = LIST_FIRST(&p_param_storage->list);","    metac_parameter_t * p_param;\n    while ((p_param = LIST_FIRST(&p_param_storage->list)) != NULL) {")]),
]
