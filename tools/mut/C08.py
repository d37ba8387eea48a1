V, D, T, S = "src/value.c", "src/value_deep.c", "src/entry_tag.c", "src/value_string.c"
MUT = [
    ("union wrong way", [(D, "memcpy(metac_value_addr(p_dst_val), metac_value_addr(p->p_val), p->byte_size);", "memcpy(metac_value_addr(p->p_val), metac_value_addr(p_dst_val), p->byte_size);")]),
    ("clear source", [(D, "memset(metac_value_addr(p_dst_val), 0, p->byte_size);", "memset(metac_value_addr(p->p_val), 0, p->byte_size);")]),
    ("normalise while comparing", [(D, "                            if (_cmp == 0) {\n                                cmp_res = 0;\n                            }\n                        }\n                        metac_recursive_iterator_done(p_iter, &cmp_res);", "                            if (_cmp == 0) {\n                                cmp_res = 0;\n                            }\n                        } else {\n                            metac_value_copy_pointer(p1->p_val, p2->p_val);\n                        }\n                        metac_recursive_iterator_done(p_iter, &cmp_res);")]),
    ("read writes back", [(V, "    *pp_addr = *((void**)p_val->addr);", "    *pp_addr = *((void**)p_val->addr);\n    if (*pp_addr == (void*)-1) { *((void**)p_val->addr) = NULL; *pp_addr = NULL; }")]),
    ("copy swapped", [(V, "    if (metac_value_pointer(p_src_val, &v) != 0) {\n        return NULL;\n    }\n    if (metac_value_set_pointer(p_dst_val, v) != 0) {", "    if (metac_value_pointer(p_dst_val, &v) != 0) {\n        return NULL;\n    }\n    if (metac_value_set_pointer(p_src_val, v) != 0) {")]),
    ("move", [(V, "    if (metac_value_set_pointer(p_dst_val, v) != 0) {\n        return NULL;\n    }\n    return p_dst_val;", "    if (metac_value_set_pointer(p_dst_val, v) != 0) {\n        return NULL;\n    }\n    if (v == NULL) metac_value_set_pointer(p_src_val, NULL);\n    return p_dst_val;")]),
]
REF = [
    ("locals", [(D, "memcpy(metac_value_addr(p_dst_val), metac_value_addr(p->p_val), p->byte_size);", "{\n                                void * p_to = metac_value_addr(p_dst_val);\n                                const void * p_from = metac_value_addr(p->p_val);\n                                memmove(p_to, p_from, p->byte_size);\n                            }")]),
    ("helper", [(V, "int metac_value_set_pointer(", "static void _store_ptr(void * p_where, void * p_what) {\n    memcpy(p_where, &p_what, sizeof(p_what));\n}\n\nint metac_value_set_pointer("), (V, "    *((void**)p_val->addr) = addr;", "    _store_ptr(p_val->addr, addr);")]),
    ("memcpy read", [(V, "    *pp_addr = *((void**)p_val->addr);", "    memcpy(pp_addr, p_val->addr, sizeof(*pp_addr));")]),
    ("delegate", [(V, "    void* v;\n    if (metac_value_pointer(p_src_val, &v) != 0) {\n        return NULL;\n    }\n    if (metac_value_set_pointer(p_dst_val, v) != 0) {\n        return NULL;\n    }\n    return p_dst_val;", "    void* v = NULL;\n    int err = metac_value_pointer(p_src_val, &v);\n    if (err == 0) {\n        err = metac_value_set_pointer(p_dst_val, v);\n    }\n    return err == 0 ? p_dst_val : NULL;")]),
    ("extracted loop helper", [(D, "static bool _value_copy_free(", "static int _copy_union(struct metac_memory_entry * p, metac_value_t * p_to, int clear) {\n    if (clear) {\n        memset(metac_value_addr(p_to), 0, p->byte_size);\n    } else {\n        memcpy(metac_value_addr(p_to), metac_value_addr(p->p_val), p->byte_size);\n    }\n    return 0;\n}\n\nstatic bool _value_copy_free("),
       (D, "                            memcpy(metac_value_addr(p_dst_val), metac_value_addr(p->p_val), p->byte_size);", "                            _copy_union(p, p_dst_val, 0);"),
       (D, "                            memset(metac_value_addr(p_dst_val), 0, p->byte_size);", "                            _copy_union(p, p_dst_val, 1);")]),
]
