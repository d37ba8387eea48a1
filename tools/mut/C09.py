D = "src/value_deep.c"
MUT = [
    ("tree calloc", [(D, "p_dst_children_addr_override = calloc_fn(nmemb,", "p_dst_children_addr_override = calloc(nmemb,")]),
    ("tree free", [(D, "                                    free_fn(p_dst_children_addr_override);", "                                    free(p_dst_children_addr_override);")]),
    ("prealloc free", [(D, "            p_context->free_fn(dst);", "            free(dst);")]),
    ("copy free", [(D, "        p_context->free_fn(value);", "        free(value);")]),
    ("value free", [(D, "            p_context->free_fn(ptr);", "            free(ptr);")]),
    ("default free with calloc", [(D, "    if (calloc_fn == NULL) {\n        calloc_fn = calloc;\n    }\n    if (free_fn == NULL) {\n        free_fn = free;\n    }", "    if (calloc_fn == NULL) {\n        calloc_fn = calloc;\n        free_fn = free;\n    }\n    if (free_fn == NULL) {\n        free_fn = free;\n    }")]),
    ("default always", [(D, "        .free_fn = free_fn,\n        .preallocation_failed = 0,", "        .free_fn = free,\n        .preallocation_failed = 0,")]),
    ("free_ex ignores", [(D, "struct _metac_value_free_context context = {.free_fn = free_fn,};", "struct _metac_value_free_context context = {.free_fn = free,};")]),
    ("frees the key", [(D, "    if (value != NULL) {\n        p_context->free_fn(value);\n    }\n    return true;", "    if (value != NULL) {\n        p_context->free_fn(value);\n    } else free(value);\n    return true;")]),
    ("free entry", [(D, "            p_context->free_fn(ptr);", "            p_context->free_fn(p_ptr_entry);")]),
    ("shares source", [(D, "metac_value_copy_pointer((metac_value_t*)p_parent->private_data, p_dst_val)", "metac_value_copy_pointer(p_parent->p_val, p_dst_val)")]),
    ("keeps pointer", [(D, "if (metac_value_set_pointer(p_dst_val, NULL)!=0) {", "if (metac_value_copy_pointer(p->p_val, p_dst_val)== NULL) {")]),
    ("points into source", [(D, "                            v_dst = v_dst + field_offset;", "                            v_dst = v_src;")]),
    ("malloc prealloc", [(D, "void * dst = p_context->calloc_fn(1, p_ptr_entry->byte_size);", "void * dst = p_ptr_entry->byte_size < 16 ? calloc(1, 16) : p_context->calloc_fn(1, p_ptr_entry->byte_size);")]),
]
REF = [
    ("ternary", [(D, "    if (calloc_fn == NULL) {\n        calloc_fn = calloc;\n    }\n    if (free_fn == NULL) {\n        free_fn = free;\n    }", "    calloc_fn = calloc_fn != NULL ? calloc_fn : calloc;\n    free_fn = (free_fn == NULL) ? free : free_fn;")]),
    ("context ternary", [(D, "    if (free_fn == NULL) {\n        free_fn = free;\n    }\n    \n    struct metac_memory_map", "    struct metac_memory_map"), (D, "struct _metac_value_free_context context = {.free_fn = free_fn,};", "struct _metac_value_free_context context = {.free_fn = (free_fn != NULL)?free_fn:free,};")]),
    ("use context", [(D, "p_dst_children_addr_override = calloc_fn(nmemb,", "p_dst_children_addr_override = context.calloc_fn(nmemb,"), (D, "                                    free_fn(p_dst_children_addr_override);", "                                    context.free_fn(p_dst_children_addr_override);")]),
    ("helper release", [(D, "/* copy src to dst (with rewriting data)", "static void _drop_all(struct _metac_value_copy_context * p_context) {\n    hashmapForEach(p_context->src_to_dst, _value_copy_free, p_context);\n    hashmapFree(p_context->src_to_dst);\n    p_context->src_to_dst = NULL;\n}\n\n/* copy src to dst (with rewriting data)"),
       (D, "            hashmapForEach(context.src_to_dst, _value_copy_free, &context);\n            hashmapFree(context.src_to_dst);\n            metac_value_memory_map_delete(context.p_map);", "            _drop_all(&context);\n            metac_value_memory_map_delete(context.p_map);")]),
    ("nmemb size", [(D, "p_context->calloc_fn(1, p_ptr_entry->byte_size)", "p_context->calloc_fn((size_t)1, (size_t)p_ptr_entry->byte_size)")]),
    ("switch order", [(D, "                    } else if (p_mode->unknown_ptr_mode == METAC_UPTR_ignore){  /* set as NULL. */\n                        if (metac_value_set_pointer(p_dst_val, NULL)!=0) {\n                            metac_recursive_iterator_fail(p_iter);\n                            continue;\n                        }\n                    } else if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) { /* treat as value, just copy as memory sizeof(void*) */\n                        if (metac_value_copy_pointer(p->p_val, p_dst_val)== NULL) {\n                            metac_recursive_iterator_fail(p_iter);\n                            continue;\n                        }\n                    }",
      "                    } else {\n                        int err = 0;\n                        switch (p_mode->unknown_ptr_mode) {\n                            case METAC_UPTR_as_values:\n                                err = (metac_value_copy_pointer(p->p_val, p_dst_val) == NULL);\n                                break;\n                            case METAC_UPTR_ignore:\n                                err = metac_value_set_pointer(p_dst_val, NULL);\n                                break;\n                            default:\n                                break;\n                        }\n                        if (err != 0) {\n                            metac_recursive_iterator_fail(p_iter);\n                            continue;\n                        }\n                    }")]),
]
