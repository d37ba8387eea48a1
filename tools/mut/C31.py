D="src/value_deep.c"; V="src/value.c"; B="src/value_base_type.c"
MUT=[
 ("no null",[(D,"(v_src == NULL && metac_value_set_pointer(p_dst_val, NULL) != 0)","(v_src != NULL && metac_value_set_pointer(p_dst_val, NULL) != 0)")]),
 ("ignore as value",[(D,"else if (p_mode->unknown_ptr_mode == METAC_UPTR_ignore){  /* set as NULL. */\n                        if (metac_value_set_pointer(p_dst_val, NULL)!=0","else if (p_mode->unknown_ptr_mode == METAC_UPTR_ignore){  /* set as NULL. */\n                        if (metac_value_copy_pointer(p->p_val, p_dst_val)==NULL")]),
 ("as value null",[(D,"if (metac_value_copy_pointer(p->p_val, p_dst_val)== NULL)","if (metac_value_set_pointer(p_dst_val, NULL)!= 0)")]),
 ("enum wrong",[(D,"metac_value_copy_enumeration(p->p_val, p_dst_val)","metac_value_copy_enumeration(p_dst_val, p->p_val)")]),
 ("base dst",[(D,"metac_value_copy_base_type(p->p_val, p_dst_val) == NULL","metac_value_copy_base_type(p_dst_val, p_dst_val) == NULL")]),
 ("field offset lost",[(D,"v_dst = v_dst + field_offset;","v_dst = p_dst_children_addr_override;")]),
 ("field offset minus",[(D,"v_dst = v_dst + field_offset;","v_dst = v_dst - field_offset;")]),
 ("tree count",[(D,"calloc_fn(nmemb, p->pp_children[0]->byte_size/nmemb)","calloc_fn(1, p->pp_children[0]->byte_size/nmemb)")]),
 ("tree own size",[(D,"calloc_fn(nmemb, p->pp_children[0]->byte_size/nmemb)","calloc_fn(nmemb, p->byte_size/nmemb)")]),
 ("weak base",[(D,"p_dst_children_addr_override = allocate_dst + p->pp_children[0]->offset_from_allocate_base;","p_dst_children_addr_override = allocate_dst;")]),
 ("weak key",[(D,"void * allocate_src = src - p->pp_children[0]->offset_from_allocate_base;","void * allocate_src = src;")]),
 ("weak shallow",[(D,"p_dst_children_addr_override = allocate_dst + p->pp_children[0]->offset_from_allocate_base;","p_dst_children_addr_override = src;")]),
 ("loop level",[(D,"metac_memory_entry_parent(p, p->loop_level);","metac_memory_entry_parent(p, 1);")]),
 ("loop shallow",[(D,"if (metac_value_copy_pointer((metac_value_t*)p_parent->private_data, p_dst_val)","if (metac_value_copy_pointer(p_parent->p_val, p_dst_val)")]),
 ("loop own",[(D,"if (metac_value_copy_pointer((metac_value_t*)p_parent->private_data, p_dst_val)","if (metac_value_copy_pointer(p->p_val, p_dst_val)")]),
 ("union size",[(D,"memcpy(metac_value_addr(p_dst_val), metac_value_addr(p->p_val), p->byte_size);","memcpy(metac_value_addr(p_dst_val), metac_value_addr(p->p_val), p->byte_size < 8 ? p->byte_size : 8);")]),
 ("union swap modes",[(D,"case METAC_UNION_as_mem:\n                            memcpy","case METAC_UNION_ignore:\n                            memcpy"),(D,"case METAC_UNION_ignore:\n                            memset","case METAC_UNION_as_mem:\n                            memset")]),
 ("union kept",[(D,"                            memset(metac_value_addr(p_dst_val), 0, p->byte_size);\n","")]),
 ("child delta",[(D,"metac_value_addr(p_dst_val) + delta);","metac_value_addr(p_dst_val) + (metac_size_t)i * delta);")]),
 ("child entry",[(D,"p_child_val = metac_new_value(metac_value_entry(p->pp_children[i]->p_val), metac_value_addr(p_dst_val) + delta);","p_child_val = metac_new_value(metac_value_entry(p->pp_children[0]->p_val), metac_value_addr(p_dst_val) + delta);")]),
 ("child src",[(D,"metac_value_addr(p_dst_val) + delta);","metac_value_addr(p->p_val) + delta);")]),
 ("param index",[(D,"metac_parameter_storage_new_param_value(p_dst_param_storage, i);","metac_parameter_storage_new_param_value(p_dst_param_storage, 0);")]),
 ("param src",[(D,"metac_parameter_storage_new_param_value(p_dst_param_storage, i);","metac_parameter_storage_new_param_value(p_param_storage, i);")]),
 ("type prefix",[(D,"types_cmp = strcmp(src_cdecl, dst_cdecl);","types_cmp = strncmp(src_cdecl, dst_cdecl, strlen(dst_cdecl));")]),
 ("type self",[(D,"* p_dst_final_entry = metac_entry_final_entry(metac_value_entry(p_dst_val), NULL);","* p_dst_final_entry = metac_entry_final_entry(metac_value_entry(p_src_val), NULL);")]),
 ("prealloc size",[(D,"p_context->calloc_fn(1, p_ptr_entry->byte_size);","p_context->calloc_fn(1, p_ptr_entry->children_count);")]),
 ("prealloc weak",[(D,"if (p_ptr_entry->offset_from_allocate_base == 0) { /* delete non weak only */\n        void * dst","if (p_ptr_entry->offset_from_allocate_base >= 0) { /* delete non weak only */\n        void * dst")]),
 ("no tags",[(D,"context.p_map = metac_new_value_memory_map_ex(p_src_val, p_mode, p_tag_map);","context.p_map = metac_new_value_memory_map_ex(p_src_val, p_mode, NULL);")]),
 ("leaf enum int",[(V,"metac_value_set_enumeration(p_dst_val, v) != 0","metac_value_set_enumeration(p_dst_val, (int)v) != 0")]),
 ("leaf setter",[(B,"if (metac_value_set_##_pseudoname_(p_dst_val, v) != 0) { \\\n                return NULL; \\","if (v != 0 && metac_value_set_##_pseudoname_(p_dst_val, v) != 0) { \\\n                return NULL; \\")]),
]
REF=[
 ("offset always",[(D,"""                        if (metac_value_addr(p->pp_children[0]->p_val) != v_src) {
                            size_t field_offset = v_src - metac_value_addr(p->pp_children[0]->p_val);
                            v_dst = v_dst + field_offset;
                        }
""","""                        v_dst = v_dst + (v_src - metac_value_addr(p->pp_children[0]->p_val));
""")]),
 ("weak always",[(D,"if (p->pp_children[0]->offset_from_allocate_base != 0) {\n                                    void","if (p->pp_children[0]->offset_from_allocate_base > 0) {\n                                    void")]),
 ("else if order",[(D,"""                }else if (metac_value_is_enumeration(p->p_val)) {
                    if (metac_value_copy_enumeration(p->p_val, p_dst_val) == NULL) {
                        metac_recursive_iterator_fail(p_iter);
                        continue;
                    }
                }else if (metac_value_is_base_type(p->p_val)) {
                    if (metac_value_copy_base_type(p->p_val, p_dst_val) == NULL) {
                        metac_recursive_iterator_fail(p_iter);
                        continue;
                    }
""","""                }else if (metac_value_is_base_type(p->p_val)) {
                    if (metac_value_copy_base_type(p->p_val, p_dst_val) == NULL) {
                        metac_recursive_iterator_fail(p_iter);
                        continue;
                    }
                }else if (metac_value_is_enumeration(p->p_val)) {
                    if (metac_value_copy_enumeration(p->p_val, p_dst_val) == NULL) {
                        metac_recursive_iterator_fail(p_iter);
                        continue;
                    }
""")]),
 ("child local",[(D,"""                    if (p->pp_children[i] != NULL) {
                        metac_value_t * p_child_val;
                        if""","""                    struct metac_memory_entry * p_child = p->pp_children[i];
                    if (p_child != NULL) {
                        metac_value_t * p_child_val;
                        if"""),(D,"metac_size_t delta = metac_value_addr(p->pp_children[i]->p_val) - metac_value_addr(p->p_val);","metac_size_t delta = metac_value_addr(p_child->p_val) - metac_value_addr(p->p_val);")]),
 ("early types",[(D,"    if (types_cmp != 0) {\n        return NULL;\n    }\n    \n    struct _metac_value_copy_context","    if (!(types_cmp == 0)) {\n        return NULL;\n    }\n\n    struct _metac_value_copy_context")]),
 ("private first",[(D,"""                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]) != 0) {
                            metac_value_delete(p_child_val);
                            failure = 1;
                            break;
                        }
                        p->pp_children[i]->private_data = p_child_val;
""","""                        p->pp_children[i]->private_data = p_child_val;
                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]) != 0) {
                            p->pp_children[i]->private_data = NULL;
                            metac_value_delete(p_child_val);
                            failure = 1;
                            break;
                        }
""")]),
 ("union if",[(D,"""                    switch (p_mode->union_mode) {
                        case METAC_UNION_as_mem:
                            memcpy(metac_value_addr(p_dst_val), metac_value_addr(p->p_val), p->byte_size);
                            break;
                        case METAC_UNION_ignore:
                            memset(metac_value_addr(p_dst_val), 0, p->byte_size);
                            break;
                        default:
                            break;
                    }
""","""                    void * to = metac_value_addr(p_dst_val);
                    if (p_mode->union_mode == METAC_UNION_as_mem) {
                        memcpy(to, metac_value_addr(p->p_val), p->byte_size);
                    } else if (p_mode->union_mode == METAC_UNION_ignore) {
                        memset(to, 0, p->byte_size);
                    }
""")]),
]
