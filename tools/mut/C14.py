T, D, A, S, V, H = "src/entry_tag.c", "src/value_deep.c", "src/value_with_args.c", "src/value_string.c", "src/value.c", "src/hashmap.c"
MUT = [
    ("copy forgets the failed part", [("src/value_deep.c", """                                metac_value_delete(p_param_val);
                                failure = 1;
                                break;
                            }
                            p->pp_children[i]->private_data = p_param_val;""", """                                metac_value_delete(p_param_val);
                                break;
                            }
                            p->pp_children[i]->private_data = p_param_val;""")]),
    ("map keys", [("src/value_deep.c", '''    context.p_keys = calloc(context.len, sizeof(*context.p_keys));
    if (context.p_keys == NULL) {
        return -(ENOMEM);''','''    context.p_keys = calloc(context.len, sizeof(*context.p_keys));
    if (context.p_keys == NULL) {
        return 0;''')]),
    ("missing part", [("src/value_deep.c", '''                            metac_value_t * p_el_val = metac_new_value_by_element_id(p_local, i);
                            if (p_el_val == NULL) {
                                failure = 1;
                                break;
                            }
                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val) != 0) {
                                metac_value_delete(p_el_val);
                                failure = 1;''','''                            metac_value_t * p_el_val = metac_new_value_by_element_id(p_local, i);
                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val) != 0) {
                                metac_value_delete(p_el_val);
                                failure = 1;''')]),
    ("count value lost", [(T, "        p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);\n        return (p_ev->p_return_value != NULL)?0:-(EFAULT);", "        p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);\n        return 0;")]),
    ("append ignored", [(A, "        if (p_param->size != 0) {\n            if (metac_parameter_storage_append_by_buffer(p_dst_param_storage, \n                p_param->p_entry, p_param->size) != 0) {\n                return -(EFAULT);\n            }",
                         "        if (p_param->size != 0) {\n            if (metac_parameter_storage_append_by_buffer(p_dst_param_storage, \n                p_param->p_entry, p_param->size) != 0) {\n                return 0;\n            }")]),
    ("inner copy ignored", [(A, "if (metac_parameter_storage_copy(p_inner_param_storage, p_inner_dst_param_storage) != 0) {\n                return -(EFAULT);\n            }", "metac_parameter_storage_copy(p_inner_param_storage, p_inner_dst_param_storage);")]),
    ("break instead of return", [(A, "            if (metac_parameter_storage_append_by_parameter_storage(p_dst_param_storage,\n                p_param->p_entry) != 0) {\n                return -(EFAULT);", "            if (metac_parameter_storage_append_by_parameter_storage(p_dst_param_storage,\n                p_param->p_entry) != 0) {\n                break;")]),
    ("put oom", [(H, "                return -(ENOMEM);", "                return 0;")]),
    ("copy result", [(D, "    int fail = 1; /* if there is no iterator */\n    metac_recursive_iterator_get_out(p_iter, NULL, &fail);\n    metac_recursive_iterator_free(p_iter);\n\n    if (context.src_to_dst", "    int fail = 1; /* if there is no iterator */\n    metac_recursive_iterator_get_out(p_iter, NULL, NULL);\n    fail = (p_iter == NULL);\n    metac_recursive_iterator_free(p_iter);\n\n    if (context.src_to_dst")]),
    ("equal failed", [(D, "return fail == 0? cmp_res: -(EFAULT);", "return cmp_res;")]),
    ("set pointer ignored", [(D, "if (metac_value_set_pointer(p_dst_val, v_dst)!= 0) {\n                            metac_recursive_iterator_fail(p_iter);\n                            continue;\n                        }", "metac_value_set_pointer(p_dst_val, v_dst);")]),
    ("handler failure ignored", [(S, "if (metac_value_event_handler_call(p_tag->handler, p_iter, &ev, p_tag->p_context) != 0) {\n                                        metac_recursive_iterator_fail(p_iter);\n                                        continue;\n                                    }\n                                    p_arr_val = ev.p_return_value;", "if (metac_value_event_handler_call(p_tag->handler, p_iter, &ev, p_tag->p_context) == 0) {\n                                        p_arr_val = ev.p_return_value;\n                                    }")]),
    ("wrap failed", [(A, "    if (failed != 0) {\n        metac_value_delete(p_val);\n        p_val = NULL;\n    }", "    if (failed < 0) {\n        metac_value_delete(p_val);\n        p_val = NULL;\n    }")]),
    ("num ignored", [(T, "                metac_num_t content_len = 0;\n                if (metac_value_num(p_sibling_val, &content_len) != 0) {\n                    metac_value_delete(p_sibling_val);\n                    return -(EFAULT);\n                }\n                metac_value_delete(p_sibling_val);\n                p_ev->p_return_value =  ", "                metac_num_t content_len = 0;\n                metac_value_num(p_sibling_val, &content_len);\n                metac_value_delete(p_sibling_val);\n                p_ev->p_return_value =  ")]),
]
REF = [
    ("ret variable", [(A, "    metac_parameter_t * p_param = NULL;\n    LIST_FOREACH(p_param, &p_src_param_storage->list, links) {\n        if (p_param->size != 0) {\n            if (metac_parameter_storage_append_by_buffer(p_dst_param_storage, \n                p_param->p_entry, p_param->size) != 0) {\n                return -(EFAULT);\n            }",
                       "    int err = 0;\n    metac_parameter_t * p_param = NULL;\n    LIST_FOREACH(p_param, &p_src_param_storage->list, links) {\n        if (p_param->size != 0) {\n            err = metac_parameter_storage_append_by_buffer(p_dst_param_storage, \n                p_param->p_entry, p_param->size);\n            if (err != 0) {\n                break;\n            }"),
                      (A, "            if (metac_parameter_storage_copy(p_inner_param_storage, p_inner_dst_param_storage) != 0) {\n                return -(EFAULT);\n            }\n        }\n    }\n    return 0;", "            if (metac_parameter_storage_copy(p_inner_param_storage, p_inner_dst_param_storage) != 0) {\n                return -(EFAULT);\n            }\n        }\n    }\n    return err != 0 ? -(EFAULT) : 0;")]),
    ("helper", [(T, "int metac_handle_zero_ended_string(", "static int _deliver(metac_value_event_t * p_ev, metac_value_t * p_new) {\n    p_ev->p_return_value = p_new;\n    return p_new == NULL ? -(EFAULT) : 0;\n}\n\nint metac_handle_zero_ended_string("),
                (T, "        p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);\n        return (p_ev->p_return_value != NULL)?0:-(EFAULT);\n    }    ", "        return _deliver(p_ev, metac_new_element_count_value(p_val, content_len));\n    }    ")]),
    ("goto", [(H, "            if (*p == NULL) {\n                if (p_res != NULL) {\n                    *p_res = NULL;\n                }\n                return -(ENOMEM);\n            }\n            map->size++;\n            expandIfNecessary(map);\n            if (p_res != NULL) {\n                *p_res = NULL;\n            }\n            return 0;",
               "            int rc = -(ENOMEM);\n            if (*p != NULL) {\n                map->size++;\n                expandIfNecessary(map);\n                rc = 0;\n            }\n            if (p_res != NULL) {\n                *p_res = NULL;\n            }\n            return rc;")]),
]
