"""Refactorings that keep the behaviour, all over the C library; every check has to stay quiet on each (tools/refall.py)."""
T, D, A, S, V, H, E, C, B, I, P = ("src/entry_tag.c", "src/value_deep.c", "src/value_with_args.c", "src/value_string.c", "src/value.c", "src/hashmap.c",
                                   "src/entry.c", "src/entry_cdecl.c", "src/value_base_type.c", "src/iterator.c", "src/printf_format.c")
MUT = []
REF = [
    # --- entry_tag.c
    ("strndup while", [(T, "	for (len = 0; len < n && str[len]; len++) {\n		continue;\n    }\n\n	if ((copy = malloc(len + 1)) == NULL) {\n		return (NULL);\n    }",
                        "	len = 0;\n	while (len < n && str[len] != '\\0') {\n		++len;\n	}\n\n	copy = (char *)malloc(len + 1);\n	if (copy == NULL) {\n		return NULL;\n	}")]),
    ("tag copy struct assignment", [(T, "    memcpy(p_local_tag, p_tag, sizeof(*p_local_tag));\n    if (p_tag->p_tagstring != NULL) {", "    *p_local_tag = *p_tag;\n    if (p_tag->p_tagstring != NULL) {")]),
    ("tag copy nested", [(T, """    if (p_local_tag == NULL) {
        return NULL;
    }
    memcpy(p_local_tag, p_tag, sizeof(*p_local_tag));
    if (p_tag->p_tagstring != NULL) {
        p_local_tag->p_tagstring = strdup(p_tag->p_tagstring);
        if (p_local_tag->p_tagstring == NULL) {
            free (p_local_tag);
            return NULL;
        }
    }
    return p_local_tag;""", """    if (p_local_tag != NULL) {
        memcpy(p_local_tag, p_tag, sizeof(*p_local_tag));
        if (p_tag->p_tagstring != NULL) {
            char * p_copy = strdup(p_tag->p_tagstring);
            if (p_copy == NULL) {
                free (p_local_tag);
                p_local_tag = NULL;
            } else {
                p_local_tag->p_tagstring = p_copy;
            }
        }
    }
    return p_local_tag;""")]),
    ("tag delete free(NULL) and order", [(T, """    if (p_tag->p_tagstring != NULL) {
        free(p_tag->p_tagstring);
    }

    if (p_tag->p_context != NULL && p_tag->context_free_handler != NULL) {
        p_tag->context_free_handler(p_tag->p_context);
    }
    free(p_tag);""", """    if (p_tag->context_free_handler != NULL && p_tag->p_context != NULL) {
        p_tag->context_free_handler(p_tag->p_context);
    }
    free(p_tag->p_tagstring);
    free(p_tag);""")]),
    ("map delete helper and while", [(T, "void metac_tag_map_delete(metac_tag_map_t * p_tag_map) {", """static void _tag_map_release_category(struct metac_tag_map_entry * p_category) {
    if (p_category->p_map == NULL) {
        return;
    }
    hashmapForEach(p_category->p_map, _tag_map_delete_callback, NULL);
    hashmapFree(p_category->p_map);
}

void metac_tag_map_delete(metac_tag_map_t * p_tag_map) {"""),
        (T, """    for (metac_num_t i = 0; i< p_tag_map->categories_count; ++i) {
        if (p_tag_map->p_categories[i].p_map != NULL) {
            hashmapForEach(p_tag_map->p_categories[i].p_map, _tag_map_delete_callback, NULL);
            hashmapFree(p_tag_map->p_categories[i].p_map);
        }
    }
    if (p_tag_map->p_categories != NULL) {
        free(p_tag_map->p_categories);
    }
""", """    metac_num_t i = 0;
    while (i < p_tag_map->categories_count) {
        _tag_map_release_category(&p_tag_map->p_categories[i]);
        ++i;
    }
    free(p_tag_map->p_categories);
""")]),
    ("tag map ex goto", [(T, """        p_tag_map->p_default_tag = _entry_new_tag(p_default_tag);
        if (p_tag_map->p_default_tag == NULL) {
            free(p_tag_map);
            return NULL;
        }
    }
""", """        p_tag_map->p_default_tag = _entry_new_tag(p_default_tag);
        if (p_tag_map->p_default_tag == NULL) {
            goto fail;
        }
    }
"""), (T, """    if (p_tag_map->p_categories == NULL) {
        _entry_tag_delete(p_tag_map->p_default_tag);
        free(p_tag_map);
        return NULL;
    }
""", """    if (p_tag_map->p_categories == NULL) {
        goto fail;
    }
"""), (T, """    return p_tag_map;    
}""", """    return p_tag_map;

fail:
    _entry_tag_delete(p_tag_map->p_default_tag);
    free(p_tag_map);
    return NULL;
}""")]),
    ("tag map category pointer", [(T, """        p_tag_map->p_categories[i].mask = p_map_entries[i].mask;
        p_tag_map->p_categories[i].p_ext_map = p_map_entries[i].p_ext_map;
        if (p_map_entries[i].p_ext_map == NULL) {
            p_tag_map->p_categories[i].p_map = hashmapCreate(1024, addr_ptr_key_hash_tags, addr_ptr_key_equals_tags);
            if (p_tag_map->p_categories[i].p_map == NULL) {
                metac_tag_map_delete(p_tag_map);
                return NULL;
            }
        }
""", """        struct metac_tag_map_entry * p_category = p_tag_map->p_categories + i;
        p_category->p_ext_map = p_map_entries[i].p_ext_map;
        p_category->mask = p_map_entries[i].mask;
        if (p_category->p_ext_map != NULL) {
            continue;
        }
        p_category->p_map = hashmapCreate(1024, addr_ptr_key_hash_tags, addr_ptr_key_equals_tags);
        if (p_category->p_map == NULL) {
            metac_tag_map_delete(p_tag_map);
            return NULL;
        }
""")]),
    ("tag lookup kind mask helper", [(T, "metac_entry_tag_t * metac_tag_map_tag(metac_tag_map_t * p_tag_map, metac_entry_t* p_entry) {", """static metac_tag_map_entry_category_mask_t _kind_mask(metac_kind_t kind) {
    if (kind == METAC_KND_member) {
        return METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member);
    }
    if (kind == METAC_KND_variable) {
        return METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable);
    }
    if (kind == METAC_KND_func_parameter) {
        return METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter);
    }
    return 0;
}

metac_entry_tag_t * metac_tag_map_tag(metac_tag_map_t * p_tag_map, metac_entry_t* p_entry) {"""),
        (T, """    metac_tag_map_entry_category_mask_t mask = 0;
    switch (metac_entry_kind(p_entry)) {
        case METAC_KND_member:
            mask += METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member);
            break;
        case METAC_KND_variable:
            mask += METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable);
            break;
        case METAC_KND_func_parameter:
            mask += METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter);
            break;
    }
""", "    metac_tag_map_entry_category_mask_t mask = _kind_mask(metac_entry_kind(p_entry));\n")]),
    ("set tag delete helper", [(T, """        if (p_local_tag->p_tagstring != NULL) {
            free(p_local_tag->p_tagstring);
        }
        free(p_local_tag);
        return -(EFAULT);""", """        free(p_local_tag->p_tagstring);
        free(p_local_tag);
        return -(EFAULT);""")]),
    ("set tag merged", [(T, """    if (op == METAC_TEO_entry) {
        int res = _tag_map_set_tag(p_tag_map, category, override, p_entry, p_tag);
        if (res != 0) {
            return res;
        }
    }

    if (op == METAC_TEO_final_entry) {
        p_entry = metac_entry_final_entry(p_entry, NULL);
        if (p_entry == NULL) {
            return -(EFAULT);
        }
        int res = _tag_map_set_tag(p_tag_map, category, override, p_entry, p_tag);
        if (res != 0) {
            return res;
        }
    }
    return 0;""", """    metac_entry_t * p_key = NULL;
    switch (op) {
        case METAC_TEO_entry:
            p_key = p_entry;
            break;
        case METAC_TEO_final_entry:
            p_key = metac_entry_final_entry(p_entry, NULL);
            if (p_key == NULL) {
                return -(EFAULT);
            }
            break;
        default:
            return 0;
    }
    return _tag_map_set_tag(p_tag_map, category, override, p_key, p_tag);""")]),
    ("count by sibling helper", [(T, "int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy,", """/* takes over p_sibling_val. 1 - it is not the one, 0 - ok, negative - failure */
static int _count_from_sibling(metac_value_t *p_val, metac_value_t *p_sibling_val, metac_name_t name, metac_value_event_t * p_ev) {
    if (p_sibling_val == NULL) {
        return -(EFAULT);
    }
    metac_name_t sibling_name = metac_value_name(p_sibling_val);
    if (sibling_name == NULL || strcmp(sibling_name, name) != 0) {
        metac_value_delete(p_sibling_val);
        return 1;
    }
    metac_num_t content_len = 0;
    int err = metac_value_num(p_sibling_val, &content_len);
    metac_value_delete(p_sibling_val);
    if (err != 0) {
        return -(EFAULT);
    }
    p_ev->p_return_value = metac_new_element_count_value(p_val, content_len);
    return (p_ev->p_return_value != NULL)?0:-(EFAULT);
}

int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy,"""),
        (T, """                metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);
                if (p_sibling_val == NULL) {
                    return -(EFAULT);
                }
                if (metac_value_name(p_sibling_val) == NULL ||
                    strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                    metac_value_delete(p_sibling_val);
                    continue;
                }
                metac_num_t content_len = 0;
                if (metac_value_num(p_sibling_val, &content_len) != 0) {
                    metac_value_delete(p_sibling_val);
                    return -(EFAULT);
                }
                metac_value_delete(p_sibling_val);
                p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);
                return (p_ev->p_return_value != NULL)?0:-(EFAULT);
""", """                int res = _count_from_sibling(p_val, metac_new_value_by_member_id(p_parent_val, i), p_cnxt->counter_sibling_entry_name, p_ev);
                if (res <= 0) {
                    return res;
                }
"""), (T, """                metac_value_t *p_sibling_val = metac_value_parameter_new_item(p_parent_val, i);
                if (p_sibling_val == NULL) {
                    return -(EFAULT);
                }
                if (metac_value_name(p_sibling_val) == NULL ||
                    strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                    metac_value_delete(p_sibling_val);
                    continue;
                }
                metac_num_t content_len = 0;
                if (metac_value_num(p_sibling_val, &content_len) != 0) {
                    metac_value_delete(p_sibling_val);
                    return -(EFAULT);
                }
                metac_value_delete(p_sibling_val);
                p_ev->p_return_value = metac_new_element_count_value(p_val, content_len);
                return (p_ev->p_return_value != NULL)?0:-(EFAULT);
""", """                int res = _count_from_sibling(p_val, metac_value_parameter_new_item(p_parent_val, i), p_cnxt->counter_sibling_entry_name, p_ev);
                if (res <= 0) {
                    return res;
                }
""")]),
    ("count by early return", [(T, """    if ((p_ev->type == METAC_RQVST_pointer_array_count || p_ev->type == METAC_RQVST_flex_array_count) &&
        metac_value_walker_hierarchy_level(p_hierarchy) >= 0) {
        
        metac_value_t *p_val""", """    if (p_ev->type != METAC_RQVST_pointer_array_count && p_ev->type != METAC_RQVST_flex_array_count) {
        return 0;
    }
    if (metac_value_walker_hierarchy_level(p_hierarchy) >= 0) {
        
        metac_value_t *p_val""")]),
    ("ptr cast ctx cleanup via delete", [(T, """        p_cnxt->sibling_selector_fieldname = strdup(sibling_selector_fieldname);
        if (p_cnxt->sibling_selector_fieldname == NULL) {
            if (p_cnxt->sibling_count_fieldname != NULL) {
                free(p_cnxt->sibling_count_fieldname);
            }
            free(p_cnxt);
            return NULL;
        }""", """        p_cnxt->sibling_selector_fieldname = strdup(sibling_selector_fieldname);
        if (p_cnxt->sibling_selector_fieldname == NULL) {
            metac_ptr_cast_context_delete(p_cnxt);
            return NULL;
        }"""), (T, """            if (p_cnxt->sibling_selector_fieldname != NULL) {
                free(p_cnxt->sibling_selector_fieldname);
            }
            if (p_cnxt->sibling_count_fieldname != NULL) {
                free(p_cnxt->sibling_count_fieldname);
            }
            free(p_cnxt);
            return NULL;  """, """            metac_ptr_cast_context_delete(p_cnxt);
            return NULL;""")]),
    ("printf handler single exit", [(T, """    if (p_va_list_entry == NULL) {
        metac_value_delete(p_param_val);
        return -(EINVAL);
    }

    if (p_param_val == NULL) {
        return -(EINVAL);
    }

    if (metac_value_is_pointer(p_param_val) == 0) {
        metac_value_delete(p_param_val);
        return -(EINVAL);
    }

    // extract pointer
    char * format = NULL;
    if (metac_value_pointer(p_param_val, (void **)&format) != 0) {
        metac_value_delete(p_param_val);
        return -(EINVAL);
    }
    metac_value_delete(p_param_val);
    /* potentially we could check if that is char *, but this is optional*/

    if (format == NULL) {
        return -(EINVAL);
    }
""", """    char * format = NULL;
    int err = -(EINVAL);
    if (p_va_list_entry != NULL && p_param_val != NULL && metac_value_is_pointer(p_param_val) != 0) {
        err = metac_value_pointer(p_param_val, (void **)&format);
    }
    metac_value_delete(p_param_val);
    if (err != 0 || format == NULL) {
        return -(EINVAL);
    }
""")]),
    # --- entry_cdecl.c
    ("cdecl finish helper", [(C, "/**\n * convert metac_entry to the C-declaration like string.", """static void _finish(metac_recursive_iterator_t * p_iter, char * res) {
    if (res == NULL) {
        metac_recursive_iterator_fail(p_iter);
        return;
    }
    metac_recursive_iterator_done(p_iter, res);
}

/**
 * convert metac_entry to the C-declaration like string."""),
        (C, """                char * res = dsprintf("%s %%s",p->name);
                if (res == NULL) {
                    metac_recursive_iterator_fail(p_iter);
                    continue;
                }
                metac_recursive_iterator_done(p_iter, res);
                continue;""", """                _finish(p_iter, dsprintf("%s %%s",p->name));
                continue;"""),
        (C, """                char * val = dsprintf("enum %s %%s", p->name);
                if (val == NULL) {
                    metac_recursive_iterator_fail(p_iter);
                    continue;
                }
                metac_recursive_iterator_done(p_iter, val);
                continue;""", """                _finish(p_iter, dsprintf("enum %s %%s", p->name));
                continue;""")]),
    ("cdecl free null", [(C, """                        char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
                            "* %s");
                        if (type_pattern != NULL) {
                            free(type_pattern);
                        }
                        if (res == NULL) {
                            metac_recursive_iterator_fail(p_iter);
                            continue;
                        }
                        metac_recursive_iterator_done(p_iter, res);
                        continue;""", """                        const char * fmt = "void %s";
                        if (type_pattern != NULL) {
                            fmt = type_pattern;
                        }
                        char * res = dsprintf(fmt, "* %s");
                        free(type_pattern);
                        if (res != NULL) {
                            metac_recursive_iterator_done(p_iter, res);
                        } else {
                            metac_recursive_iterator_fail(p_iter);
                        }
                        continue;""")]),
    ("cdecl drain helper", [(C, "/**\n * convert metac_entry to the C-declaration like string.", """static void _drop_results(metac_recursive_iterator_t * p_iter) {
    while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
        free(metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL));
    }
}

/**
 * convert metac_entry to the C-declaration like string."""),
        (C, """                    case 2: { // fail-cleanup
                        while(!metac_recursive_iterator_dep_queue_is_empty(p_iter)) {
                            char * type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
                            if (type_pattern != NULL){
                                free(type_pattern);
                            }
                        }
                        metac_recursive_iterator_fail(p_iter);""", """                    case 2: { // fail-cleanup
                        _drop_results(p_iter);
                        metac_recursive_iterator_fail(p_iter);""")]),
    ("cdecl member alias", [(C, """                            // build name with bits if it's provided
                            char *name = NULL;
                            if (p->structure_type_info.members[i].name != NULL) {
                                if (p->structure_type_info.members[i].member_info.p_bit_size != NULL) {
                                    name = dsprintf("%s:%" METAC_SIZE_PRI,
                                        p->structure_type_info.members[i].name,
                                        *p->structure_type_info.members[i].member_info.p_bit_size);
                                } else {
                                    name = dsprintf("%s",
                                        p->structure_type_info.members[i].name);        
                                }
                            }""", """                            // build name with bits if it's provided
                            metac_entry_t * p_member = &p->structure_type_info.members[i];
                            char *name = NULL;
                            if (p_member->name != NULL) {
                                name = (p_member->member_info.p_bit_size == NULL)?
                                    dsprintf("%s", p_member->name):
                                    dsprintf("%s:%" METAC_SIZE_PRI, p_member->name, *p_member->member_info.p_bit_size);
                            }""")]),
]

REF += [
    # --- value.c
    ("value final helper", [(V, "static metac_entry_t * _value_with_base_type_info(metac_value_t *p_val) {\n    _check_(p_val == NULL, NULL);\n    \n    metac_entry_t * p_final_entry = metac_entry_final_entry(p_val->p_entry, NULL);\n    _check_(p_final_entry == NULL, NULL);\n    _check_(metac_entry_kind(p_final_entry) != METAC_KND_base_type, NULL);\n\n    return p_final_entry;\n}",
                             "static metac_entry_t * _value_final_of_kind(metac_value_t *p_val, metac_kind_t kind) {\n    metac_entry_t * p_final_entry = (p_val != NULL)? metac_entry_final_entry(p_val->p_entry, NULL) : NULL;\n    if (p_final_entry != NULL && metac_entry_kind(p_final_entry) == kind) {\n        return p_final_entry;\n    }\n    return NULL;\n}\n\nstatic metac_entry_t * _value_with_base_type_info(metac_value_t *p_val) {\n    return _value_final_of_kind(p_val, METAC_KND_base_type);\n}"),
                            (V, "static metac_entry_t * _value_with_array_info(metac_value_t *p_val) {\n    _check_(p_val == NULL, NULL);\n    \n    metac_entry_t * p_final_entry = metac_entry_final_entry(p_val->p_entry, NULL);\n    _check_(p_final_entry == NULL, NULL);\n    _check_(metac_entry_kind(p_final_entry) != METAC_KND_array_type, NULL);\n\n    return p_final_entry;\n}",
                             "static metac_entry_t * _value_with_array_info(metac_value_t *p_val) {\n    return _value_final_of_kind(p_val, METAC_KND_array_type);\n}"),
                            (V, "static metac_entry_t * _value_with_pointer_info(metac_value_t *p_val) {\n    _check_(p_val == NULL, NULL);\n    \n    metac_entry_t * p_final_entry = metac_entry_final_entry(p_val->p_entry, NULL);\n    _check_(p_final_entry == NULL, NULL);\n    _check_(metac_entry_kind(p_final_entry) != METAC_KND_pointer_type, NULL);\n\n    return p_final_entry;\n}",
                             "static metac_entry_t * _value_with_pointer_info(metac_value_t *p_val) {\n    return _value_final_of_kind(p_val, METAC_KND_pointer_type);\n}")]),
    ("loop search while", [(V, """    for (int l = 1; l < level + 1; ++l) { /* if level = 1 there are 2 levels: 0 and 1 */
        metac_value_t * p_cmp_level = metac_recursive_iterator_get_in(p_iterator, l);
        if (p_cmp_level == NULL) {
            continue;
        }
        if (metac_value_is_pointer(p_cmp_level) == 0) {
            continue;
        }
        void * p_cmp_val = NULL;
        if (metac_value_pointer(p_cmp_level, &p_cmp_val) != 0) {
            continue;
        }
        if (p_val == p_cmp_val) {
            return l;
        }
    }
    return -1;""", """    int found = -1;
    int l = 1;
    while (found < 0 && l <= level) {
        metac_value_t * p_cmp_level = metac_recursive_iterator_get_in(p_iterator, l);
        void * p_cmp_val = NULL;
        if (p_cmp_level != NULL && metac_value_is_pointer(p_cmp_level) != 0 &&
            metac_value_pointer(p_cmp_level, &p_cmp_val) == 0 && p_cmp_val == p_val) {
            found = l;
        }
        ++l;
    }
    return found;""")]),
    ("base type read bitfield helper", [(V, "int metac_value_base_type(metac_value_t * p_val,", """/* 1 - plain data, 0 - bitfield, negative - failure */
static int _plain_data(metac_value_t * p_val, metac_offset_t * p_offset) {
    if (metac_entry_kind(p_val->p_entry) != METAC_KND_member) {
        return 1;
    }
    struct metac_member_raw_location_info info;
    if (metac_entry_member_raw_location_info(p_val->p_entry, &info) != 0) {
        return -(EFAULT);
    }
    *p_offset = info.byte_offset;
    return info.p_bit_offset == NULL && info.p_bit_size == NULL && info.p_data_bit_offset == NULL;
}

int metac_value_base_type(metac_value_t * p_val,"""), (V, """    if (metac_entry_kind(p_val->p_entry) != METAC_KND_member) { /* simple case - just copy from addr */
        memcpy(p_var, p_val->addr, var_size);
        return 0;
    }

    struct metac_member_raw_location_info bitfields_raw_info;
    if (metac_entry_member_raw_location_info(p_val->p_entry, &bitfields_raw_info) != 0) {
        return -(EFAULT);
    }
    if (bitfields_raw_info.p_bit_offset == NULL && /* member of the struct. addr points to the beginning of the struct */
        bitfields_raw_info.p_bit_size == NULL &&
        bitfields_raw_info.p_data_bit_offset == NULL) { /* 2nd simple case */
        memcpy(p_var, p_val->addr, var_size);
        return 0;
    }

    if (_entry_bitfield_supported(encoding)) {
        // because of DWARF 4 which introduced data_bit_offset we need to calc from the structure base addr;
        void * p_addr = p_val->addr - bitfields_raw_info.byte_offset;
        return _entry_bitfield_read(""", """    metac_offset_t byte_offset = 0;
    int plain = _plain_data(p_val, &byte_offset);
    if (plain < 0) {
        return plain;
    }
    if (plain != 0) {
        memcpy(p_var, p_val->addr, var_size);
        return 0;
    }

    if (_entry_bitfield_supported(encoding)) {
        // because of DWARF 4 which introduced data_bit_offset we need to calc from the structure base addr;
        void * p_addr = p_val->addr - byte_offset;
        return _entry_bitfield_read(""")]),
    ("enum read switch", [(V, """    if (enum_byte_size == sizeof(char)) {
        *p_var = *(char*)p_val->addr;
        return 0;
    }
    if (enum_byte_size == sizeof(short)){
        *p_var = *(short*)p_val->addr;
        return 0;
    }
    if (enum_byte_size == sizeof(int)){
        *p_var = *(int*)p_val->addr;
        return 0;
    }
    if (enum_byte_size == sizeof(long)){
        *p_var = *(long*)p_val->addr;
        return 0;
    }
    if (enum_byte_size == sizeof(long long)){
        *p_var = *(long long*)p_val->addr;
        return 0;
    }
    return -(ENOTSUP);
}

metac_name_t metac_value_enumeration_to_name""", """    int res = 0;
    switch (enum_byte_size) {
        case sizeof(char): *p_var = *(char*)p_val->addr; break;
        case sizeof(short): *p_var = *(short*)p_val->addr; break;
        case sizeof(int): *p_var = *(int*)p_val->addr; break;
        case sizeof(long long): *p_var = *(long long*)p_val->addr; break;
        default: res = -(ENOTSUP); break;
    }
    return res;
}

metac_name_t metac_value_enumeration_to_name""")]),
    ("enum read memcpy", [(V, """    if (enum_byte_size == sizeof(int)){
        *p_var = *(int*)p_val->addr;
        return 0;
    }""", """    if (enum_byte_size == sizeof(int)){
        int i;
        memcpy(&i, p_val->addr, sizeof(i));
        *p_var = i;
        return 0;
    }""")]),
    ("equal and", [(V, """    void *v1, *v2;
    if (metac_value_pointer(p_val1, &v1) != 0) {
        return -(EFAULT);
    }
    if (metac_value_pointer(p_val2, &v2) != 0) {
        return -(EFAULT);
    }
    return (v1 == v2)?1:0;""", """    void *v1 = NULL, *v2 = NULL;
    if (metac_value_pointer(p_val1, &v1) != 0 || metac_value_pointer(p_val2, &v2) != 0) {
        return -(EFAULT);
    }
    return v1 == v2;""")]),
    ("copy enum nested", [(V, """    metac_const_value_t v;
    if (metac_value_enumeration(p_src_val, &v) != 0) {
        return NULL;
    }
    if (metac_value_set_enumeration(p_dst_val, v) != 0) {
        return NULL;
    }
    return p_dst_val;""", """    metac_value_t * p_res = NULL;
    metac_const_value_t v;
    if (metac_value_enumeration(p_src_val, &v) == 0) {
        if (metac_value_set_enumeration(p_dst_val, v) == 0) {
            p_res = p_dst_val;
        }
    }
    return p_res;""")]),
    ("element count value ifs", [(V, """    _check_(metac_entry_kind(p_final_entry) != METAC_KND_array_type && metac_entry_kind(p_final_entry) != METAC_KND_pointer_type, NULL);

    void * p_addr = p_val->addr;
    switch (metac_entry_kind(p_final_entry))
    {
    case METAC_KND_array_type:
        break;
    case METAC_KND_pointer_type:
        p_addr = *((void**)p_addr);
        _check_(p_addr == NULL, NULL);
        break;
    default:
        return NULL;
    }
""", """    metac_kind_t kind = metac_entry_kind(p_final_entry);
    void * p_addr = NULL;
    if (kind == METAC_KND_array_type) {
        p_addr = p_val->addr;
    } else if (kind == METAC_KND_pointer_type) {
        p_addr = *(void**)p_val->addr;
    }
    if (p_addr == NULL) {
        return NULL;
    }
""")]),
    ("init value inlined", [(V, """    if (metac_init_value(p_val, p_entry, addr) == NULL) {
        free(p_val);
        return NULL;
    }
    return p_val;""", """    metac_value_t * p_res = metac_init_value(p_val, p_entry, addr);
    if (p_res == NULL) {
        free(p_val);
    }
    return p_res;""")]),
    ("call params early return", [(V, """    metac_value_t * p_val = NULL;
    metac_parameter_storage_t * p_param_storage = metac_new_parameter_storage();
    if (p_param_storage != NULL) {
        p_val = metac_new_value(p_entry, p_param_storage);
        if (p_val == NULL) {
            metac_parameter_storage_delete(p_param_storage);
        }
    }
    return p_val;""", """    metac_parameter_storage_t * p_param_storage = metac_new_parameter_storage();
    if (p_param_storage == NULL) {
        return NULL;
    }
    metac_value_t * p_val = metac_new_value(p_entry, p_param_storage);
    if (p_val != NULL) {
        return p_val;
    }
    metac_parameter_storage_delete(p_param_storage);
    return NULL;""")]),
    ("value delete reorder", [(V, """    if (metac_entry_is_dynamic(p_val->p_entry)!=0){
        metac_entry_delete(p_val->p_entry);
    }
    // clean our mem
    free(p_val);""", """    metac_entry_t * p_entry = p_val->p_entry;
    free(p_val);
    if (metac_entry_is_dynamic(p_entry) != 0) {
        metac_entry_delete(p_entry);
    }""")]),
    # --- value_with_args.c
    ("cleanup saved next", [(A, """    while (!LIST_EMPTY(&p_param_storage->list)) {
        metac_parameter_t * p_param = LIST_FIRST(&p_param_storage->list);
        if (p_param->size == 0) {
            assert(p_param);
            metac_entry_t * p_entry = p_param->p_entry;

            metac_parameter_storage_t * p_inner_param_storage = (metac_parameter_storage_t *)p_param->addr;
            if (p_inner_param_storage != NULL) {
                metac_parameter_storage_delete(p_inner_param_storage);
            }
        } else {
            free (p_param->addr);
        }

        if (metac_entry_is_dynamic(p_param->p_entry)!=0){
            metac_entry_delete(p_param->p_entry);
        }

        LIST_REMOVE(p_param, links);
        free(p_param);
    }""", """    metac_parameter_t * p_param = LIST_FIRST(&p_param_storage->list);
    while (p_param != NULL) {
        LIST_REMOVE(p_param, links);
        if (metac_entry_is_dynamic(p_param->p_entry)!=0){
            metac_entry_delete(p_param->p_entry);
        }
        if (p_param->size != 0) {
            free (p_param->addr);
        } else {
            metac_parameter_storage_delete((metac_parameter_storage_t *)p_param->addr);
        }
        free(p_param);
        p_param = LIST_FIRST(&p_param_storage->list);
    }""")]),
    ("append entry ternary", [(A, """    metac_entry_t *p_entry_copy = NULL;
    if (metac_entry_is_dynamic(p_entry) != 0) {
        p_entry_copy = metac_new_entry(p_entry);
        if (p_entry != NULL && p_entry_copy == NULL) {
            free(p_param);
            return NULL;
        }
    }

    p_param->size = size;
    p_param->addr = addr;
    if (p_entry_copy != NULL) {
        p_param->p_entry = p_entry_copy;
    } else {
        p_param->p_entry = p_entry;
    }
""", """    p_param->p_entry = p_entry;
    if (metac_entry_is_dynamic(p_entry) != 0) {
        p_param->p_entry = metac_new_entry(p_entry);
        if (p_param->p_entry == NULL) {
            free(p_param);
            return NULL;
        }
    }
    p_param->addr = addr;
    p_param->size = size;
""")]),
    ("wrap helper function", [(A, """    // check iterator result
    int failed = (p_iter == NULL);
    metac_recursive_iterator_get_out(p_iter, NULL, &failed);
    if (failed != 0) {
        metac_value_delete(p_val);
        p_val = NULL;
    }

    metac_recursive_iterator_free(p_iter);
    return p_val;""", """    // check iterator result
    int failed = (p_iter == NULL);
    metac_recursive_iterator_get_out(p_iter, NULL, &failed);
    metac_recursive_iterator_free(p_iter);
    if (failed == 0) {
        return p_val;
    }
    metac_value_delete(p_val);
    return NULL;""")]),
    ("normal param helper", [(A, "static void _handle_subprogram(\n", """static void * _param_room(metac_parameter_storage_t * p_storage, metac_entry_t * p_param_entry, metac_num_t sz, metac_num_t id) {
    if (metac_parameter_storage_append_by_buffer(p_storage, p_param_entry, sz) != 0) {
        return NULL;
    }
    metac_value_t * p_param_value = metac_parameter_storage_new_param_value(p_storage, id);
    if (p_param_value == NULL) {
        return NULL;
    }
    void * addr = metac_value_addr(p_param_value);
    metac_value_delete(p_param_value);
    return addr;
}

static void _handle_subprogram(
"""), (A, """                do {
                    if (addr == NULL ) {
                        if (metac_parameter_storage_append_by_buffer(p_subprog_load, p_param_entry, sizeof(void *)) != 0) {
                            metac_recursive_iterator_fail(p_iter);
                            return;
                        }
                        metac_value_t * p_param_value = metac_parameter_storage_new_param_value(p_subprog_load, i);
                        if (p_param_value == NULL) {
                            metac_recursive_iterator_fail(p_iter);
                            return;
                        }
                        addr = metac_value_addr(p_param_value);
                        metac_value_delete(p_param_value);

                        if (addr != NULL) {
                            void * val = va_arg(p_va_list_container->parameters, void *);
                            memcpy(addr, &val, sizeof(val));
                        }
                    }
                } while(0);
""", """                addr = _param_room(p_subprog_load, p_param_entry, sizeof(void *), i);
                if (addr != NULL) {
                    void * val = va_arg(p_va_list_container->parameters, void *);
                    memcpy(addr, &val, sizeof(val));
                }
""")]),
    ("va event delete once", [(A, """                if (metac_value_event_handler_call(p_tag->handler, p_iter, &ev, p_tag->p_context) != 0) {
                    if (local != 0){
                        va_end(local_cntr.parameters);
                    }
                    metac_value_delete(ev.p_return_value);


                    metac_recursive_iterator_fail(p_iter);
                    return;
                }
                if (local != 0){
                    va_end(local_cntr.parameters);
                }
            }
""", """                int err = metac_value_event_handler_call(p_tag->handler, p_iter, &ev, p_tag->p_context);
                if (local != 0){
                    va_end(local_cntr.parameters);
                }
                if (err != 0) {
                    metac_value_delete(ev.p_return_value);
                    metac_recursive_iterator_fail(p_iter);
                    return;
                }
            }
""")]),
    # --- value_string.c
    ("printable two pass helper", [(S, "static char * _dprintable_string(metac_value_t * p_array_val) {", """static char _escaped(char in) {
    switch (in) {
        case '\\n': return 'n';
        case '\\r': return 'r';
        case '\\t': return 't';
        case '\\v': return 'v';
        case '\\b': return 'b';
        case '\\f': return 'f';
        case '\\a': return 'a';
        case '\\\\': case '\\'': case '"': case '?': return in;
    }
    return 0;
}

static char * _dprintable_string(metac_value_t * p_array_val) {"""),
        (S, """    struct {
        char in;
        char out;
    }special_chars[] = {
        {.in = '\\n', .out = 'n'},
        {.in = '\\r', .out = 'r'},
        {.in = '\\t', .out = 't'},
        {.in = '\\v', .out = 'v'},
        {.in = '\\b', .out = 'b'},
        {.in = '\\f', .out = 'f'},
        {.in = '\\a', .out = 'a'},
        {.in = '\\\\', .out = '\\\\'},
        {.in = '\\'', .out = '\\''},
        {.in = '\\"', .out = '\\"'},
        {.in = '\\?', .out = '\\?'},
    };
""", ""), (S, """        int k = 0;
        for (k = 0; k < sizeof(special_chars)/sizeof(special_chars[0]); ++k) {
            if (p_string[i] == special_chars[k].in) {
                alloc_len += 2;
                break;
            }
        }
        if (k < sizeof(special_chars)/sizeof(special_chars[0])) {
            continue;
        }
""", """        if (_escaped(p_string[i]) != 0) {
            alloc_len += 2;
            continue;
        }
"""), (S, """        int k = 0;
        for (k = 0; k < sizeof(special_chars)/sizeof(special_chars[0]); ++k) {
            if (p_string[i] == special_chars[k].in) {
                res[j] = '\\\\'; res[j+1] = special_chars[k].out;
                j+=2;
                break;
            }
        }
        if (k < sizeof(special_chars)/sizeof(special_chars[0])) {
            continue;
        }
""", """        char esc = _escaped(p_string[i]);
        if (esc != 0) {
            res[j++] = '\\\\';
            res[j++] = esc;
            continue;
        }
""")]),
    ("string leaf merge", [(S, """        case METAC_KND_base_type: {
            char * out = metac_value_base_type_string(p);
            if (out == NULL) {
                metac_recursive_iterator_fail(p_iter);
                continue;  
            }
            metac_recursive_iterator_done(p_iter, out);
            continue;
        }
        case METAC_KND_enumeration_type: {
            char * out = metac_value_enumeration_string(p);
            if (out == NULL) {""", """        case METAC_KND_base_type:
        case METAC_KND_enumeration_type: {
            char * out = (final_kind == METAC_KND_base_type)? metac_value_base_type_string(p) : metac_value_enumeration_string(p);
            if (out == NULL) {""")]),
    ("string final kind helper", [(S, "char * metac_value_string_ex(metac_value_t * p_val,", """static metac_kind_t _walk_kind(metac_value_t * p) {
    if (metac_value_kind(p) == METAC_KND_func_parameter && metac_value_has_parameter_load(p) != 0) {
        return METAC_KND_func_parameter;
    }
    return metac_value_final_kind(p, NULL);
}

char * metac_value_string_ex(metac_value_t * p_val,"""), (S, """        metac_kind_t final_kind;
        if (metac_value_kind(p) != METAC_KND_func_parameter || metac_value_has_parameter_load(p) == 0) {
            final_kind = metac_value_final_kind(p, NULL);
        } else {
            final_kind = METAC_KND_func_parameter;    // unspecified and va_arg;
        }
""", "        metac_kind_t final_kind = _walk_kind(p);\n")]),
    ("string while loop", [(S, """    for (metac_value_t * p = (metac_value_t *)metac_recursive_iterator_next(p_iter); p != NULL;
        p = (metac_value_t *)metac_recursive_iterator_next(p_iter)) {
        int state = metac_recursive_iterator_get_state(p_iter);
""", """    metac_value_t * p = NULL;
    while ((p = (metac_value_t *)metac_recursive_iterator_next(p_iter)) != NULL) {
        int state = metac_recursive_iterator_get_state(p_iter);
""")]),
    ("string append members helper", [(S, "char * metac_value_string_ex(metac_value_t * p_val,", """static int _queue_members(metac_recursive_iterator_t * p_iter, metac_value_t * p) {
    metac_num_t mcount = metac_value_member_count(p);
    for (metac_num_t i = 0; i < mcount; ++i) {
        metac_value_t * p_memb_val = metac_new_value_by_member_id(p, i);
        if (p_memb_val == NULL) {
            return -1;
        }
        if (metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val) != 0) {
            metac_value_delete(p_memb_val);
            return -1;
        }
    }
    return 0;
}

char * metac_value_string_ex(metac_value_t * p_val,"""), (S, """                        for (metac_num_t i = 0; i < mcount; ++i) {
                            metac_value_t * p_memb_val = metac_new_value_by_member_id(p, i);
                            if (p_memb_val == NULL) {
                                failure = 1;
                                break;
                            }
                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val) != 0) {
                                metac_value_delete(p_memb_val);
                                failure = 1;
                                break;
                            }
                        }
                    }
                    if (failure != 0) {
                        metac_recursive_iterator_set_state(p_iter, 2);  // failure cleanup
                        continue;  
                    }
                    metac_recursive_iterator_set_state(p_iter, 1);
                    continue;""", """                        failure = (_queue_members(p_iter, p) != 0);
                    }
                    metac_recursive_iterator_set_state(p_iter, (failure != 0)? 2: 1);
                    continue;""")]),
    ("string drain helper", [(S, "char * metac_value_string_ex(metac_value_t * p_val,", """static void _drain(metac_recursive_iterator_t * p_iter) {
    while(!metac_recursive_iterator_dep_queue_is_empty(p_iter)) {
        metac_value_t * p_dep_val = NULL;
        char * dep_out = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, (void**)&p_dep_val, NULL);
        free(dep_out);
        metac_value_delete(p_dep_val);
    }
}

char * metac_value_string_ex(metac_value_t * p_val,"""), (S, """                    /* failure cleanup*/
                    while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                        metac_value_t * p_memb_val;
                        char * memb_out = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, (void**)&p_memb_val, NULL);
                        if (memb_out != NULL) {
                            free(memb_out);
                        }
                        if (p_memb_val != NULL) {
                            metac_value_delete(p_memb_val);
                        }
                    }
                    metac_recursive_iterator_fail(p_iter);""", """                    _drain(p_iter);
                    metac_recursive_iterator_fail(p_iter);""")]),
]

REF += [
    # --- value_deep.c
    ("parent for", [(D, """    while (n > 0) {
        if (p_memory_entry->p_parent == NULL) {
            return NULL;
        }
        p_memory_entry = p_memory_entry->p_parent;
        --n;
    }
    return p_memory_entry;""", """    for (; n > 0 && p_memory_entry != NULL; --n) {
        p_memory_entry = p_memory_entry->p_parent;
    }
    return p_memory_entry;""")]),
    ("memory entry goto", [(D, """    if (children_count > 0) {
        p_memory_entry->pp_children = calloc(children_count, sizeof(*p_memory_entry->pp_children));
        if (p_memory_entry->pp_children == NULL) {
            free(p_memory_entry);
            return NULL;
        }

        p_memory_entry->children_count = children_count;
    }

    p_memory_entry->p_val = p_val;
    p_memory_entry->byte_size = byte_size;

    return p_memory_entry;""", """    p_memory_entry->byte_size = byte_size;
    p_memory_entry->p_val = p_val;
    if (children_count <= 0) {
        return p_memory_entry;
    }
    struct metac_memory_entry ** pp_children = calloc(children_count, sizeof(*pp_children));
    if (pp_children == NULL) {
        free(p_memory_entry);
        return NULL;
    }
    p_memory_entry->children_count = children_count;
    p_memory_entry->pp_children = pp_children;
    return p_memory_entry;""")]),
    ("map delete unconditional", [(D, """    if (p_map->p_top_entry != NULL) {
        metac_memory_entry_delete(p_map->p_top_entry);
    }
    free(p_map);
}""", """    metac_memory_entry_delete(p_map->p_top_entry);
    free(p_map);
}""")]),
    ("sort compare arithmetic", [(D, """    if (key_a < key_b) return -1;
    if (key_a == key_b) return 0;
    return 1;""", "    return (key_a > key_b) - (key_a < key_b);")]),
    ("sweep if else", [(D, """        if (p_main == NULL) {
            p_main = p_current;
            p_main_entry = p_current_entry;
            continue;
        }
        if (p_main + p_main_entry->byte_size <= p_current) {""", """        if (p_main == NULL || p_main + p_main_entry->byte_size <= p_current) {""")]),
    ("map leaf entry helper", [(D, """struct metac_memory_map * metac_new_value_memory_map_ex(
    metac_value_t * p_val, """, """static void _leaf(metac_recursive_iterator_t * p_iter, metac_value_t * p, metac_size_t sz, int loop_level) {
    struct metac_memory_entry * p_memory_entry = metac_new_memory_entry(p, sz, 0);
    if (p_memory_entry == NULL) {
        metac_recursive_iterator_fail(p_iter);
        return;
    }
    p_memory_entry->loop_level = loop_level;
    metac_recursive_iterator_done(p_iter, p_memory_entry);
}

struct metac_memory_map * metac_new_value_memory_map_ex(
    metac_value_t * p_val, """), (D, """            struct metac_memory_entry * p_memory_entry = metac_new_memory_entry(p, sz, 0);
            if (p_memory_entry == NULL) {
                metac_recursive_iterator_fail(p_iter);
                continue;                 
            }
            metac_recursive_iterator_done(p_iter, p_memory_entry);
            continue;
        }
        //case METAC_KND_class_type: """, """            _leaf(p_iter, p, sz, 0);
            continue;
        }
        //case METAC_KND_class_type: """), (D, """                    if (p_addr == NULL) {
                        struct metac_memory_entry * p_memory_entry = metac_new_memory_entry(p, sz, 0);
                        if (p_memory_entry == NULL) {
                            metac_recursive_iterator_fail(p_iter);
                            continue;                 
                        }
                        metac_recursive_iterator_done(p_iter, p_memory_entry);
                        continue;
                    }""", """                    if (p_addr == NULL) {
                        _leaf(p_iter, p, sz, 0);
                        continue;
                    }"""), (D, """                    if (loop_level > 0) { 
                        struct metac_memory_entry * p_memory_entry = metac_new_memory_entry(p, sz, 0);
                        if (p_memory_entry == NULL) {
                            metac_recursive_iterator_fail(p_iter);
                            continue;                 
                        }
                        p_memory_entry->loop_level = loop_level;
                        metac_recursive_iterator_done(p_iter, p_memory_entry);
                        continue;    
                    }""", """                    if (loop_level > 0) {
                        _leaf(p_iter, p, sz, loop_level);
                        continue;
                    }""")]),
    ("map discard helper", [(D, """struct metac_memory_map * metac_new_value_memory_map_ex(
    metac_value_t * p_val, """, """static void _discard(struct metac_memory_entry * p_memory_entry, metac_value_t * p) {
    if (p_memory_entry == NULL) {
        return;
    }
    // p_in stil must exist if we fail
    if (p_memory_entry->p_val == p) {
        p_memory_entry->p_val = NULL;
    }
    metac_memory_entry_delete(p_memory_entry);
}

struct metac_memory_map * metac_new_value_memory_map_ex(
    metac_value_t * p_val, """), (D, """                    struct metac_memory_entry * p_memory_entry = (struct metac_memory_entry *)metac_recursive_iterator_get_context(p_iter);
                    if (p_memory_entry != NULL) {
                        // p_in stil must exist if we fail
                        if (p_memory_entry->p_val == p) {
                            p_memory_entry->p_val = NULL;
                        }
                        metac_memory_entry_delete(p_memory_entry);
                    }

                    metac_recursive_iterator_fail(p_iter);
                    continue;
                }
            }
        }
        case METAC_KND_pointer_type: {""", """                    _discard((struct metac_memory_entry *)metac_recursive_iterator_get_context(p_iter), p);

                    metac_recursive_iterator_fail(p_iter);
                    continue;
                }
            }
        }
        case METAC_KND_pointer_type: {""")]),
    ("map hash put merged", [(D, """                        if (hashmapContainsKey(p_map->p_addr_ptr_val_to_memory_entry, addr) != 0) {
                            /* compare sizes and update if we have bigger */
                            struct metac_memory_entry * p_prev_member_memory_entry = 
                                (struct metac_memory_entry *)hashmapGet(p_map->p_addr_ptr_val_to_memory_entry, addr);
                            if (p_member_memory_entry->byte_size > p_prev_member_memory_entry->byte_size) {
                                if (hashmapPut(p_map->p_addr_ptr_val_to_memory_entry, addr, (void*)p_member_memory_entry, NULL)!=0) {
                                    has_failed = 1;
                                    // p_in stil must exist if we fail
                                    if (p_memory_entry->p_val == p) {
                                        p_memory_entry->p_val = NULL;
                                    }
                                    metac_memory_entry_delete(p_memory_entry);
                                    metac_recursive_iterator_fail(p_iter);
                                    continue;
                                }
                            }
                        } else {
                            if (hashmapPut(""", """                        struct metac_memory_entry * p_prev_member_memory_entry =
                            (struct metac_memory_entry *)hashmapGet(p_map->p_addr_ptr_val_to_memory_entry, addr);
                        if (p_prev_member_memory_entry == NULL || p_prev_member_memory_entry->byte_size < p_member_memory_entry->byte_size) {
                            if (hashmapPut(""")]),
    ("map flag merged", [(D, """                                if (metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val) != 0) {
                                    metac_value_delete(p_memb_val);
                                    failure = 1;
                                    break;
                                }
                                ++children_count;
                            }
                        }
                        if (failure != 0) {
                            metac_recursive_iterator_set_state(p_iter, 2);  // failure cleanup
                            continue;  
                        }

                        struct metac_memory_entry * p_memory_entry = metac_new_memory_entry(p, sz, children_count);
                        if (p_memory_entry == NULL) {""", """                                if (metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val) != 0) {
                                    metac_value_delete(p_memb_val);
                                    failure = 1;
                                    break;
                                }
                                children_count += 1;
                            }
                        }
                        struct metac_memory_entry * p_memory_entry = NULL;
                        if (failure == 0) {
                            p_memory_entry = metac_new_memory_entry(p, sz, children_count);
                        }
                        if (p_memory_entry == NULL) {""")]),
    ("free mode local", [(D, """    struct metac_memory_map * p_map = metac_new_value_memory_map_ex(p_val,
        (metac_value_memory_map_mode_t[]){{
            .memory_block_mode = METAC_MMODE_dag /* delete won't work in tree mode */,
            .unknown_ptr_mode = (p_mode != NULL)?p_mode->unknown_ptr_mode:METAC_UPTR_fail,
            .union_mode = (p_mode != NULL)?p_mode->union_mode:METAC_UNION_fail,
            .flex_array_mode = (p_mode != NULL)?p_mode->flex_array_mode:METAC_FLXARR_fail,
        }},
        p_tag_map);""", """    metac_value_memory_map_mode_t map_mode = _default_value_memory_map_mode;
    map_mode.memory_block_mode = METAC_MMODE_dag; /* delete won't work in tree mode */
    if (p_mode != NULL) {
        map_mode.unknown_ptr_mode = p_mode->unknown_ptr_mode;
        map_mode.union_mode = p_mode->union_mode;
        map_mode.flex_array_mode = p_mode->flex_array_mode;
    }
    struct metac_memory_map * p_map = metac_new_value_memory_map_ex(p_val, &map_mode, p_tag_map);""")]),
    ("copy type check helper", [(D, "/* copy src to dst (with rewriting data), be careful, dst must have enough space.", """static metac_flag_t _same_type(metac_entry_t * p_src_entry, metac_entry_t * p_dst_entry) {
    char * src_cdecl = metac_entry_cdecl(p_src_entry);
    char * dst_cdecl = metac_entry_cdecl(p_dst_entry);
    metac_flag_t same = (src_cdecl != NULL && dst_cdecl != NULL && strcmp(src_cdecl, dst_cdecl) == 0);
    free(src_cdecl);
    free(dst_cdecl);
    return same;
}

/* copy src to dst (with rewriting data), be careful, dst must have enough space."""), (D, """    int types_cmp = -1;
    char * src_cdecl = metac_entry_cdecl(p_src_final_entry), * dst_cdecl = metac_entry_cdecl(p_dst_final_entry);
    if (src_cdecl != NULL && dst_cdecl != NULL) {
        types_cmp = strcmp(src_cdecl, dst_cdecl);
    }
    if (src_cdecl != NULL) {
        free (src_cdecl);
    }
    if (dst_cdecl != NULL) {
        free(dst_cdecl);
    }
    /* check that initial entries are compatible = ideally the same */
    if (types_cmp != 0) {
        return NULL;
    }
""", """    if (_same_type(p_src_final_entry, p_dst_final_entry) == 0) {
        return NULL;
    }
""")]),
    ("copy leaf switch", [(D, """                }else if (metac_value_is_enumeration(p->p_val)) {
                    if (metac_value_copy_enumeration(p->p_val, p_dst_val) == NULL) {
                        metac_recursive_iterator_fail(p_iter);
                        continue;
                    }
                }else if (metac_value_is_base_type(p->p_val)) {
                    if (metac_value_copy_base_type(p->p_val, p_dst_val) == NULL) {
                        metac_recursive_iterator_fail(p_iter);
                        continue;
                    }
                }else if""", """                }else if (metac_value_is_base_type(p->p_val) || metac_value_is_enumeration(p->p_val)) {
                    metac_value_t * p_copied = metac_value_is_base_type(p->p_val)?
                        metac_value_copy_base_type(p->p_val, p_dst_val):
                        metac_value_copy_enumeration(p->p_val, p_dst_val);
                    if (p_copied == NULL) {
                        metac_recursive_iterator_fail(p_iter);
                        continue;
                    }
                }else if""")]),
    ("copy weak arithmetic", [(D, """                                if (p->pp_children[0]->offset_from_allocate_base != 0) {
                                    void * allocate_src = src - p->pp_children[0]->offset_from_allocate_base;
                                    void * allocate_dst = hashmapGet(context.src_to_dst, allocate_src);
                                    if (allocate_dst == NULL) {
                                        metac_recursive_iterator_fail(p_iter);
                                        continue;
                                    }
                                    p_dst_children_addr_override = allocate_dst + p->pp_children[0]->offset_from_allocate_base;
                                } else {
                                    p_dst_children_addr_override = hashmapGet(context.src_to_dst, src);
                                    if (p_dst_children_addr_override == NULL) {
                                        metac_recursive_iterator_fail(p_iter);
                                        continue;
                                    }
                                }
                                break;""", """                                void * allocate_dst = hashmapGet(context.src_to_dst, src - p->pp_children[0]->offset_from_allocate_base);
                                if (allocate_dst == NULL) {
                                    metac_recursive_iterator_fail(p_iter);
                                    continue;
                                }
                                p_dst_children_addr_override = allocate_dst + p->pp_children[0]->offset_from_allocate_base;
                                break;""")]),
    ("equal leaf helper", [(D, "int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2, ", """static int _equal_leaf(metac_value_t * p_val1, metac_value_t * p_val2) {
    if (metac_value_is_enumeration(p_val1) != 0 && metac_value_is_enumeration(p_val2) != 0) {
        return metac_value_equal_enumeration(p_val1, p_val2);
    }
    return metac_value_equal_base_type(p_val1, p_val2);
}

int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2, """), (D, """                }else if (metac_value_is_enumeration(p1->p_val) != 0 && metac_value_is_enumeration(p2->p_val) != 0) {
                    int _cmp = metac_value_equal_enumeration(p1->p_val, p2->p_val);
                    if (_cmp < 0) {
                        metac_recursive_iterator_fail(p_iter);
                        continue;
                    }
                    if (_cmp == 0) {
                        cmp_res = 0;
                    }
                    metac_recursive_iterator_done(p_iter, &cmp_res);
                    continue;
                } else if (metac_value_is_base_type(p1->p_val) != 0 && metac_value_is_base_type(p2->p_val) != 0) {
                    int _cmp = metac_value_equal_base_type(p1->p_val, p2->p_val);""", """                } else if ((metac_value_is_enumeration(p1->p_val) != 0 && metac_value_is_enumeration(p2->p_val) != 0) ||
                    (metac_value_is_base_type(p1->p_val) != 0 && metac_value_is_base_type(p2->p_val) != 0)) {
                    int _cmp = _equal_leaf(p1->p_val, p2->p_val);""")]),
    ("equal release order", [(D, """    metac_value_memory_map_delete(p_map2);
    metac_value_memory_map_delete(p_map1);
    
    return fail == 0? cmp_res: -(EFAULT);""", """    metac_value_memory_map_delete(p_map1);
    metac_value_memory_map_delete(p_map2);
    if (fail != 0) {
        return -(EFAULT);
    }
    return cmp_res;""")]),
    # --- entry.c
    ("byte size for", [(E, "    metac_size_t multipier = 1;\n    while (p_entry != NULL) {", "    metac_size_t multipier = 1;\n    for (;;) {\n        if (p_entry == NULL) {\n            break;\n        }")]),
    ("final entry qual switch", [(E, """            quals.flag_const |= (p_entry->kind == METAC_KND_const_type);
            quals.flag_volatile |= (p_entry->kind == METAC_KND_volatile_type);
            quals.flag_restrict |= (p_entry->kind == METAC_KND_restrict_type);
            quals.flag_mutable |= (p_entry->kind == METAC_KND_mutable_type);
            quals.flag_shared |= (p_entry->kind == METAC_KND_shared_type);
            quals.flag_packed |= (p_entry->kind == METAC_KND_packed_type);
""", """            if (p_entry->kind == METAC_KND_const_type) {
                quals.flag_const = 1;
            } else if (p_entry->kind == METAC_KND_volatile_type) {
                quals.flag_volatile = 1;
            } else if (p_entry->kind == METAC_KND_restrict_type) {
                quals.flag_restrict = 1;
            } else if (p_entry->kind == METAC_KND_mutable_type) {
                quals.flag_mutable = 1;
            } else if (p_entry->kind == METAC_KND_shared_type) {
                quals.flag_shared = 1;
            } else {
                quals.flag_packed = 1;
            }
""")]),
    ("new entry assignment", [(E, "    _init_entry(p_entry, p_entry_from);\n    p_entry->dynamically_allocated = 1;", "    *p_entry = *p_entry_from;\n    p_entry->dynamically_allocated = 1;")]),
    ("entry kind helper", [(E, """static metac_entry_t * _entry_with_array_info(metac_entry_t * p_entry) {
    _check_(p_entry == NULL, NULL);
    
    metac_entry_t * p_final_entry = metac_entry_final_entry(p_entry, NULL);
    _check_(p_final_entry == NULL, NULL);
    _check_(metac_entry_kind(p_final_entry) != METAC_KND_array_type, NULL);

    return p_final_entry;
}""", """static metac_entry_t * _final_of(metac_entry_t * p_entry, metac_kind_t kind) {
    metac_entry_t * p_final_entry = metac_entry_final_entry(p_entry, NULL);
    return (metac_entry_kind(p_final_entry) == kind)? p_final_entry : NULL;
}

static metac_entry_t * _entry_with_array_info(metac_entry_t * p_entry) {
    return _final_of(p_entry, METAC_KND_array_type);
}"""), (E, """static metac_entry_t * _entry_with_enumeration_info(metac_entry_t * p_entry) {
    _check_(p_entry == NULL, NULL);
    
    metac_entry_t * p_final_entry = metac_entry_final_entry(p_entry, NULL);
    _check_(p_final_entry == NULL, NULL);
    _check_(metac_entry_kind(p_final_entry) != METAC_KND_enumeration_type, NULL);

    return p_final_entry;
}""", """static metac_entry_t * _entry_with_enumeration_info(metac_entry_t * p_entry) {
    return _final_of(p_entry, METAC_KND_enumeration_type);
}""")]),
    ("parameters pointer", [(E, """    if (p_final_entry->kind == METAC_KND_subprogram) {
        for (metac_num_t i = 0; i < par_count; ++i) {
            if (p_final_entry->subprogram_info.parameters[i].name != NULL &&
                strcmp(p_final_entry->subprogram_info.parameters[i].name, name) == 0) {
                    return i;
                }
        }
    } else if (p_final_entry->kind == METAC_KND_subroutine_type) {
        for (metac_num_t i = 0; i < par_count; ++i) {
            if (p_final_entry->subroutine_type_info.parameters[i].name != NULL &&
                strcmp(p_final_entry->subroutine_type_info.parameters[i].name, name) == 0) {
                    return i;
                }
        }
    }
    return -(ENOENT);""", """    metac_entry_t * p_params = (p_final_entry->kind == METAC_KND_subprogram)?
        p_final_entry->subprogram_info.parameters: p_final_entry->subroutine_type_info.parameters;
    for (metac_num_t i = 0; i < par_count; ++i) {
        metac_name_t param_name = p_params[i].name;
        if (param_name != NULL && strcmp(param_name, name) == 0) {
            return i;
        }
    }
    return -(ENOENT);""")]),
    ("va list cdecl or", [(E, """    int cmp_res = strcmp(cdecl, "va_list %s");
    if (cmp_res != 0) { // linux
        cmp_res = strcmp(cdecl, "struct __va_list_tag * %s");
    }
    free(cdecl);

    return (cmp_res == 0);""", """    metac_flag_t res = strcmp(cdecl, "va_list %s") == 0 || strcmp(cdecl, "struct __va_list_tag * %s") == 0;
    free(cdecl);
    return res;""")]),
    ("bitfield offsets common tail", [(E, """        // calculate complete data_bit_offset
        metac_offset_t _data_bit_offset = (p_memb_entry->member_info.byte_offset + _byte_size) * 8 - (_bit_offset + (*p_bit_size));

        // out
        *p_byte_offset = _data_bit_offset >> 3;
        *p_bit_offset = _data_bit_offset & 0x7;""", """        // calculate complete data_bit_offset
        metac_offset_t _end = (p_memb_entry->member_info.byte_offset + _byte_size) * 8;
        metac_offset_t _data_bit_offset = _end - _bit_offset - (*p_bit_size);

        // out
        *p_byte_offset = _data_bit_offset / 8;
        *p_bit_offset = _data_bit_offset % 8;""")]),
    # --- printf_format.c
    ("printf room helper", [(P, "static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload, const char * format, struct va_list_container * p_cntr) {", """static void * _room(metac_parameter_storage_t * p_pload, metac_entry_t * p_param_entry, metac_num_t size, metac_num_t param_id) {
    if (metac_parameter_storage_append_by_buffer(p_pload, p_param_entry, size) != 0) {
        return NULL;
    }
    metac_value_t * p_param_value = metac_parameter_storage_new_param_value(p_pload, param_id);
    if (p_param_value == NULL) {
        return NULL;
    }
    void * p_res = metac_value_addr(p_param_value);
    metac_value_delete(p_param_value);
    return p_res;
}

static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload, const char * format, struct va_list_container * p_cntr) {"""),
        (P, """                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_entry, sizeof(p)) != 0) {
                                return -(EFAULT);
                            }
                            metac_value_t * p_param_value = metac_parameter_storage_new_param_value(p_pload, param_id);
                            if (p_param_value == NULL) {
                                return -(EFAULT);
                            }
                            void * p_param_value_ptr = metac_value_addr(p_param_value);
                            metac_value_delete(p_param_value);
                            memcpy(p_param_value_ptr, &p, sizeof(p));""", """                            void * p_param_value_ptr = _room(p_pload, p_param_entry, sizeof(p), param_id);
                            if (p_param_value_ptr == NULL) {
                                return -(EFAULT);
                            }
                            memcpy(p_param_value_ptr, &p, sizeof(p));"""),
        (P, """                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, len+1) != 0) {
                                metac_entry_delete(p_param_with_len_entry);
                                return -(EFAULT);
                            }
                            metac_value_t * p_param_value = metac_parameter_storage_new_param_value(p_pload, param_id);
                            metac_entry_delete(p_param_with_len_entry);
                            if (p_param_value == NULL) {
                                return -(EFAULT);
                            }
                            void * p_param_value_ptr = metac_value_addr(p_param_value);
                            metac_value_delete(p_param_value);
                            memcpy(""", """                            void * p_param_value_ptr = _room(p_pload, p_param_with_len_entry, len+1, param_id);
                            metac_entry_delete(p_param_with_len_entry);
                            if (p_param_value_ptr == NULL) {
                                return -(EFAULT);
                            }
                            memcpy(""")]),
    ("printf flags switch", [(P, """        if (format[*pos] == '+') {
            p_specifier->flags.plus = 1;
        } else if (format[*pos] == '-') {
            p_specifier->flags.minus = 1;
        } else if (format[*pos] == '#') {
            p_specifier->flags.pound = 1;
        } else if (format[*pos] == '0') {
            p_specifier->flags.oct = 1;
        } else if (format[*pos] == ' ') {
            p_specifier->flags.space = 1;
        } else {
            break;
        }
        (*pos)++;""", """        int is_flag = 1;
        switch (format[*pos]) {
            case '+': p_specifier->flags.plus = 1; break;
            case '-': p_specifier->flags.minus = 1; break;
            case '#': p_specifier->flags.pound = 1; break;
            case '0': p_specifier->flags.oct = 1; break;
            case ' ': p_specifier->flags.space = 1; break;
            default: is_flag = 0; break;
        }
        if (is_flag == 0) {
            break;
        }
        (*pos)++;""")]),
    ("printf local cursor", [(P, """    while (*pos < strlen(format) && isdigit(format[*pos])) {
        metac_num_t d = format[*pos] - '0';
        p_specifier->format_len = p_specifier->format_len * 10 + d;
        (*pos)++;
    }

    // Check for optional precision""", """    size_t len = strlen(format);
    while (*pos < len && isdigit(format[*pos])) {
        p_specifier->format_len = p_specifier->format_len * 10 + (format[*pos] - '0');
        *pos += 1;
    }

    // Check for optional precision""")]),
    ("printf continue inverted", [(P, """    while (pos < strlen(format)) {
        if (format[pos] == '%') {
            // Check if a valid format specifier follows
            if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
            num_specifiers++;
            } else if (format[pos] == '%') { // %%
                pos++;
            }
            continue; // pos is already behind the specifier
        }
        pos++;
    }
    return num_specifiers;""", """    size_t len = strlen(format);
    while (pos < len) {
        if (format[pos] != '%') {
            pos++;
        } else if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
            num_specifiers++;
        } else if (format[pos] == '%') { // %%
            pos++;
        }
    }
    return num_specifiers;""")]),
]
