T = "src/entry_tag.c"
MUT = [
    ("match not recorded", [(T, "                                id_converted = 1;\n                                break;", "                                break;")]),
    ("no context is success", [(T, """            p_cnxt->cases_count <= 0) {
            return -(EINVAL);""", """            p_cnxt->cases_count <= 0) {
            return 0;""")]),
    ("prefix match", [(T, """                if (metac_value_name(p_sibling_val) == NULL ||
                    strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                    metac_value_delete(p_sibling_val);
                    continue;
                }
                metac_num_t content_len = 0;
                if (metac_value_num(p_sibling_val, &content_len) != 0) {
                    metac_value_delete(p_sibling_val);
                    return -(EFAULT);
                }
                metac_value_delete(p_sibling_val);
                p_ev->p_return_value =  metac""", """                if (metac_value_name(p_sibling_val) == NULL ||
                    strncmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name, strlen(p_cnxt->counter_sibling_entry_name)) !=0 ) {
                    metac_value_delete(p_sibling_val);
                    continue;
                }
                metac_num_t content_len = 0;
                if (metac_value_num(p_sibling_val, &content_len) != 0) {
                    metac_value_delete(p_sibling_val);
                    return -(EFAULT);
                }
                metac_value_delete(p_sibling_val);
                p_ev->p_return_value =  metac""")]),
    ("last parameter", [(T, "for (metac_num_t i = 0; i < metac_value_parameter_count(p_parent_val); ++i) {", "for (metac_num_t i = 0; i < metac_value_parameter_count(p_parent_val) - 1; ++i) {")]),
    ("from second sibling", [(T, """        if (metac_value_has_members(p_parent_val) != 0) {
            for (metac_num_t i = 0;""", """        if (metac_value_has_members(p_parent_val) != 0) {
            for (metac_num_t i = 1;""")]),
    ("count plus one", [(T, "p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);\n                return", "p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len + 1);\n                return")]),
    ("count in a byte", [(T, "p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);\n                return", "p_ev->p_return_value =  metac_new_element_count_value(p_val, (unsigned char)content_len);\n                return")]),
    ("count of parent", [(T, "p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);\n                return", "p_ev->p_return_value =  metac_new_element_count_value(p_parent_val, content_len);\n                return")]),
    ("string without end", [(T, "metac_num_t content_len = strlen(ptr) + 1;", "metac_num_t content_len = strlen(ptr);")]),
    ("string of a byte", [(T, "metac_num_t content_len = strlen(ptr) + 1;", "metac_num_t content_len = (unsigned char)(strlen(ptr) + 1);")]),
    ("any string", [(T, """        if (p_target_entry == NULL || metac_entry_kind(p_target_entry) != METAC_KND_base_type ||
            metac_entry_name(p_target_entry) == NULL || strcmp(metac_entry_name(p_target_entry), "char") != 0) {
            return -(EFAULT);
        }
""", """        if (p_target_entry == NULL || metac_entry_kind(p_target_entry) != METAC_KND_base_type) {
            return -(EFAULT);
        }
""")]),
    ("offset added", [(T, "p = p - p_cnxt->member_offset;", "p = p + p_cnxt->member_offset;")]),
    ("no offset", [(T, "        p = p - p_cnxt->member_offset;\n", "")]),
    ("offset in a byte", [(T, "p = p - p_cnxt->member_offset;", "p = p - (uint8_t)p_cnxt->member_offset;")]),
    ("two containers", [(T, "metac_new_element_count_value(p_container_ptr_val, 1);", "metac_new_element_count_value(p_container_ptr_val, 0);")]),
    ("container answers union", [(T, "    if (p_ev->type == METAC_RQVST_pointer_array_count) {\n        struct metac_container_of", "    if (p_ev->type >= METAC_RQVST_flex_array_count) {\n        struct metac_container_of")]),
    ("count answers union", [(T, """    if ((p_ev->type == METAC_RQVST_pointer_array_count || p_ev->type == METAC_RQVST_flex_array_count) &&
        metac_value_walker_hierarchy_level(p_hierarchy) > 0) {""", """    if ((p_ev->type != METAC_RQVST_va_list) &&
        metac_value_walker_hierarchy_level(p_hierarchy) > 0) {""")]),
    ("unmapped selector", [(T, """                        if (id_converted == 0) {
                            return -(ENOENT);
                        }""", "                        (void)id_converted;")]),
    ("case id first", [(T, "if (p_cnxt->p_cases[i].union_fld_name != NULL) {", "if (p_cnxt->p_cases[i].union_fld_name != NULL && p_cnxt->p_cases[i].union_fld_id == 0) {")]),
    ("one case is enough", [(T, "if (p_cnxt->cases_count > 0) {", "if (p_cnxt->cases_count > 1) {")]),
    ("case at least", [(T, "if (p_cnxt->p_cases[i].fld_val == id) {", "if (p_cnxt->p_cases[i].fld_val >= id) {")]),
    ("name in parent", [(T, "id = metac_entry_member_name_to_id(metac_value_entry(p_val), p_cnxt->p_cases[i].union_fld_name);", "id = metac_entry_member_name_to_id(metac_value_entry(p_parent_val), p_cnxt->p_cases[i].union_fld_name);")]),
    ("last case skipped", [(T, "for (metac_num_t i = 0; i < p_cnxt->cases_count; ++i) {\n                            if (p_cnxt->p_cases[i].fld_val", "for (metac_num_t i = 0; i < p_cnxt->cases_count - 1; ++i) {\n                            if (p_cnxt->p_cases[i].fld_val")]),
    ("constant as field", [(T, "case unsConstant: {", "case unsConstant + 1: {"), (T, "case unsSelectByField: {", "case unsConstant:\n            case unsSelectByField: {")]),
    ("selector twice", [(T, "metac_num_t count_id = metac_entry_member_name_to_id(metac_value_entry(p_parent_val), p_cnxt->sibling_count_fieldname);", "metac_num_t count_id = metac_entry_member_name_to_id(metac_value_entry(p_parent_val), p_cnxt->sibling_selector_fieldname);")]),
    ("count ignored", [(T, 'if (p_cnxt->sibling_count_fieldname != NULL && strcmp(p_cnxt->sibling_count_fieldname, "") != 0) {', 'if (p_cnxt->sibling_count_fieldname != NULL && strcmp(p_cnxt->sibling_count_fieldname, "") == 0) {')]),
    ("default count 0", [(T, "metac_num_t content_count = 1;", "metac_num_t content_count = 0;")]),
    ("first case only", [(T, "            if (content_type == p_cnxt->p_cases[i].fld_val) {\n                if (p_cnxt->p_cases[i].p_ptr_entry == NULL) {", "            if (content_type == p_cnxt->p_cases[0].fld_val) {\n                if (p_cnxt->p_cases[i].p_ptr_entry == NULL) {")]),
    ("cast not applied", [(T, "metac_new_element_count_value(p_cast_ptr_val, content_count);", "metac_new_element_count_value(p_val, content_count);")]),
    ("cast before last", [(T, "for (metac_num_t i  = 0; i < p_cnxt->cases_count; ++i) {\n            if (content_type", "for (metac_num_t i  = 0; i + 1 < p_cnxt->cases_count; ++i) {\n            if (content_type")]),
    ("cases counted in contexts", [(T, "p_cnxt->cases_count = case_sz / sizeof(struct metac_union_member_select_by_case);", "p_cnxt->cases_count = case_sz / sizeof(struct metac_union_member_select_by_context);")]),
    ("one case copied", [(T, "p_cnxt->p_cases = calloc(p_cnxt->cases_count, sizeof(struct metac_ptr_cast_case));", "p_cnxt->p_cases = calloc(p_cnxt->cases_count, sizeof(struct metac_ptr_cast_case)); case_sz = sizeof(*p_cases);")]),
    ("names swapped", [(T, "p_cnxt->sibling_count_fieldname = strdup(sibling_count_fieldname);", "p_cnxt->sibling_count_fieldname = strdup(sibling_selector_fieldname);")]),
    ("id dropped", [(T, "    p_cnxt->permanent_id = permanent_id;\n", "")]),
]
REF = [
    ("sibling helper", [(T, "int metac_handle_count_by(metac_value_walker_hierarchy_t", """static metac_flag_t is_named(metac_value_t * p_val, metac_name_t name) {
    metac_name_t n = metac_value_name(p_val);
    return n != NULL && strcmp(name, n) == 0;
}

int metac_handle_count_by(metac_value_walker_hierarchy_t"""), (T, """                if (metac_value_name(p_sibling_val) == NULL ||
                    strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                    metac_value_delete(p_sibling_val);
                    continue;
                }
                metac_num_t content_len = 0;
                if (metac_value_num(p_sibling_val, &content_len) != 0) {
                    metac_value_delete(p_sibling_val);
                    return -(EFAULT);
                }
                metac_value_delete(p_sibling_val);
                p_ev->p_return_value =  metac""", """                if (is_named(p_sibling_val, p_cnxt->counter_sibling_entry_name) == 0) {
                    metac_value_delete(p_sibling_val);
                    continue;
                }
                metac_num_t content_len = 0;
                if (metac_value_num(p_sibling_val, &content_len) != 0) {
                    metac_value_delete(p_sibling_val);
                    return -(EFAULT);
                }
                metac_value_delete(p_sibling_val);
                p_ev->p_return_value =  metac""")]),
    ("read helper", [(T, "int metac_handle_count_by(metac_value_walker_hierarchy_t", """static int take_num(metac_value_t * p_sibling_val, metac_num_t * p_num) {
    int res = metac_value_num(p_sibling_val, p_num);
    metac_value_delete(p_sibling_val);
    return res;
}

int metac_handle_count_by(metac_value_walker_hierarchy_t"""), (T, """                if (metac_value_num(p_sibling_val, &content_len) != 0) {
                    metac_value_delete(p_sibling_val);
                    return -(EFAULT);
                }
                metac_value_delete(p_sibling_val);
                p_ev->p_return_value =  metac""", """                if (take_num(p_sibling_val, &content_len) != 0) {
                    return -(EFAULT);
                }
                p_ev->p_return_value =  metac""")]),
    ("name to id", [(T, """            for (metac_num_t i = 0; i < metac_value_member_count(p_parent_val); ++i) {
                metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);
                if (p_sibling_val == NULL) {
                    return -(EFAULT);
                }
                if (metac_value_name(p_sibling_val) == NULL ||
                    strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                    metac_value_delete(p_sibling_val);
                    continue;
                }
                metac_num_t content_len""", """            metac_num_t i = metac_entry_member_name_to_id(metac_value_entry(p_parent_val), p_cnxt->counter_sibling_entry_name);
            if (i >= 0) {
                metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);
                if (p_sibling_val == NULL) {
                    return -(EFAULT);
                }
                metac_num_t content_len""")]),
    ("early out", [(T, """    if (p_ev->type == METAC_RQVST_pointer_array_count) {
        struct metac_container_of_context *p_cnxt = (struct metac_container_of_context *)p_context;""", """    if (p_ev->type != METAC_RQVST_pointer_array_count) {
        return 0;
    }
    {
        struct metac_container_of_context *p_cnxt = (struct metac_container_of_context *)p_context;""")]),
    ("char pointer arithmetic", [(T, "        p = p - p_cnxt->member_offset;", "        p = (char*)p - p_cnxt->member_offset;")]),
    ("if instead of switch", [(T, "        switch (p_cnxt->mode) {\n            case unsSelectByField: {\n", "        if (p_cnxt->mode == unsSelectByField) {\n"), (T, """                    return (p_ev->p_return_value != NULL)?0:-(EFAULT);
                }
            }
            break;
            case unsConstant: {
                metac""", """                    return (p_ev->p_return_value != NULL)?0:-(EFAULT);
                }
        } else if (p_cnxt->mode == unsConstant) {
                metac"""), (T, """                p_ev->p_return_value = metac_new_value_by_member_id(p_val, p_cnxt->permanent_id);
                return (p_ev->p_return_value != NULL)?0:-(EFAULT);
            }
            break;
        }""", """                p_ev->p_return_value = metac_new_value_by_member_id(p_val, p_cnxt->permanent_id);
                return (p_ev->p_return_value != NULL)?0:-(EFAULT);
        }""")]),
    ("case pointer", [(T, """        for (metac_num_t i  = 0; i < p_cnxt->cases_count; ++i) {
            if (content_type == p_cnxt->p_cases[i].fld_val) {
                if (p_cnxt->p_cases[i].p_ptr_entry == NULL) {
                    return -(EINVAL);
                }
                metac_value_t *p_cast_ptr_val = metac_new_value(p_cnxt->p_cases[i].p_ptr_entry, metac_value_addr(p_val));""", """        for (metac_num_t i  = 0; i < p_cnxt->cases_count; ++i) {
            struct metac_ptr_cast_case * p_case = &p_cnxt->p_cases[i];
            if (p_case->fld_val == content_type) {
                if (p_case->p_ptr_entry == NULL) {
                    return -(EINVAL);
                }
                metac_value_t *p_cast_ptr_val = metac_new_value(p_case->p_ptr_entry, metac_value_addr(p_val));""")]),
    ("case helper", [(T, "int metac_handle_ptr_cast(metac_value_walker_hierarchy_t", """static struct metac_ptr_cast_case * find_case(struct metac_ptr_cast_context * p_cnxt, metac_num_t val) {
    for (metac_num_t i  = 0; i < p_cnxt->cases_count; ++i) {
        if (p_cnxt->p_cases[i].fld_val == val) {
            return &p_cnxt->p_cases[i];
        }
    }
    return NULL;
}

int metac_handle_ptr_cast(metac_value_walker_hierarchy_t"""), (T, """        for (metac_num_t i  = 0; i < p_cnxt->cases_count; ++i) {
            if (content_type == p_cnxt->p_cases[i].fld_val) {
                if (p_cnxt->p_cases[i].p_ptr_entry == NULL) {
                    return -(EINVAL);
                }
                metac_value_t *p_cast_ptr_val = metac_new_value(p_cnxt->p_cases[i].p_ptr_entry, metac_value_addr(p_val));""", """        struct metac_ptr_cast_case * p_case = find_case(p_cnxt, content_type);
        {
            if (p_case != NULL) {
                if (p_case->p_ptr_entry == NULL) {
                    return -(EINVAL);
                }
                metac_value_t *p_cast_ptr_val = metac_new_value(p_case->p_ptr_entry, metac_value_addr(p_val));""")]),
    ("flag loop", [(T, "for (metac_num_t i = 0; i < p_cnxt->cases_count; ++i) {\n                            if (p_cnxt->p_cases[i].fld_val == id) {", "for (metac_num_t i = 0; i < p_cnxt->cases_count && id_converted == 0; ++i) {\n                            if (p_cnxt->p_cases[i].fld_val == id) {"), (T, """                                id_converted = 1;
                                break;""", "                                id_converted = 1;")]),
]
