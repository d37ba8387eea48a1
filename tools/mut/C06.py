E="src/entry.c"; T="src/entry_tag.c"; V="src/value.c"; C="src/entry_cdecl.c"
MUT=[
 ("parent-neg",[(E,"_check_(id < 0 || id >= p_entry->parents_count, NULL);","_check_(id >= p_entry->parents_count, NULL);")]),
 ("member-gt",[(E,"member_id >= p_final_entry->structure","member_id > p_final_entry->structure")]),
 ("enum-wrongcount",[(E,"id >= p_final_entry->enumeration_type_info.enumerators_count","id >= p_final_entry->parents_count")]),
 ("param-none",[(E,"_check_(param_id < 0 || param_id >= p_final_entry->subroutine_type_info.parameters_count, NULL);","")]),
 ("loop-le",[(E,"i < p_final_entry->structure_type_info.members_count; ++i","i <= p_final_entry->structure_type_info.members_count; ++i")]),
 ("param-loop-le",[(E,"for (metac_num_t i = 0; i < par_count; ++i) {\n            if (p_final_entry->subroutine_type","for (metac_num_t i = 0; i <= par_count; ++i) {\n            if (p_final_entry->subroutine_type")]),
 ("cat",[(T,"category < 0 || category >= p_tag_map->categories_count","category < 0 || category > p_tag_map->categories_count")]),
 ("catneg",[(T,"category < 0 || category >= p_tag_map->categories_count","category >= p_tag_map->categories_count")]),
 ("elem",[(V,"_check_(element_id < 0 || element_id >= element_count, NULL);","_check_(element_id < 0 || element_id > element_count, NULL);")]),
 ("elemneg",[(V,"_check_(element_id < 0 || element_id >= element_count, NULL);","_check_(element_id >= element_count, NULL);")]),
 ("cdecl",[(C,"i < p->enumeration_type_info.enumerators_count","i <= p->enumeration_type_info.enumerators_count")]),
 ("cases",[(T,"i  = 0; i < p_cnxt->cases_count","i  = 0; i <= p_cnxt->cases_count")]),
 ("cases2",[(T,"for (metac_num_t i = 0; i < p_cnxt->cases_count; ++i)","for (metac_num_t i = 0; i <= p_cnxt->cases_count; ++i)")]),
 ("mapex",[(T,"for (metac_num_t i = 0; i < categories_count; ++i)","for (metac_num_t i = 0; i <= categories_count; ++i)")]),
]
REF=[
 ("member-nested-if",[(E,"""    _check_(member_id < 0 || member_id >= p_final_entry->structure_type_info.members_count, NULL);
    return  &p_final_entry->structure_type_info.members[member_id];""","""    metac_num_t n = p_final_entry->structure_type_info.members_count;
    if (member_id >= 0) {
        if (member_id < n) {
            return  &p_final_entry->structure_type_info.members[member_id];
        }
    }
    return NULL;""")]),
 ("helper",[(E,"""metac_entry_t * metac_entry_by_member_id(""","""static int _in_range(metac_num_t id, metac_num_t count) { return 0 <= id && id < count; }
metac_entry_t * metac_entry_by_member_id("""),(E,"_check_(member_id < 0 || member_id >= p_final_entry->structure_type_info.members_count, NULL);","_check_(!_in_range(member_id, p_final_entry->structure_type_info.members_count), NULL);")]),
 ("while",[(E,"""    for (metac_num_t i = 0; i < p_final_entry->structure_type_info.members_count; ++i) {
        if (p_final_entry->structure_type_info.members[i].name != NULL &&
            strcmp(p_final_entry->structure_type_info.members[i].name, name) == 0) {
                return i;
            }
    }""","""    metac_num_t i = 0;
    while (i != p_final_entry->structure_type_info.members_count) {
        metac_entry_t * p_m = p_final_entry->structure_type_info.members + i;
        if (p_m->name != NULL && strcmp(p_m->name, name) == 0) {
                return i;
            }
        i++;
    }""")]),
 ("ptr-iter",[(E,"""    for (metac_num_t i = 0; i < p_final_entry->structure_type_info.members_count; ++i) {
        if (p_final_entry->structure_type_info.members[i].name != NULL &&
            strcmp(p_final_entry->structure_type_info.members[i].name, name) == 0) {
                return i;
            }
    }""","""    metac_entry_t * p_m = p_final_entry->structure_type_info.members;
    metac_entry_t * p_end = p_m + p_final_entry->structure_type_info.members_count;
    for (metac_num_t i = 0; p_m < p_end; ++p_m, ++i) {
        if (p_m->name != NULL && strcmp(p_m->name, name) == 0) {
                return i;
            }
    }""")]),
 ("elem-helper",[(V,"metac_value_t * metac_new_value_by_element_id(","static int _bad(metac_num_t a, metac_num_t n){ if (a < 0) return 1; return a >= n; }\nmetac_value_t * metac_new_value_by_element_id("),
    (V,"_check_(element_id < 0 || element_id >= element_count, NULL);","if (_bad(element_id, element_count)) { return NULL; }")]),
 ("reverse",[(T,"for (metac_num_t i  = 0; i < p_cnxt->cases_count; ++i) {","for (metac_num_t i  = p_cnxt->cases_count - 1; i >= 0; --i) {")]),
 ("unsigned",[(E,"_check_(id < 0 || id >= p_entry->parents_count, NULL);","_check_((unsigned)id >= (unsigned)p_entry->parents_count, NULL);")]),
 ("get-accessor",[(E,"_check_(id < 0 || id >= p_entry->parents_count, NULL);","metac_num_t n = metac_entry_parent_count(p_entry);\n    _check_(id < 0 || id >= n, NULL);")]),
 ("ptr-to-info",[(E,"""    _check_(id < 0 || id >= p_final_entry->enumeration_type_info.enumerators_count, NULL);
    return &p_final_entry->enumeration_type_info.enumerators[id];""","""    struct enumeration_type_info * p_info = &p_final_entry->enumeration_type_info;
    _check_(id < 0 || id >= p_info->enumerators_count, NULL);
    return &p_info->enumerators[id];""")]),
]
