E="src/entry.c"; T="src/entry_tag.c"; V="src/value.c"; C="src/entry_cdecl.c"
PI='''    _check_(p_final_entry->kind != METAC_KND_pointer_type, NULL);
'''
MUT=[
 ("ptr-nokind",[(E,PI,"")]),
 ("array-accepts-ptr",[(E,"    _check_(metac_entry_kind(p_final_entry) != METAC_KND_array_type, NULL);\n","    _check_(metac_entry_kind(p_final_entry) != METAC_KND_array_type && metac_entry_kind(p_final_entry) != METAC_KND_pointer_type, NULL);\n")]),
 ("enum-nokind",[(E,"    _check_(metac_entry_kind(p_final_entry) != METAC_KND_enumeration_type, NULL);\n","")]),
 ("enum-base",[(E,"    _check_(metac_entry_kind(p_final_entry) != METAC_KND_enumeration_type, NULL);\n","    _check_(metac_entry_kind(p_final_entry) != METAC_KND_enumeration_type && metac_entry_kind(p_final_entry) != METAC_KND_base_type, NULL);\n")]),
 ("byte-size-subroutine",[(E,"        case METAC_KND_array_type:\n            if (p_entry->array_type_info.count <= 0","        case METAC_KND_subroutine_type:\n        case METAC_KND_array_type:\n            if (p_entry->array_type_info.count <= 0")]),
 ("unspec-param",[(E,"_check_(p_entry == NULL || metac_entry_kind(p_entry) != METAC_KND_func_parameter, 0);","_check_(p_entry == NULL, 0);")]),
 ("param-entry",[(E,"    _check_(metac_entry_kind(p_entry) != METAC_KND_func_parameter, NULL);\n","")]),
 ("struct-array",[(E,"        p_final_entry->kind != METAC_KND_class_type, NULL);","        p_final_entry->kind != METAC_KND_class_type && p_final_entry->kind != METAC_KND_array_type, NULL);")]),
 ("member-off",[(E,"    _check_(metac_entry_kind(p_memb_entry) != METAC_KND_member, -(EINVAL));\n","")]),
 ("subr-kinds",[(E,"""    } else if (p_final_entry->kind == METAC_KND_subroutine_type) {
        _check_(param_id""","""    } else {
        _check_(param_id"""),(E,"""        p_final_entry->kind != METAC_KND_subprogram &&
        p_final_entry->kind != METAC_KND_subroutine_type, NULL);""","""        p_final_entry->kind != METAC_KND_subprogram &&
        p_final_entry->kind != METAC_KND_lex_block &&
        p_final_entry->kind != METAC_KND_subroutine_type, NULL);""")]),
]
REF=[
 ("switch",[(E,"""    _check_(
        p_final_entry->kind != METAC_KND_struct_type &&
        p_final_entry->kind != METAC_KND_union_type &&
        p_final_entry->kind != METAC_KND_class_type, NULL);

    return p_final_entry;""","""    switch (metac_entry_kind(p_final_entry)) {
    case METAC_KND_struct_type:
    case METAC_KND_union_type:
    case METAC_KND_class_type:
        return p_final_entry;
    default:
        break;
    }
    return NULL;""")]),
 ("helper-kind",[(E,"static metac_entry_t * _entry_with_array_info(","static metac_entry_t * _of_kind(metac_entry_t * p, metac_kind_t k) {\n    if (p == NULL || p->kind != k) {\n        return NULL;\n    }\n    return p;\n}\n\nstatic metac_entry_t * _entry_with_array_info("),
  (E,"    _check_(p_final_entry == NULL, NULL);\n    _check_(metac_entry_kind(p_final_entry) != METAC_KND_array_type, NULL);\n\n    return p_final_entry;","    return _of_kind(p_final_entry, METAC_KND_array_type);"),
  (E,"    _check_(p_final_entry == NULL, NULL);\n    _check_(metac_entry_kind(p_final_entry) != METAC_KND_enumeration_type, NULL);\n\n    return p_final_entry;","    return _of_kind(p_final_entry, METAC_KND_enumeration_type);")]),
 ("ternary",[(E,"    if (p_final_entry != NULL) {\n        return p_final_entry->array_type_info.type;\n    }\n    return NULL;","    return p_final_entry == NULL ? NULL : p_final_entry->array_type_info.type;")]),
 ("isx",[(E,"    _check_(metac_entry_kind(p_entry) != METAC_KND_func_parameter, NULL);\n","    _check_(metac_entry_is_parameter(p_entry) == 0, NULL);\n")]),
 ("infoptr",[(E,"""    for (metac_num_t i = 0; i < p_final_entry->enumeration_type_info.enumerators_count; ++i) {
        if (p_final_entry->enumeration_type_info.enumerators[i].const_value == var) {
            return p_final_entry->enumeration_type_info.enumerators[i].name;""","""    struct enumeration_type_info * p_info = &p_final_entry->enumeration_type_info;
    for (metac_num_t i = 0; i < p_info->enumerators_count; ++i) {
        if (p_info->enumerators[i].const_value == var) {
            return p_info->enumerators[i].name;""")]),
 ("extract-size",[(E,"int metac_entry_byte_size(","static metac_size_t _own_size(metac_entry_t * p_entry) {\n    switch (p_entry->kind) {\n    case METAC_KND_base_type: return p_entry->base_type_info.byte_size;\n    case METAC_KND_enumeration_type: return p_entry->enumeration_type_info.byte_size;\n    default: return p_entry->structure_type_info.byte_size;\n    }\n}\n\nint metac_entry_byte_size("),
   (E,"*p_sz = p_entry->base_type_info.byte_size * multipier;","*p_sz = _own_size(p_entry) * multipier;"),
   (E,"*p_sz =  p_entry->enumeration_type_info.byte_size * multipier;","*p_sz = _own_size(p_entry) * multipier;"),
   (E,"*p_sz =  p_entry->structure_type_info.byte_size * multipier;","*p_sz = _own_size(p_entry) * multipier;")]),
 ("cdecl-elem",[(C,"""                        for (int i = 0; i < p->structure_type_info.members_count; ++i) {
                            if (p->structure_type_info.members[i].member_info.type != NULL) {
                                metac_recursive_iterator_create_and_append_dep(p_iter, p->structure_type_info.members[i].member_info.type);""","""                        for (int i = 0; i < p->structure_type_info.members_count; ++i) {
                            metac_entry_t * p_m = &p->structure_type_info.members[i];
                            if (p_m->member_info.type != NULL) {
                                metac_recursive_iterator_create_and_append_dep(p_iter, p_m->member_info.type);""")]),
 ("cdecl-ptriter",[(C,"""                        for (int i = 0; i < p->structure_type_info.members_count; ++i) {
                            if (p->structure_type_info.members[i].member_info.type != NULL) {
                                metac_recursive_iterator_create_and_append_dep(p_iter, p->structure_type_info.members[i].member_info.type);
                            }""","""                        metac_entry_t * p_m = p->structure_type_info.members;
                        for (int i = 0; i < p->structure_type_info.members_count; ++i, ++p_m) {
                            if (p_m->member_info.type != NULL) {
                                metac_recursive_iterator_create_and_append_dep(p_iter, p_m->member_info.type);
                            }""")]),
]
