E="src/entry.c"; V="src/value.c"
MUT=[
 ("parent-name",[(E,"return p_entry->parents_count;","return p_entry->parents_count > 1 ? 1 : p_entry->parents_count;")]),
 ("parent-0",[(E,"return p_entry->parents[id];","return p_entry->parents[id / 2];")]),
 ("size-enum",[(E,"p_entry->enumeration_type_info.byte_size * multipier","p_entry->enumeration_type_info.byte_size")]),
 ("size-ref",[(E,"p_entry->reference_type_info.byte_size * multipier","sizeof(void*)")]),
 ("size-arr",[(E,"multipier *= p_entry->array_type_info.count;","multipier = p_entry->array_type_info.count;")]),
 ("size-lb",[(E,"multipier *= p_entry->array_type_info.count;","multipier *= p_entry->array_type_info.count - p_entry->array_type_info.lower_bound;")]),
 ("size-class",[(E,"        case METAC_KND_class_type:\n        case METAC_KND_union_type:\n        case METAC_KND_struct_type:\n            *p_sz","        case METAC_KND_union_type:\n        case METAC_KND_struct_type:\n            *p_sz")]),
 ("size-packed",[(E,"        case METAC_KND_packed_type:\n            p_entry = p_entry->qual_type_info.type;\n            continue;","            p_entry = p_entry->qual_type_info.type;\n            continue;")]),
 ("final-shared",[(E,"        case METAC_KND_shared_type:\n        case METAC_KND_packed_type:\n            quals","        case METAC_KND_packed_type:\n            quals")]),
 ("final-quals",[(E,"quals.flag_restrict |= (p_entry->kind == METAC_KND_restrict_type);","quals.flag_restrict |= (p_entry->kind == METAC_KND_volatile_type);")]),
 ("final-quals-eq",[(E,"quals.flag_const |= (p","quals.flag_const = (p")]),
 ("final-unspec",[(E,"if (p_entry->func_parameter_info.unspecified_parameters != 0) {\n                return p_entry;","if (p_entry->func_parameter_info.unspecified_parameters != 0) {\n                return NULL;")]),
 ("final-ref",[(E,"        case METAC_KND_member:\n            p_entry = p_entry->member_info.type;\n            break;","        case METAC_KND_member:\n            p_entry = p_entry->member_info.type;\n            break;\n        case METAC_KND_enumeration_type:\n            if (p_entry->enumeration_type_info.type == NULL) return p_entry;\n            p_entry = p_entry->enumeration_type_info.type;\n            break;")]),
 ("bt-name",[(E,"return metac_entry_name(p_final_entry);","return metac_entry_name(p_entry);")]),
 ("void-ptr",[(E,"return p_final_entry != NULL && p_final_entry->pointer_type_info.type == NULL;","return p_final_entry != NULL && metac_entry_final_entry(p_final_entry->pointer_type_info.type, NULL) == NULL;")]),
 ("decl-ptr",[(E,"return p_final_entry->pointer_type_info.type->declaration != 0;","return p_final_entry->declaration != 0;")]),
 ("ptr-final",[(E,"    if (p_final_entry != NULL) {\n        return p_final_entry->pointer_type_info.type;","    if (p_final_entry != NULL) {\n        return metac_entry_final_entry(p_final_entry->pointer_type_info.type, NULL);")]),
 ("m-cnt",[(E,"return p_final_entry->structure_type_info.members_count;","return p_final_entry->structure_type_info.hierarchy_items_count;")]),
 ("m-class",[(E,"        p_final_entry->kind != METAC_KND_union_type &&\n        p_final_entry->kind != METAC_KND_class_type, NULL);","        p_final_entry->kind != METAC_KND_union_type, NULL);")]),
 ("m-id",[(E,"member_id < 0 || member_id >= p_final","member_id <= 0 || member_id >= p_final")]),
 ("m-id2",[(E,"return  &p_final_entry->structure_type_info.members[member_id];","return  &p_final_entry->structure_type_info.members[p_final_entry->kind == METAC_KND_union_type ? 0 : member_id];")]),
 ("m-nm",[(E,"strcmp(p_final_entry->structure_type_info.members[i].name, name) == 0","strncmp(p_final_entry->structure_type_info.members[i].name, name, strlen(name)) == 0")]),
 ("m-nm2",[(E,"            strcmp(p_final_entry->structure_type_info.members[i].name, name) == 0) {\n                return i;","            strcmp(p_final_entry->structure_type_info.members[i].name, name) == 0) {\n                return i + 1;")]),
 ("m-type",[(E,"    return p_entry->member_info.type;\n}","    return metac_entry_final_entry(p_entry->member_info.type, NULL);\n}")]),
 ("raw-swap",[(E,"->p_data_bit_offset = p_entry->member_info.p_data_bit_offset;","->p_data_bit_offset = p_entry->member_info.p_bit_offset;")]),
 ("bf-sz",[(E,"(p_memb_entry->member_info.byte_offset + _byte_size) * 8 - (_bit_offset + (*p_bit_size))","(p_memb_entry->member_info.byte_offset + _byte_size) * 8 - _bit_offset - 1")]),
 ("bf-mask",[(E,"        *p_byte_offset = _data_bit_offset >> 3;\n        *p_bit_offset = _data_bit_offset & 0x7;\n    } else  if","        *p_byte_offset = _data_bit_offset >> 3;\n        *p_bit_offset = _data_bit_offset & 0xf;\n    } else  if")]),
 ("bf-add",[(E,"metac_offset_t _data_bit_offset = *p_memb_entry->member_info.p_data_bit_offset;","metac_offset_t _data_bit_offset = *p_memb_entry->member_info.p_data_bit_offset + p_memb_entry->member_info.byte_offset * 8;")]),
 ("arr-cnt",[(E,"return p_final_entry->array_type_info.count;","return p_final_entry->array_type_info.count - p_final_entry->array_type_info.lower_bound;")]),
 ("enum-eq",[(E,"enumerators[i].const_value == var) {\n            return p_final_entry->enumeration_type_info.enumerators[i].name;","enumerators[i].const_value <= var) {\n            return p_final_entry->enumeration_type_info.enumerators[i].name;")]),
 ("enum-name",[(E,"            return p_final_entry->enumeration_type_info.enumerators[i].name;","            return p_final_entry->enumeration_type_info.enumerators[0].name;")]),
 ("enum-id",[(E,"return &p_final_entry->enumeration_type_info.enumerators[id];","return p_final_entry->enumeration_type_info.enumerators;")]),
 ("par-subr",[(E,"        return  &p_final_entry->subroutine_type_info.parameters[param_id];","        return  &p_final_entry->subroutine_type_info.parameters[p_final_entry->subroutine_type_info.parameters_count - 1 - param_id];")]),
 ("par-load",[(E,"        metac_entry_is_unspecified_parameter(p_entry) != 0 || metac_entry_is_va","        metac_entry_is_va")]),
 ("has-res",[(E,"return p_final_entry->subprogram_info.type != NULL;","return p_final_entry->subprogram_info.type != NULL || p_final_entry->kind == METAC_KND_subprogram;")]),
 ("cnt-entry",[(E,"            .count = count,","            .count = count < 0 ? 0 : count,")]),
 ("cnt-entry-ptr",[(E,"        p_element_type_entry = metac_entry_pointer_entry(p_final_entry);","        p_element_type_entry = metac_entry_element_entry(metac_entry_pointer_entry(p_final_entry));")]),
 ("new-entry",[(E,"    memcpy(p_entry, p_entry_from, sizeof(*p_entry));","    memcpy(p_entry, p_entry_from, sizeof(p_entry));")]),
 ("v-elem",[(V,"p_val->addr + element_size * element_id","p_val->addr + sizeof(void*) * element_id")]),
 ("v-memb",[(V,"        p_val->addr + bitfields_raw_info.byte_offset);","        metac_value_final_kind(p_val, NULL) == METAC_KND_union_type ? p_val->addr : p_val->addr + bitfields_raw_info.byte_offset);")]),
 ("v-memb-type",[(V,"return  metac_new_value(p_member_entry, ","return  metac_new_value(metac_entry_final_entry(p_member_entry, NULL), ")]),
 ("v-eq",[(V,"    return (v1 == v2)?1:0;","    return ((int)v1 == (int)v2)?1:0;")]),
 ("v-eq2",[(V,"    if (metac_value_enumeration(p_val2, &v2) != 0) {","    if (metac_value_enumeration(p_val1, &v2) != 0) {")]),
 ("v-cnt",[(V,"        p_addr = *((void**)p_addr);\n        _check_","        _check_")]),
 ("v-fk",[(V,"metac_entry_t * p_final_entry = metac_entry_final_entry(p_val->p_entry , p_quals);","metac_entry_t * p_final_entry = metac_entry_final_entry(p_val->p_entry , NULL);")]),
 ("v-new",[(V,"    if (metac_entry_is_dynamic(p_entry) != 0) {\n        p_entry_copy","    if (metac_entry_is_dynamic(p_entry) != 0 && metac_entry_name(p_entry) == NULL) {\n        p_entry_copy")]),
 ("v-from",[(V,"return metac_new_value(metac_value_entry(p_val), addr);","return metac_new_value(metac_entry_final_entry(metac_value_entry(p_val), NULL), addr);")]),
]
REF=[
 ("switch",[(E,"""    _check_(
        p_final_entry->kind != METAC_KND_struct_type &&
        p_final_entry->kind != METAC_KND_union_type &&
        p_final_entry->kind != METAC_KND_class_type, NULL);

    return p_final_entry;""","""    switch (metac_entry_kind(p_final_entry)) {
    case METAC_KND_struct_type:
    case METAC_KND_union_type:
    case METAC_KND_class_type:
        return p_final_entry;
    default:
        break;
    }
    return NULL;""")]),
 ("memberptr",[(E,"""    for (metac_num_t i = 0; i < p_final_entry->structure_type_info.members_count; ++i) {
        if (p_final_entry->structure_type_info.members[i].name != NULL &&
            strcmp(p_final_entry->structure_type_info.members[i].name, name) == 0) {
                return i;
            }
    }""","""    metac_num_t i = 0;
    while (i < p_final_entry->structure_type_info.members_count) {
        metac_name_t n = p_final_entry->structure_type_info.members[i].name;
        if (n != NULL) {
            if (!strcmp(name, n)) {
                break;
            }
        }
        i++;
    }
    if (i < p_final_entry->structure_type_info.members_count) {
        return i;
    }""")]),
 ("membercur",[(E,"""    for (metac_num_t i = 0; i < p_final_entry->structure_type_info.members_count; ++i) {
        if (p_final_entry->structure_type_info.members[i].name != NULL &&
            strcmp(p_final_entry->structure_type_info.members[i].name, name) == 0) {
                return i;
            }
    }""","""    metac_entry_t *p_first = p_final_entry->structure_type_info.members;
    for (metac_entry_t *p = p_first; p < p_first + p_final_entry->structure_type_info.members_count; ++p) {
        if (p->name != NULL && strcmp(p->name, name) == 0) {
            return (metac_num_t)(p - p_first);
        }
    }""")]),
 ("sizefn",[(E,"""int metac_entry_byte_size(metac_entry_t *p_entry, metac_size_t *p_sz) {""","""static metac_size_t _scaled(metac_size_t a, metac_size_t b) {
    return b * a;
}
int metac_entry_byte_size(metac_entry_t *p_entry, metac_size_t *p_sz) {"""),(E,"*p_sz =  p_entry->structure_type_info.byte_size * multipier;","*p_sz = _scaled(p_entry->structure_type_info.byte_size, multipier);"),
   (E,"multipier *= p_entry->array_type_info.count;","multipier = _scaled(multipier, p_entry->array_type_info.count);")]),
 ("sizeres",[(E,"""    while (p_entry != NULL) {
        switch (p_entry->kind) {
        case METAC_KND_base_type:
            *p_sz = p_entry->base_type_info.byte_size * multipier;
            return 0;""","""    for (; p_entry != NULL; ) {
        metac_kind_t kind = metac_entry_kind(p_entry);
        if (kind == METAC_KND_base_type) {
            metac_size_t res = multipier * p_entry->base_type_info.byte_size;
            *p_sz = res;
            return 0;
        }
        switch (kind) {""")]),
 ("finalq",[(E,"""            quals.flag_const |= (p_entry->kind == METAC_KND_const_type);
            quals.flag_volatile |= (p_entry->kind == METAC_KND_volatile_type);""","""            if (p_entry->kind == METAC_KND_const_type) {
                quals.flag_const = 1;
            } else if (p_entry->kind == METAC_KND_volatile_type) {
                quals.flag_volatile = 1;
            }""")]),
 ("finalwhile",[(E,"""    do {
        if (p_entry == NULL) {
            /* void */
            return p_entry;
        }
""","""    for (;;) {
        if (p_entry == NULL) {
            /* void */
            return NULL;
        }
"""),(E,"    }while(1);\n}\n\nstatic metac_entry_t * _entry_with_base","    }\n}\n\nstatic metac_entry_t * _entry_with_base")]),
 ("bf",[(E,"metac_offset_t _data_bit_offset = (p_memb_entry->member_info.byte_offset + _byte_size) * 8 - (_bit_offset + (*p_bit_size));","metac_offset_t _end = 8 * p_memb_entry->member_info.byte_offset + (_byte_size << 3);\n        metac_offset_t _data_bit_offset = _end - *p_bit_size - _bit_offset;"),
   (E,"        *p_byte_offset = _data_bit_offset >> 3;\n        *p_bit_offset = _data_bit_offset & 0x7;\n    } else  if","        *p_byte_offset = _data_bit_offset / 8;\n        *p_bit_offset = _data_bit_offset % 8;\n    } else  if")]),
 ("rawcopy",[(E,"""        p_bitfields_raw_info->byte_offset = p_entry->member_info.byte_offset;
        p_bitfields_raw_info->p_byte_size = p_entry->member_info.p_byte_size;
        p_bitfields_raw_info->p_data_bit_offset = p_entry->member_info.p_data_bit_offset;
        p_bitfields_raw_info->p_bit_offset = p_entry->member_info.p_bit_offset;
        p_bitfields_raw_info->p_bit_size = p_entry->member_info.p_bit_size;""","""        struct metac_member_info *p_mi = &p_entry->member_info;
        *p_bitfields_raw_info = (struct metac_member_raw_location_info){
            .byte_offset = p_mi->byte_offset,
            .p_byte_size = p_mi->p_byte_size,
            .p_data_bit_offset = p_mi->p_data_bit_offset,
            .p_bit_offset = p_mi->p_bit_offset,
            .p_bit_size = p_mi->p_bit_size,
        };""")]),
 ("params",[(E,"""    if (p_final_entry->kind == METAC_KND_subprogram) {
        return p_final_entry->subprogram_info.parameters_count;
    } else if (p_final_entry->kind == METAC_KND_subroutine_type) {
        return p_final_entry->subroutine_type_info.parameters_count;
    }
    return -(EINVAL);""","""    return p_final_entry->kind == METAC_KND_subprogram ?
        p_final_entry->subprogram_info.parameters_count :
        p_final_entry->subroutine_type_info.parameters_count;""")]),
 ("enum-result",[(E,"""        if (p_final_entry->enumeration_type_info.enumerators[i].const_value == var) {
            return p_final_entry->enumeration_type_info.enumerators[i].name;
        }
    }
    return NULL;""","""        struct metac_type_enumerator_info *p_info = p_final_entry->enumeration_type_info.enumerators + i;
        if (var != p_info->const_value) {
            continue;
        }
        return p_info->name;
    }
    return NULL;""")]),
 ("isptr",[(E,"""    metac_entry_t * p_final_entry = _entry_with_pointer_info(p_entry);
    return p_final_entry != NULL && p_final_entry->pointer_type_info.type == NULL;""","""    if (metac_entry_is_pointer(p_entry) == 0) {
        return 0;
    }
    return metac_entry_pointer_entry(p_entry) == NULL ? 1 : 0;""")]),
 ("v-addr",[(V,"    return  metac_new_value(p_element_entry, p_val->addr + element_size * element_id);","    metac_size_t shift = (metac_size_t)element_id * element_size;\n    char * p_start = (char*)metac_value_addr(p_val);\n    return  metac_new_value(p_element_entry, &p_start[shift]);")]),
 ("v-memb",[(V,"""    struct metac_member_raw_location_info bitfields_raw_info;
    if (metac_entry_member_raw_location_info(p_member_entry, &bitfields_raw_info) != 0) {
        return NULL;
    }
    return  metac_new_value(p_member_entry, 
        p_val->addr + bitfields_raw_info.byte_offset);""","""    return  metac_new_value(p_member_entry, p_val->addr + p_member_entry->member_info.byte_offset);""")]),
 ("v-eq",[(V,"    return (v1 == v2)?1:0;","    if (v1 != v2) {\n        return 0;\n    }\n    return 1;")]),
 ("v-new",[(V,"    metac_value_t * p_val = calloc(1, sizeof(*p_val));\n    if (p_val == NULL) {\n        return NULL;\n    }\n\n    if (metac_init_value","    metac_value_t * p_val = (metac_value_t *)calloc(sizeof(metac_value_t), 1);\n    if (!p_val) {\n        return p_val;\n    }\n\n    if (metac_init_value")]),
 ("new-entry",[(E,"    memcpy(p_entry, p_entry_from, sizeof(*p_entry));","    *p_entry = *p_entry_from;")]),
]
