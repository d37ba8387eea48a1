B="src/value_base_type.c"; E="src/entry.c"
MUT=[
 ("is-enc",[(B,'"unsigned short int", METAC_ENC_unsigned, sizeof(unsigned short int)','"unsigned short int", METAC_ENC_signed, sizeof(unsigned short int)')]),
 ("is-size",[(B,'"long double", METAC_ENC_float, sizeof(long double)) == 0','"long double", METAC_ENC_float, sizeof(double)) == 0')]),
 ("get-name",[(B,'int metac_value_ullong(metac_value_t * p_val, unsigned long long *p_var) {\n    return metac_value_base_type(p_val, "unsigned long long int"','int metac_value_ullong(metac_value_t * p_val, unsigned long long *p_var) {\n    return metac_value_base_type(p_val, "unsigned long int"')]),
 ("set-size",[(B,'"complex float", METAC_ENC_complex_float, &var, sizeof(float complex)','"complex float", METAC_ENC_complex_float, &var, sizeof(float)')]),
 ("vis",[(B,"return metac_entry_is_ushort(metac_value_entry(p_val));","return metac_entry_is_short(metac_value_entry(p_val));")]),
 ("char-unsigned",[(B,""" ||
        metac_entry_check_base_type(p_entry, "char", METAC_ENC_unsigned_char, sizeof(char)) == 0; // some""","""; // some""")]),
 ("cmp-missing",[(B,"    _cmp_(long double complex, ldouble_complex);\n","")]),
 ("cmp-wrong",[(B,"_cmp_(long double, ldouble);","_cmp_(double, ldouble);")]),
 ("cmp-self",[(B,"if (metac_value_##_pseudoname_(p_val2, &v2) != 0) {","if (metac_value_##_pseudoname_(p_val1, &v2) != 0) {")]),
 ("str-fmt",[(B,'_string_(unsigned short, ushort, "%hu", v);','_string_(unsigned short, ushort, "%hi", v);')]),
 ("str-width",[(B,'_string_(unsigned long long, ullong, "%Lu", v);','_string_(unsigned long long, ullong, "%u", v);')]),
 ("num-missing",[(B,"    _read_(unsigned long long, ullong);\n","")]),
 ("num-sign",[(B,"    _read_(unsigned char, uchar);\n","    _read_(signed char, uchar);\n")]),
 ("lax-size",[(E,"""            p_entry->base_type_info.byte_size == 0 ||
            p_entry->base_type_info.byte_size == expected_size)) {""","""            p_entry->base_type_info.byte_size == 0 ||
            expected_size != 0)) {""")]),
 ("lax-enc",[(E,"            p_entry->base_type_info.encoding == expected_encoding) && (","            expected_encoding != METAC_ENC_boolean) && (")]),
]
REF=[
 ("helper",[(B,"""metac_flag_t metac_entry_is_ushort(metac_entry_t * p_entry) {
    return metac_entry_check_base_type(p_entry, "unsigned short int", METAC_ENC_unsigned, sizeof(unsigned short int)) == 0;""","""static metac_flag_t _is(metac_entry_t * p_entry, metac_name_t name, metac_encoding_t enc, metac_size_t sz) {
    int res = metac_entry_check_base_type(p_entry, name, enc, sz);
    if (res != 0) {
        return 0;
    }
    return 1;
}
metac_flag_t metac_entry_is_ushort(metac_entry_t * p_entry) {
    return _is(p_entry, "unsigned short int", METAC_ENC_unsigned, sizeof(unsigned short int));""")]),
 ("split",[(E,"""    if (strcmp(p_entry->name, expected_name) == 0 && (
            p_entry->base_type_info.encoding == METAC_ENC_undefined || 
            p_entry->base_type_info.encoding == expected_encoding) && (
            p_entry->base_type_info.byte_size == 0 ||
            p_entry->base_type_info.byte_size == expected_size)) {
        return 0;
    }

    return -(EINVAL);""","""    int same_enc = p_entry->base_type_info.encoding == METAC_ENC_undefined ||
            p_entry->base_type_info.encoding == expected_encoding;
    int same_size = p_entry->base_type_info.byte_size == 0 ||
            p_entry->base_type_info.byte_size == expected_size;
    int err = -(EINVAL);
    if (same_size && same_enc && !strcmp(p_entry->name, expected_name)) {
        err = 0;
    }
    return err;""")]),
 ("split2",[(E,"""    if (strcmp(p_entry->name, expected_name) == 0 && (""","""    if (strcmp(p_entry->name, expected_name) != 0) { return -(EINVAL); }
    if (p_entry->base_type_info.encoding != METAC_ENC_undefined && p_entry->base_type_info.encoding != expected_encoding) { return -(EINVAL); }
    return p_entry->base_type_info.byte_size == 0 || p_entry->base_type_info.byte_size == expected_size ? 0 : -(EINVAL);
    if (strcmp(p_entry->name, expected_name) == 0 && (""")]),
 ("order",[(B,"    _copy_(char, char);\n    _copy_(unsigned char, uchar);\n","    _copy_(unsigned char, uchar);\n    _copy_(char, char);\n")]),
 ("cmpfn",[(B,"            return (v1 == v2)?1:0; \\","            int same = !(v1 != v2); \\\n            return same; \\")]),
 ("test-swap",[(B,"        if ( metac_value_is_##_pseudoname_(p_val1) != 0) { \\\n            if (metac_value_is_##_pseudoname_(p_val2) == 0) { \\\n                return -(EFAULT); \\\n            } \\","        if ( metac_value_is_##_pseudoname_(p_val1) != 0) { \\\n            if (!metac_value_is_##_pseudoname_(p_val2)) { \\\n                return -(EFAULT); \\\n            } \\")]),
]
