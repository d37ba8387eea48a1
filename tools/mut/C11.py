V="src/value.c"; A="src/value_with_args.c"; P="src/printf_format.c"
MUT=[
 ("enum-wide",[(V,"        *(short*)p_addr = (short)var;","        *(int*)p_addr = (int)var;")]),
 ("enum-guard",[(V,"    if (enum_byte_size == sizeof(short)){\n        *p_var","    if (enum_byte_size <= sizeof(short)){\n        *p_var")]),
 ("const",[(V,"""    if (quals.flag_const != 0) {
        return -(EPERM);
    }
""","")]),
 ("const-after",[(V,"    if (quals.flag_const != 0) {","    if (quals.flag_const != 0 && metac_entry_kind(p_val->p_entry) != METAC_KND_member) {")]),
 ("untyped",[(V,"""    int err = metac_entry_check_base_type(p_final_entry, type_name, encoding, var_size);
    if (err != 0) {
            return err;
    }

    if (metac_entry_kind(p_val->p_entry) != METAC_KND_member) { /* simple case - just copy from addr */
        memcpy(p_var,""","""    int err = metac_entry_check_base_type(p_final_entry, type_name, encoding, var_size);
    if (err != 0 && encoding != METAC_ENC_boolean) {
            return err;
    }

    if (metac_entry_kind(p_val->p_entry) != METAC_KND_member) { /* simple case - just copy from addr */
        memcpy(p_var,""")]),
 ("buf",[(A,"_base_type_paremeter_(char, int, char);","_base_type_paremeter_(char, int, char);\n#define X"),(A,"memcpy(addr, &val, sizeof(val)); \\\n                        } \\\n                    } \\\n                } while(0)\n                // handle","memcpy(addr, &val, 8); \\\n                        } \\\n                    } \\\n                } while(0)\n                // handle")]),
 ("ptr-size",[(A,"metac_parameter_storage_append_by_buffer(p_subprog_load, p_param_entry, sizeof(void *))","metac_parameter_storage_append_by_buffer(p_subprog_load, p_param_entry, sizeof(int))")]),
 ("strlen",[(P,"metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, len+1)","metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, len)")]),
]
REF=[
 ("switch",[(V,"""    if (enum_byte_size == sizeof(char)) {
        *(char*)p_addr = (char)var;
    } else if (enum_byte_size == sizeof(short)){
        *(short*)p_addr = (short)var;
    } else if (enum_byte_size == sizeof(int)){
        *(int*)p_addr = (int)var;
    } else if (enum_byte_size == sizeof(long)){
        *(long*)p_addr = (long)var;
    } else if (enum_byte_size == sizeof(long long)){
        *(long long*)p_addr = (long long)var;
    } else {
        return -(ENOTSUP);
    }""","""    switch (enum_byte_size) {
    case sizeof(char): *(char*)p_addr = (char)var; break;
    case sizeof(short): *(short*)p_addr = (short)var; break;
    case sizeof(int): *(int*)p_addr = (int)var; break;
    case sizeof(long): *(long*)p_addr = (long)var; break;
    default: return -(ENOTSUP);
    }""")]),
 ("merge",[(V,"""    if (metac_entry_kind(p_val->p_entry) != METAC_KND_member) { /* simple case - just copy from addr */
        memcpy(p_val->addr, p_var, var_size);
        return 0;
    }
    
    struct""","""    const int is_member = metac_entry_kind(p_val->p_entry) == METAC_KND_member;
    if (!is_member) {
        memcpy(p_val->addr, p_var, var_size);
        return 0;
    }
    
    struct""")]),
 ("constfn",[(V,"""    if (quals.flag_const != 0) {
        return -(EPERM);
    }
""","""    int err = quals.flag_const ? -(EPERM) : 0;
    if (err == 0) {
        err = metac_entry_check_base_type(p_final_entry, type_name, encoding, var_size);
    }
    if (err != 0) {
        return err;
    }
"""),(V,"""
    int err = metac_entry_check_base_type(p_final_entry, type_name, encoding, var_size);
    if (err != 0) {
            return err;
    }

    if (metac_entry_kind(p_val->p_entry) != METAC_KND_member) { /* simple case - just copy from addr */
        memcpy(p_val->addr""","""
    if (metac_entry_kind(p_val->p_entry) != METAC_KND_member) { /* simple case - just copy from addr */
        memcpy(p_val->addr""")]),
]
