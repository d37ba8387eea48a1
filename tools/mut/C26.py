V="src/value.c"; E="src/entry.c"; B="src/value_base_type.c"
RD_OLD=open("/repo/src/value.c").read()
def between(a,b):
    i=RD_OLD.index(a); return RD_OLD[i:RD_OLD.index(b,i)]
READ=between("#define _read_(_type_) \\","#undef _read_\n\n    return 0;\n}\n\nstatic int _entry_bitfield_write")
WRITE=between("#define _write_(_type_) \\","#undef _write_")
MUT=[
 ("read-mask",[(V,"data = (data >> bit_offset) & _bit_mask_(_type_, bit_size); \\","data = (data >> bit_offset) & ((1 << bit_size) - 1); \\")]),
 ("read-sign-bit",[(V,"(data & ((_type_)1 << (bit_size-1)))","(data & ((_type_)1 << (bit_size)))")]),
 ("read-sign-fill",[(V,"data |= (_type_)~_bit_mask_(_type_, bit_size); \\","data = ((-1) << ((bit_size))) ^ data; \\")]),
 ("read-nosign",[(V,"            encoding == METAC_ENC_signed_char || encoding == METAC_ENC_signed);","            encoding == METAC_ENC_signed);")]),
 ("read-base",[(V,"""        void * p_addr = p_val->addr - bitfields_raw_info.byte_offset;
        return _entry_bitfield_read(""","""        void * p_addr = p_val->addr;
        return _entry_bitfield_read(""")]),
 ("write-base",[(V,"""        void * p_addr = p_val->addr - bitfields_raw_info.byte_offset;
        return _entry_bitfield_write(""","""        void * p_addr = p_val->addr;
        return _entry_bitfield_write(""")]),
 ("read-bytes",[(V,"memcpy(buf, base_addr, (bit_offset + bit_size - 1)/8 + 1);\n        base_addr = buf;","memcpy(buf, base_addr, (bit_size - 1)/8 + 1);\n        base_addr = buf;")]),
 ("read-over",[(V,"memcpy(buf, base_addr, (bit_offset + bit_size - 1)/8 + 1);\n        base_addr = buf;","memcpy(buf, base_addr, (bit_offset + bit_size)/8 + 1);\n        base_addr = buf;")]),
 ("write-back",[(V,"memcpy(base_addr_orig, buf, (bit_offset + bit_size-1)/8 +1);","memcpy(base_addr_orig, buf, var_size);")]),
 ("write-back-short",[(V,"memcpy(base_addr_orig, buf, (bit_offset + bit_size-1)/8 +1);","memcpy(base_addr_orig, buf, (bit_size-1)/8 +1);")]),
 ("write-nomask",[(V,"((*(_type_*)p_var) & mask) << bit_offset","((*(_type_*)p_var)) << bit_offset")]),
 ("write-keep",[(V,"& ~(mask << bit_offset)) | data","& ~mask) | data")]),
 ("write-or",[(V,"(*((_type_*)base_addr) & ~(mask << bit_offset)) | data","*((_type_*)base_addr) | data")]),
 ("width-short",[(V,"        _read_(unsigned short);","        _read_(unsigned char);")]),
 ("width-write",[(V,"        _write_(unsigned int);","        _write_(unsigned short);")]),
 ("bool-unsupported",[(V,"    if (encoding != METAC_ENC_boolean &&\n        encoding != METAC_ENC_unsigned_char &&","    if (encoding != METAC_ENC_unsigned_char &&")]),
 ("dwarf3",[(E,"(p_memb_entry->member_info.byte_offset + _byte_size) * 8 - (_bit_offset + (*p_bit_size))","(p_memb_entry->member_info.byte_offset + _byte_size) * 8 - _bit_offset")]),
 ("dwarf4",[(E,"        metac_offset_t _data_bit_offset = *p_memb_entry->member_info.p_data_bit_offset;","        metac_offset_t _data_bit_offset = *p_memb_entry->member_info.p_data_bit_offset + 8 * p_memb_entry->member_info.byte_offset;")]),
 ("plain-size",[(V,"        bitfields_raw_info.p_data_bit_offset == NULL) { /* 2nd simple case */\n        memcpy(p_var, p_val->addr, var_size);","        bitfields_raw_info.p_data_bit_offset == NULL) { /* 2nd simple case */\n        memcpy(p_var, p_val->addr, sizeof(int));")]),
 ("plain-and",[(V,"        bitfields_raw_info.p_bit_size == NULL &&\n        bitfields_raw_info.p_data_bit_offset == NULL) { /* 2nd simple case */\n        memcpy(p_var","        bitfields_raw_info.p_data_bit_offset == NULL) { /* 2nd simple case */\n        memcpy(p_var")]),
 ("enum-sign",[(V,"p_info->const_value < 0","p_info->const_value > 0")]),
 ("enum-nobf",[(V,"    if (metac_entry_kind(p_val->p_entry) != METAC_KND_member) {\n        return 0;\n    }\n    struct","    if (metac_entry_kind(p_val->p_entry) == METAC_KND_member) {\n        return 0;\n    }\n    struct")]),
 ("enum-width",[(V,"*(short*)p_addr = (short)var;","*(char*)p_addr = (char)var;")]),
 ("num-cast",[(B,"                *p_var = (metac_num_t)v; \\","                *p_var = (unsigned char)v; \\")]),
 ("num-order",[(B,"    _read_(unsigned char, uchar);","    _read_(char, uchar);")]),
 ("char-pair",[(B,"metac_value_set_base_type(p_val, \"char\", METAC_ENC_unsigned_char, &var, sizeof(var)) == 0)?0:-(EFAULT);","metac_value_set_base_type(p_val, \"char\", METAC_ENC_signed_char, &var, sizeof(var)) == 0)?0:-(EFAULT);")]),
]
REF=[
 ("sign by shifts",[(V,READ,"""#define _read_(_type_, _stype_) \\
    do{ \\
        unsigned int up = 8 * sizeof(_type_) - bit_size; \\
        _type_ data = (_type_)((*((_type_*)base_addr) >> bit_offset) << up); \\
        if (correct_sign) { \\
            *((_type_*)p_var) = (_type_)((_stype_)data >> up); \\
        } else { \\
            *((_type_*)p_var) = data >> up; \\
        } \\
    } while(0)

    switch (var_size) {
    case sizeof(unsigned char): _read_(unsigned char, signed char); break;
    case sizeof(unsigned short): _read_(unsigned short, short); break;
    case sizeof(unsigned int): _read_(unsigned int, int); break;
    case sizeof(unsigned long long): _read_(unsigned long long, long long); break;
    default: return -(EINVAL);
    }
""")]),
 ("sign by xor",[(V,"""        if ((correct_sign) && (data & ((_type_)1 << (bit_size-1)))) { \\
            data |= (_type_)~_bit_mask_(_type_, bit_size); \\
        } \\
""","""        if (correct_sign) { \\
            _type_ top = (_type_)1 << (bit_size-1); \\
            data = (_type_)((data ^ top) - top); \\
        } \\
""")]),
 ("bytewise read",[(V,READ,"""#define _read_(_type_) 
    if (var_size != sizeof(unsigned char) && var_size != sizeof(unsigned short) && var_size != sizeof(unsigned int) && var_size != sizeof(unsigned long long)) {
        return -(EINVAL);
    }
    {
        unsigned long long data = 0;
        unsigned char const * p_byte = base_addr;
        for (unsigned int i = 0; i < (bit_offset + bit_size - 1)/8 + 1; ++i) {
            data |= (unsigned long long)p_byte[i] << (8 * i);
        }
        data >>= bit_offset;
        if (bit_size < 64) {
            data &= (1ULL << bit_size) - 1;
            if (correct_sign && ((data >> (bit_size - 1)) & 1) != 0) {
                data |= ~0ULL << bit_size;
            }
        }
        memcpy(p_var, &data, var_size);
    }
""")]),
 ("bytewise write",[(V,WRITE,"""#define _write_(_type_)
    if (var_size != 1 && var_size != 2 && var_size != 4 && var_size != 8) {
        return -(EINVAL);
    }
    for (metac_size_t i = 0; i < bit_size; ++i) {
        uint8_t src = (((uint8_t*)p_var)[i / 8] >> (i % 8)) & 1;
        metac_size_t at = bit_offset + i;
        uint8_t *p_byte = (uint8_t*)base_addr + at / 8;
        *p_byte = (uint8_t)((*p_byte & ~(1u << (at % 8))) | (src << (at % 8)));
    }
""")]),
 ("simple case helper",[(V,"""int metac_value_base_type(metac_value_t * p_val,""","""static int _plain(metac_value_t * p_val, struct metac_member_raw_location_info *p_info, metac_flag_t *p_plain) {
    *p_plain = metac_entry_kind(p_val->p_entry) != METAC_KND_member;
    if (*p_plain == 0) {
        if (metac_entry_member_raw_location_info(p_val->p_entry, p_info) != 0) {
            return -(EFAULT);
        }
        *p_plain = !(p_info->p_bit_offset != NULL || p_info->p_bit_size != NULL || p_info->p_data_bit_offset != NULL);
    }
    return 0;
}

int metac_value_base_type(metac_value_t * p_val,"""),(V,"""    if (metac_entry_kind(p_val->p_entry) != METAC_KND_member) { /* simple case - just copy from addr */
        memcpy(p_var, p_val->addr, var_size);
        return 0;
    }

    struct metac_member_raw_location_info bitfields_raw_info;
    if (metac_entry_member_raw_location_info(p_val->p_entry, &bitfields_raw_info) != 0) {
        return -(EFAULT);
    }
    if (bitfields_raw_info.p_bit_offset == NULL && /* member of the struct. addr points to the beginning of the struct */
        bitfields_raw_info.p_bit_size == NULL &&
        bitfields_raw_info.p_data_bit_offset == NULL) { /* 2nd simple case */
        memcpy(p_var, p_val->addr, var_size);
        return 0;
    }
""","""    struct metac_member_raw_location_info bitfields_raw_info;
    metac_flag_t plain = 0;
    if (_plain(p_val, &bitfields_raw_info, &plain) != 0) {
        return -(EFAULT);
    }
    if (plain != 0) {
        memcpy(p_var, p_val->addr, var_size);
        return 0;
    }
""")]),
 ("supported switch",[(V,"""    if (encoding != METAC_ENC_boolean &&
        encoding != METAC_ENC_unsigned_char &&
        encoding != METAC_ENC_unsigned &&
        encoding != METAC_ENC_signed_char &&
        encoding != METAC_ENC_signed) {
        return 0;
    }
    return 1;""","""    switch (encoding) {
    case METAC_ENC_boolean:
    case METAC_ENC_unsigned_char:
    case METAC_ENC_unsigned:
    case METAC_ENC_signed_char:
    case METAC_ENC_signed:
        return 1;
    default:
        return 0;
    }""")]),
 ("byte count variable",[(V,"""        base_addr_orig = base_addr;
        memcpy(buf, base_addr, (bit_offset + bit_size - 1)/8 + 1);""","""        base_addr_orig = base_addr;
        memcpy(buf, base_addr, (bit_offset + bit_size + 7) >> 3);"""),(V,"memcpy(base_addr_orig, buf, (bit_offset + bit_size-1)/8 +1);","metac_size_t n_bytes = (bit_offset + bit_size + 7) >> 3;\n        memcpy(base_addr_orig, buf, n_bytes);")]),
 ("enum sign loop",[(V,"""    for (metac_num_t i = 0; i < count; ++i) {
        struct metac_type_enumerator_info const * p_info = metac_entry_enumeration_info(p_final_entry, i);
        if (p_info != NULL && p_info->const_value < 0) {
            return 1;
        }
    }
    return 0;
}""","""    metac_flag_t res = 0;
    while (res == 0 && count > 0) {
        struct metac_type_enumerator_info const * p_info = metac_entry_enumeration_info(p_final_entry, --count);
        res = (p_info == NULL || p_info->const_value >= 0) ? 0 : 1;
    }
    return res;
}""")]),
 ("enum switch",[(V,"""    if (enum_byte_size == sizeof(char)) {
        *(char*)p_addr = (char)var;
    } else if (enum_byte_size == sizeof(short)){
        *(short*)p_addr = (short)var;
    } else if (enum_byte_size == sizeof(int)){
        *(int*)p_addr = (int)var;
    } else if (enum_byte_size == sizeof(long)){
        *(long*)p_addr = (long)var;
    } else if (enum_byte_size == sizeof(long long)){
        *(long long*)p_addr = (long long)var;
    } else {
        return -(ENOTSUP);
    }""","""    switch (enum_byte_size) {
    case sizeof(char):
    case sizeof(short):
    case sizeof(int):
    case sizeof(long long):
        memcpy(p_addr, &var, enum_byte_size);
        break;
    default:
        return -(ENOTSUP);
    }""")]),
 ("num by switch",[(B,"                *p_var = (metac_num_t)v; \\\n                return 0;\\","                metac_num_t num = (metac_num_t)v; \\\n                *p_var = num; \\\n                return 0;\\")]),
]
