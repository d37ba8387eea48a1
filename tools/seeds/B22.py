PROPERTY="C26"
NEEDS="a negative value in a bit-field of type signed char"
BREAKS="bit-fields of type char are read without their sign"
EDITS=[("src/value.c","            encoding == METAC_ENC_signed_char || encoding == METAC_ENC_signed);","            encoding == METAC_ENC_signed);")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
static metac_offset_t off = 2; static metac_size_t sz = 3;
int main(void) {
    unsigned char mem = 0xff;
    metac_entry_t m = {.kind=METAC_KND_member,.name="b",.member_info={.type=&e_char,.p_data_bit_offset=&off,.p_bit_size=&sz}};
    metac_value_t *v = metac_new_value(&m, &mem);
    char r = 0;
    int ok = metac_value_char(v, &r) == 0 && r == -1;
    mem = 0x0c;
    ok = ok && metac_value_char(v, &r) == 0 && r == 3;
    metac_value_delete(v);
    return !ok;
}
"""}
