PROPERTY="C26"
NEEDS="a bit-field that crosses a byte border (its bit offset plus its width need one byte more than the width alone)"
BREAKS="writing such a field brings back too few bytes: the part of the value behind the byte border is lost"
EDITS=[("src/value.c","memcpy(base_addr_orig, buf, (bit_offset + bit_size-1)/8 +1);","memcpy(base_addr_orig, buf, (bit_size + 7)/8);")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
/* struct { unsigned a:5; unsigned b:7; unsigned c:20; } */
static metac_offset_t off = 5; static metac_size_t sz = 7;
int main(void) {
    unsigned mem = 0xa5a5a5a5u, was = mem;
    metac_entry_t m = {.kind=METAC_KND_member,.name="b",.member_info={.type=&e_uint,.p_data_bit_offset=&off,.p_bit_size=&sz}};
    metac_value_t *v = metac_new_value(&m, &mem);
    unsigned r = 0;
    int ok = metac_value_set_uint(v, 0x5a) == 0 && mem == ((was & ~(0x7fu << 5)) | (0x5au << 5));
    ok = ok && metac_value_uint(v, &r) == 0 && r == 0x5a;
    metac_value_delete(v);
    return !ok;
}
"""}
