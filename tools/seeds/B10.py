PROPERTY="C12"
NEEDS="a description that carries the right name and encoding but another size (long double on a target where it is 8 bytes, long from a 32-bit unit)"
BREAKS="metac_entry_check_base_type no longer compares the size, so a 4-byte 'long int' is read and written as 8 bytes"
EDITS=[("src/entry.c","""            p_entry->base_type_info.byte_size == 0 ||
            p_entry->base_type_info.byte_size == expected_size)) {""","""            p_entry->base_type_info.byte_size <= expected_size)) {""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
BT(e_l32,"long int",4,METAC_ENC_signed);
int main(void) {
    int raw[2] = {5, 6};
    metac_value_t *v = metac_new_value(&e_l32, raw);
    long l = 0;
    int ok = metac_value_is_long(v) == 0 && metac_value_long(v, &l) != 0 && metac_value_set_long(v, 0) != 0 && raw[1] == 6;
    long w = 3;
    metac_value_t *g = metac_new_value(&e_long, &w);
    ok = ok && metac_value_is_long(g) != 0 && metac_value_long(g, &l) == 0 && l == 3;
    metac_value_delete(v); metac_value_delete(g);
    return !ok;
}
"""}
