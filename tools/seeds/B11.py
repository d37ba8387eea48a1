PROPERTY="C19"
NEEDS="a wrapped call passes an enumeration that is 8 bytes wide with a value beyond 32 bits"
BREAKS="the enumeration argument is fetched as int: the captured value is truncated"
EDITS=[("src/value_with_args.c","""                _enum_paremeter_(long, long);
                _enum_paremeter_(long long, long long);""","""                _enum_paremeter_(long, int);
                _enum_paremeter_(long long, int);""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
static struct metac_type_enumerator_info bi[] = {{"lo",1},{"hi",0x500000003LL}};
static metac_entry_t e_big = {.kind=METAC_KND_enumeration_type,.name="big",.enumeration_type_info={.type=&e_ulong,.byte_size=8,.encoding=METAC_ENC_unsigned,.enumerators_count=2,.enumerators=bi}};
static metac_entry_t pb[] = {{.kind=METAC_KND_func_parameter,.name="a",.func_parameter_info={.type=&e_big}},{.kind=METAC_KND_func_parameter,.name="b",.func_parameter_info={.type=&e_int}}};
static metac_entry_t e_f = {.kind=METAC_KND_subprogram,.name="f",.subprogram_info={.type=&e_int,.parameters_count=2,.parameters=pb}};
int main(void) {
    metac_parameter_storage_t *s = metac_new_parameter_storage();
    metac_value_t *v = metac_value_parameter_wrap(metac_new_value(&e_f, s), NULL, 0x500000003LL, 42);
    if (v == NULL) return 1;
    metac_value_t *a = metac_parameter_storage_new_param_value(s, 0), *b = metac_parameter_storage_new_param_value(s, 1);
    long long got = 0; int n = 0;
    memcpy(&got, metac_value_addr(a), sizeof(got));
    memcpy(&n, metac_value_addr(b), sizeof(n));
    printf("%llx %d\n", got, n);
    metac_value_delete(a); metac_value_delete(b); metac_value_delete(v); metac_parameter_storage_delete(s);
    return !(got == 0x500000003LL && n == 42);
}
"""}
