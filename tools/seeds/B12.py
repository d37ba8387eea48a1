PROPERTY="C14"
NEEDS="an allocation fails in the middle of capturing a nested variable argument list"
BREAKS="metac_parameter_storage_copy reports success for a truncated copy of the parameters"
EDITS=[("src/value_with_args.c","""            if (metac_parameter_storage_append_by_parameter_storage(p_dst_param_storage,
                p_param->p_entry) != 0) {
                return -(EFAULT);
            }""","""            if (metac_parameter_storage_append_by_parameter_storage(p_dst_param_storage,
                p_param->p_entry) != 0) {
                break;
            }""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build_fi demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
#include "fi.h"
static metac_entry_t e_va = {.kind=METAC_KND_func_parameter,.name="rest",.func_parameter_info={.unspecified_parameters=1}};
int main(void) {
    metac_parameter_storage_t *s = metac_new_parameter_storage();
    if (metac_parameter_storage_append_by_buffer(s, &e_int, sizeof(int)) != 0) return 2;
    if (metac_parameter_storage_append_by_parameter_storage(s, &e_va) != 0) return 2;
    int bad = 0;
    for (int k = 1; k < 12; ++k) {
        metac_parameter_storage_t *d = metac_new_parameter_storage();
        fi_fail(k);
        int rc = metac_parameter_storage_copy(s, d);
        fi_fail(0);
        if (rc == 0 && metac_parameter_storage_size(d) != metac_parameter_storage_size(s)) { printf("success with %d of %d at %d\n", (int)metac_parameter_storage_size(d), (int)metac_parameter_storage_size(s), k); bad = 1; }
        metac_parameter_storage_delete(d);
    }
    metac_parameter_storage_delete(s);
    return bad;
}
"""}
