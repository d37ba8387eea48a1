PROPERTY="C23"
NEEDS="an allocation that fails while a parameter is appended, and a caller that goes on using the storage"
BREAKS="the number of parameters is raised before the parameter exists, so a failed append leaves a storage that claims one parameter more than it has"
EDITS=[("src/value_with_args.c","    metac_parameter_t * p_param = calloc(1, sizeof(*p_param));\n    _check_(p_param == NULL, NULL);\n\n    metac_entry_t *p_entry_copy","    ++p_param_storage->list_size;\n    metac_parameter_t * p_param = calloc(1, sizeof(*p_param));\n    _check_(p_param == NULL, NULL);\n\n    metac_entry_t *p_entry_copy"),
 ("src/value_with_args.c","    ++p_param_storage->list_size;\n    p_param_storage->p_last_added_param = p_param;","    p_param_storage->p_last_added_param = p_param;")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build_fi demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
#include "fi.h"
int main(void) {
    int bad = 0;
    for (int n = 1; n < 6; ++n) {
        metac_parameter_storage_t * s = metac_new_parameter_storage();
        if (metac_parameter_storage_append_by_buffer(s, &e_int, sizeof(int)) != 0) return 2;
        fi_fail(n);
        int rc = metac_parameter_storage_append_by_buffer(s, &e_int, sizeof(int));
        fi_fail(0);
        metac_num_t want = rc == 0 ? 2 : 1;
        bad |= metac_parameter_storage_size(s) != want;
        metac_parameter_storage_delete(s);
    }
    return bad;
}
"""}
