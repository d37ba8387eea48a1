PROPERTY="C29"
NEEDS="an array of pointers whose last element is NULL (a NULL-terminated list) printed in full"
BREAKS="the text of an array leaves out a last NULL element: an array of three pointers prints as an array of two"
EDITS=[("src/value_string.c","""                        if (el_out == NULL) {
                            failure = 1;
                            break;
                        }

                        char *prev_out = out;
                        out = dsprintf("%s%s%s,",""","""                        if (el_out == NULL) {
                            failure = 1;
                            break;
                        }
                        if (strcmp(el_out, "NULL") == 0 && out != NULL &&
                            metac_recursive_iterator_dep_queue_is_empty(p_iter) != 0) { /* the end mark of a list */
                            free(el_out);
                            break;
                        }

                        char *prev_out = out;
                        out = dsprintf("%s%s%s,",""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
#include "metac/reflect/value.h"
static metac_entry_t INT = {.kind = METAC_KND_base_type, .name = "int", .base_type_info = {.byte_size = 4, .encoding = METAC_ENC_signed}};
static metac_entry_t PTR = {.kind = METAC_KND_pointer_type, .pointer_type_info = {.byte_size = sizeof(void*), .type = &INT}};
static metac_entry_t ARR = {.kind = METAC_KND_array_type, .array_type_info = {.type = &PTR, .lower_bound = 0, .count = 3}};
int main(void) {
    int a = 7, b = 8;
    int *l1[3] = {&a, NULL, &b}, *l2[3] = {&a, &b, NULL};
    metac_value_t *v = metac_new_value(&ARR, l1), *w = metac_new_value(&ARR, l2);
    char *s = metac_value_string_ex(v, METAC_WMODE_deep, NULL), *t = metac_value_string_ex(w, METAC_WMODE_deep, NULL);
    if (s == NULL || t == NULL) return 3;
    if (strcmp(s, "{(int []){7,}, NULL, (int []){8,},}") != 0) { puts(s); return 2; }
    if (strcmp(t, "{(int []){7,}, (int []){8,}, NULL,}") != 0) { puts(t); return 1; }
    return 0;
}
"""}
