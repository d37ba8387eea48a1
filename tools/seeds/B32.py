PROPERTY="C16"
NEEDS="a tag string with a value that ends in an escaped backslash"
BREAKS="after \\\\ the scanner still takes the next character as escaped: the closing quote is swallowed, the value and the pairs after it are not found"
EDITS=[("src/entry_tag.c","""            case 4: /* accept any characted, because it's after \\*/
                state = 3;
                continue;""","""            case 4: /* accept any characted, because it's after \\*/
                if (p_tag->p_tagstring[i] != '\\\\') {
                    state = 3;
                }
                continue;""")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include "md.h"
static int is(const char *tag, const char *key, const char *want) {
    metac_entry_tag_t t = {.p_tagstring = (char*)tag};
    metac_name_t s = metac_entry_tag_string_lookup(&t, (char*)key);
    int ok = want == NULL ? s == NULL : s != NULL && strcmp(s, want) == 0;
    if (!ok) printf("%s in %s: %s\n", key, tag, s ? s : "(none)");
    free(s);
    return ok;
}
int main(void) {
    int ok = is("json:\"name\" yaml:\"n\"", "yaml", "n");
    ok &= is("json:\"a\\\"b\" yaml:\"n\"", "json", "a\\\"b");
    ok &= is("path:\"c:\\\\\" yaml:\"n\"", "path", "c:\\\\");
    ok &= is("path:\"c:\\\\\" yaml:\"n\"", "yaml", "n");
    return ok ? 0 : 1;
}
"""}
