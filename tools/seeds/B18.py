PROPERTY="C22"
NEEDS="a key that is present with the value NULL and is then memoized"
BREAKS="hashmapMemoize takes a stored NULL for a missing value and replaces it, although the key is present"
EDITS=[("src/hashmap.c","            if (p_res != NULL) {\n                *p_res = current->value;","            if (current->value == NULL) {\n                current->value = initialValue(key, context);\n            }\n            if (p_res != NULL) {\n                *p_res = current->value;")]
FILES={"demo.sh":"""
. "$(dirname "$0")/lib.sh"
build demo.c
"$OUT/demo"
""","demo.c":r"""
#include <stdio.h>
#include "metac/backend/hashmap.h"
static int made;
static void* mk(void* k, void* c) { (void)k; ++made; return c; }
int main(void) {
    int k = 5, v = 6; void * r = &k;
    Hashmap* m = hashmapCreate(4, hashmapIntHash, hashmapIntEquals);
    if (hashmapPut(m, &k, NULL, NULL) != 0) return 2;
    if (hashmapMemoize(m, &k, mk, &v, &r) != 0) return 2;
    int bad = r != NULL || made != 0 || hashmapGet(m, &k) != NULL || hashmapSize(m) != 1;
    hashmapFree(m);
    return bad;
}
"""}
