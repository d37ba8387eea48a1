D = "src/value_deep.c"
IN = "        p_current_entry->offset_from_allocate_base = p_current - p_main;\n"
END = "        if (p_main + p_main_entry->byte_size <= p_current) {"
MUT = [
    ("adjacent", [(D, END, "        if (p_main + p_main_entry->byte_size < p_current) {")]),
    ("one byte early", [(D, END, "        if (p_main + p_main_entry->byte_size <= p_current + 1) {")]),
    ("own size", [(D, END, "        if (p_main + p_current_entry->byte_size <= p_current) {")]),
    ("never behind", [(D, END, "        if (p_main + p_main_entry->byte_size == p_current) {")]),
    ("sort down", [(D, "if (key_a < key_b) return -1;", "if (key_a > key_b) return -1;")]),
    ("sort cut", [(D, "    if (key_a < key_b) return -1;\n    if (key_a == key_b) return 0;\n    return 1;", "    return (int)(key_a - key_b);")]),
    ("offset turned", [(D, IN, IN.replace("p_current - p_main", "p_main - p_current"))]),
    ("offset end", [(D, IN, IN.replace("- p_main", "- p_main + p_main_entry->byte_size"))]),
    ("offset of the main", [(D, IN, IN.replace("p_current_entry->", "p_main_entry->"))]),
    ("main moves inside", [(D, IN, IN + "        p_main = p_current;\n        p_main_entry = p_current_entry;\n")]),
    ("entry moves inside", [(D, IN, IN + "        p_main_entry = p_current_entry;\n")]),
    ("zero kept", [(D, "        if (p_current_entry->byte_size <= 0) {", "        if (p_current_entry->byte_size < 0) {")]),
    ("entry not taken", [(D, END + "\n            p_main = p_current;\n            p_main_entry = p_current_entry;", END + "\n            p_main = p_current;")]),
    ("last address", [(D, "for (metac_size_t i = 0; i < context.len; ++i) {", "for (metac_size_t i = 0; i + 1 < context.len; ++i) {")]),
    ("from second", [(D, "for (metac_size_t i = 0; i < context.len; ++i) {", "for (metac_size_t i = 1; i < context.len; ++i) {")]),
    ("unsorted", [(D, "    qsort(context.p_keys, context.len, sizeof(*context.p_keys), _sort_addr_);\n", "    (void)_sort_addr_;\n")]),
    ("sort all but one", [(D, "    qsort(context.p_keys, context.len, sizeof", "    qsort(context.p_keys, context.len - 1, sizeof")]),
    ("weak freed", [(D, "if (p_ptr_entry->offset_from_allocate_base == 0) { /* delete", "if (p_ptr_entry->offset_from_allocate_base >= 0) { /* delete")]),
    ("weak only", [(D, "if (p_ptr_entry->offset_from_allocate_base == 0) { /* delete", "if (p_ptr_entry->offset_from_allocate_base != 0) { /* delete")]),
    ("stop after one", [(D, "            p_context->free_fn(ptr);\n        }\n    }\n    return true;", "            p_context->free_fn(ptr);\n        }\n        return false;\n    }\n    return true;")]),
    ("stop at weak", [(D, "            p_context->free_fn(ptr);\n        }\n    }\n    return true;", "            p_context->free_fn(ptr);\n        }\n        return true;\n    }\n    return false;")]),
    ("smaller wins", [(D, "if (p_member_memory_entry->byte_size > p_prev_member_memory_entry->byte_size)", "if (p_member_memory_entry->byte_size < p_prev_member_memory_entry->byte_size)")]),
    ("never bigger", [(D, "if (p_member_memory_entry->byte_size > p_prev_member_memory_entry->byte_size)", "if (p_member_memory_entry->byte_size > p_prev_member_memory_entry->byte_size * 2)")]),
    ("hash of content", [(D, "return hashmapHash(&key, sizeof(void*));", "return hashmapHash(key, sizeof(void*));")]),
    ("near keys", [(D, "    return keyA == keyB;", "    return ((unsigned long)keyA >> 3) == ((unsigned long)keyB >> 3);")]),
    ("pointer's address", [(D, "void * addr = metac_value_addr(p_member_memory_entry->p_val);", "void * addr = metac_value_addr(p);")]),
    ("parent recorded", [(D, "                        } else {\n                            if (hashmapPut(p_map->p_addr_ptr_val_to_memory_entry, addr, (void*)p_member_memory_entry, NULL)!=0) {", "                        } else {\n                            if (hashmapPut(p_map->p_addr_ptr_val_to_memory_entry, addr, (void*)p_memory_entry, NULL)!=0) {")]),
    ("keys overlap", [(D, "    ++p_context->current;\n    return true;", "    if (p_context->current + 1 < p_context->len) ++p_context->current;\n    return true;")]),
    ("value as key", [(D, "    p_context->p_keys[p_context->current] = key;", "    p_context->p_keys[p_context->current] = value;")]),
]
REF = [
    ("turned comparison", [(D, END, "        if (p_current >= p_main + p_main_entry->byte_size) {")]),
    ("distance", [(D, END, "        if ((metac_size_t)(p_current - p_main) >= p_main_entry->byte_size) {")]),
    ("end kept", [(D, "        if (p_main == NULL) {\n            p_main = p_current;", "        void *p_end = (p_main == NULL)?NULL:p_main + p_main_entry->byte_size;\n        if (p_main == NULL) {\n            p_main = p_current;"), (D, END, "        if (p_end <= p_current) {")]),
    ("one condition", [(D, "        if (p_main == NULL) {\n            p_main = p_current;\n            p_main_entry = p_current_entry;\n            continue;\n        }\n" + END, "        if (p_main == NULL || p_main + p_main_entry->byte_size <= p_current) {")]),
    ("entry asked", [(D, "        if (p_main == NULL) {", "        if (p_main_entry == NULL) {")]),
    ("ternary order", [(D, "    if (key_a < key_b) return -1;\n    if (key_a == key_b) return 0;\n    return 1;", "    return (key_a > key_b) - (key_a < key_b);")]),
    ("ternary order 2", [(D, "    if (key_a < key_b) return -1;\n    if (key_a == key_b) return 0;\n    return 1;", "    return key_a < key_b ? -1 : key_a > key_b ? 1 : 0;")]),
    ("else", [(D, "        if (p_main == NULL) {\n            p_main = p_current;\n            p_main_entry = p_current_entry;\n            continue;\n        }\n" + END + "\n            p_main = p_current;\n            p_main_entry = p_current_entry;\n            continue;\n        }", "        bool inside = p_main != NULL && p_current < p_main + p_main_entry->byte_size;\n        if (!inside) {\n            p_main = p_current;\n            p_main_entry = p_current_entry;\n            continue;\n        }")]),
    ("early answer", [(D, "    if (p_ptr_entry->offset_from_allocate_base == 0) { /* delete non weak only */\n", "    if (p_ptr_entry->offset_from_allocate_base != 0) {\n        return true;\n    }\n    {\n")]),
    ("one put", [(D, "    p_context->p_keys[p_context->current] = key;\n    ++p_context->current;", "    p_context->p_keys[p_context->current++] = key;")]),
    ("while", [(D, "for (metac_size_t i = 0; i < context.len; ++i) {\n        void *p_current = context.p_keys[i];", "metac_size_t i = 0;\n    while (i < context.len) {\n        void *p_current = context.p_keys[i++];")]),
    ("size local", [(D, "        if (p_current_entry->byte_size <= 0) {", "        const metac_size_t sz = p_current_entry->byte_size;\n        if (sz == 0) {")]),
    ("get only", [(D, "if (hashmapContainsKey(p_map->p_addr_ptr_val_to_memory_entry, addr) != 0) {", "if (hashmapGet(p_map->p_addr_ptr_val_to_memory_entry, addr) != NULL) {")]),
]
