E, V, T, C = "src/entry.c", "src/value.c", "src/entry_tag.c", "src/entry_cdecl.c"
MUT = [
    ("cache count", [(E, "            multipier *= p_entry->array_type_info.count;", "            multipier *= p_entry->array_type_info.count;\n            p_entry->array_type_info.lower_bound = 0;")]),
    ("new entry in place", [(E, "    metac_entry_t * p_entry = calloc(1, sizeof(*p_entry));\n    _check_(p_entry == NULL, NULL);\n\n    _init_entry(p_entry, p_entry_from);\n", "    if (p_entry_from->dynamically_allocated != 0 && p_entry_from->parents_count > 0) {\n        p_entry_from->parents_count = 0;\n        return p_entry_from;\n    }\n    metac_entry_t * p_entry = calloc(1, sizeof(*p_entry));\n    _check_(p_entry == NULL, NULL);\n\n    _init_entry(p_entry, p_entry_from);\n")]),
    ("delete unguarded", [(E, "    if (metac_entry_is_dynamic(p_entry) == 0) {\n        return;\n    }\n    // if needed", "    if (p_entry == NULL) {\n        return;\n    }\n    // if needed")]),
    ("inverted init", [(E, "    memcpy(p_entry, p_entry_from, sizeof(*p_entry));\n    return p_entry;", "    memcpy(p_entry_from, p_entry, 0);\n    memcpy(p_entry, p_entry_from, sizeof(*p_entry));\n    return p_entry;")]),
    ("via value", [(V, "    _check_(p_final_entry == NULL, -(EINVAL));\n    _check_(p_val->addr == NULL, -(EINVAL));\n\n    *((void**)p_val->addr) = addr;", "    _check_(p_final_entry == NULL, -(EINVAL));\n    _check_(p_val->addr == NULL, -(EINVAL));\n    if (addr == NULL && p_val->p_entry->declaration) p_val->p_entry->declaration = 0;\n    *((void**)p_val->addr) = addr;")]),
]
REF = [
    ("direct flag", [(E, "    if (metac_entry_is_dynamic(p_entry) == 0) {\n        return;\n    }\n    // if needed", "    if (p_entry == NULL || !p_entry->dynamically_allocated) {\n        return;\n    }\n    // if needed")]),
    ("positive guard", [(E, "    if (metac_entry_is_dynamic(p_entry) == 0) {\n        return;\n    }\n    // if needed we can make this recursivly with subtypes.. now it's not needed yet\n    free(p_entry);", "    if (metac_entry_is_dynamic(p_entry) != 0) {\n        free(p_entry);\n    }")]),
    ("assign", [(E, "    memcpy(p_entry, p_entry_from, sizeof(*p_entry));\n    return p_entry;", "    *p_entry = *p_entry_from;\n    return p_entry;")]),
    ("mark in helper", [(E, "    _init_entry(p_entry, p_entry_from);\n    p_entry->dynamically_allocated = 1;\n    return p_entry;", "    if (_init_entry(p_entry, p_entry_from) != NULL) {\n        p_entry->dynamically_allocated = 1;\n    }\n    return p_entry;")]),
    ("malloc", [(E, "    metac_entry_t * p_entry = calloc(1, sizeof(*p_entry));", "    metac_entry_t * p_entry = malloc(sizeof(*p_entry));")]),
]
