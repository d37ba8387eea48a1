T = "src/entry_tag.c"
MUT = [
    ("kind mask swapped", [(T, "mask += METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable);", "mask += METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter);")]),
    ("parameter fallthrough", [(T, """            mask += METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable);
            break;""", """            mask += METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable);""")]),
    ("mask or-ed with final", [(T, "metac_tag_map_entry_category_mask_t mask = 0;\n    switch", "metac_tag_map_entry_category_mask_t mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final);\n    switch")]),
    ("mismatch ends", [(T, """        if ((p_tag_map->p_categories[i].mask & mask) == 0) {
            continue;""", """        if ((p_tag_map->p_categories[i].mask & mask) == 0) {
            break;""")]),
    ("ext answer final", [(T, """            if (p_ext_res != NULL) {
                return p_ext_res;
            }
        }""", """            return p_ext_res;
        }""")]),
    ("ext asked with final entry", [(T, "metac_tag_map_tag(p_tag_map->p_categories[i].p_ext_map, p_entry);", "metac_tag_map_tag(p_tag_map->p_categories[i].p_ext_map, metac_entry_final_entry(p_entry, NULL));")]),
    ("final without the bit", [(T, "if (p_tag_map->p_categories[i].mask & METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final)){", "if (p_tag_map->p_categories[i].mask != 0){")]),
    ("final first", [(T, """        metac_entry_tag_t *p_tag = (metac_entry_tag_t *)hashmapGet(p_tag_map->p_categories[i].p_map, (void*)p_entry);
        if (p_tag != NULL) {
            return p_tag;
        }
""", """        metac_entry_tag_t *p_tag = (metac_entry_tag_t *)hashmapGet(p_tag_map->p_categories[i].p_map, (void*)p_entry);
        if (p_tag != NULL && (p_tag_map->p_categories[i].mask & METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final)) == 0) {
            return p_tag;
        }
""")]),
    ("final miss ends", [(T, """                if (p_tag != NULL) {
                    return p_tag;
                }
            }
        }
    }

    return p_tag_map->p_default_tag;""", """                return p_tag != NULL ? p_tag : p_tag_map->p_default_tag;
            }
        }
    }

    return p_tag_map->p_default_tag;""")]),
    ("default before the rest", [(T, """        if (p_tag_map->p_categories[i].p_map == NULL) {
            continue; /*""", """        if (p_tag_map->p_categories[i].p_map == NULL) {
            break; /*""")]),
    ("first category skipped", [(T, """    for (metac_num_t i = 0; i< p_tag_map->categories_count; ++i) {
        if ((p_tag_map""", """    for (metac_num_t i = (p_tag_map->categories_count > 1); i< p_tag_map->categories_count; ++i) {
        if ((p_tag_map""")]),
    ("last category skipped", [(T, """    for (metac_num_t i = 0; i< p_tag_map->categories_count; ++i) {
        if ((p_tag_map""", """    for (metac_num_t i = 0; i < p_tag_map->categories_count - 1 || i == 0; ++i) {
        if ((p_tag_map""")]),
    ("override ignored", [(T, "    if (override == 0 && hashmapContainsKey(", "    if (override == 2 && hashmapContainsKey(")]),
    ("override inverted", [(T, "    if (override == 0 && hashmapContainsKey(", "    if (override != 0 && hashmapContainsKey(")]),
    ("never replaced", [(T, "    if (override == 0 && hashmapContainsKey(", "    if (hashmapContainsKey(")]),
    ("final op stores under the entry", [(T, """        p_entry = metac_entry_final_entry(p_entry, NULL);
        if (p_entry == NULL) {
            return -(EFAULT);
        }
        int res""", """        if (metac_entry_final_entry(p_entry, NULL) == NULL) {
            return -(EFAULT);
        }
        int res""")]),
    ("first category always", [(T, "if (hashmapPut(p_tag_map->p_categories[category].p_map, (void*)p_entry", "if (hashmapPut(p_tag_map->p_categories[0].p_map, (void*)p_entry")]),
    ("handler not copied", [(T, "    memcpy(p_local_tag, p_tag, sizeof(*p_local_tag));", "    memcpy(p_local_tag, p_tag, sizeof(*p_local_tag) - sizeof(p_tag->context_free_handler));")]),
    ("string shared", [(T, "        p_local_tag->p_tagstring = strdup(p_tag->p_tagstring);", "        p_local_tag->p_tagstring = p_tag->p_tagstring;")]),
    ("creator mask", [(T, """        METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter) | 
""", "")]),
    ("creator default dropped", [(T, "{{.mask = mask, .p_ext_map = NULL}}, p_default_tag);", "{{.mask = mask, .p_ext_map = NULL}}, NULL);")]),
    ("creator first ext", [(T, "p_tag_map->p_categories[i].p_ext_map = p_map_entries[i].p_ext_map;", "p_tag_map->p_categories[i].p_ext_map = p_map_entries[0].p_ext_map;")]),
    ("creator mask of first", [(T, "p_tag_map->p_categories[i].mask = p_map_entries[i].mask;", "p_tag_map->p_categories[i].mask = p_map_entries[0].mask;")]),
    ("put after failure", [(T, """    if (p_prev_tag != NULL) {
        assert(override != 0);
        _entry_tag_delete(p_prev_tag);
    }

    return 0;""", """    if (p_prev_tag != NULL) {
        assert(override != 0);
        _entry_tag_delete(p_prev_tag);
        return -(EALREADY);
    }

    return 0;""")]),
]
REF = [
    ("mask helper", [(T, """metac_entry_tag_t * metac_tag_map_tag(metac_tag_map_t * p_tag_map""", """static metac_tag_map_entry_category_mask_t kind_mask(metac_kind_t kind) {
    if (kind == METAC_KND_member) return METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member);
    if (kind == METAC_KND_variable) return METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable);
    if (kind == METAC_KND_func_parameter) return METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter);
    return 0;
}

metac_entry_tag_t * metac_tag_map_tag(metac_tag_map_t * p_tag_map"""), (T, """    metac_tag_map_entry_category_mask_t mask = 0;
    switch (metac_entry_kind(p_entry)) {
        case METAC_KND_member:
            mask += METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member);
            break;
        case METAC_KND_variable:
            mask += METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable);
            break;
        case METAC_KND_func_parameter:
            mask += METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter);
            break;
    }
""", "    metac_tag_map_entry_category_mask_t mask = kind_mask(metac_entry_kind(p_entry));\n")]),
    ("category pointer", [(T, """        if ((p_tag_map->p_categories[i].mask & mask) == 0) {
            continue;
        }
        if (p_tag_map->p_categories[i].p_ext_map != NULL) {
            metac_entry_tag_t * p_ext_res = metac_tag_map_tag(p_tag_map->p_categories[i].p_ext_map, p_entry);
            if (p_ext_res != NULL) {
                return p_ext_res;
            }
        }
        if (p_tag_map->p_categories[i].p_map == NULL) {""", """        struct metac_tag_map_entry * p_cat = &p_tag_map->p_categories[i];
        if (!(p_cat->mask & mask)) {
            continue;
        }
        if (p_cat->p_ext_map != NULL) {
            metac_entry_tag_t * p_ext_res = metac_tag_map_tag(p_cat->p_ext_map, p_entry);
            if (p_ext_res != NULL) {
                return p_ext_res;
            }
            continue;
        }
        if (p_cat->p_map == NULL) {""")]),
    ("final up front", [(T, "metac_entry_t* p_final_entry = NULL;//metac_entry_final_entry(p_entry, NULL);", "metac_entry_t* p_final_entry = metac_entry_final_entry(p_entry, NULL);"),
                        (T, """            if (p_final_entry == NULL) {
                p_final_entry = metac_entry_final_entry(p_entry, NULL);
            }
            if (p_final_entry != NULL) {""", "            if (p_final_entry != NULL) {")]),
    ("while loop", [(T, """    for (metac_num_t i = 0; i< p_tag_map->categories_count; ++i) {
        if ((p_tag_map->p_categories[i].mask & mask) == 0) {
            continue;
        }
        if (p_tag_map->p_categories[i].p_ext_map""", """    metac_num_t k = 0;
    while (k < p_tag_map->categories_count) {
        metac_num_t i = k++;
        if ((p_tag_map->p_categories[i].mask & mask) == 0) {
            continue;
        }
        if (p_tag_map->p_categories[i].p_ext_map""")]),
    ("category lookup helper", [(T, """metac_entry_tag_t * metac_tag_map_tag(metac_tag_map_t * p_tag_map""", """static metac_entry_tag_t * category_get(struct metac_tag_map_entry * p_cat, metac_entry_t * p_key) {
    return p_key == NULL ? NULL : (metac_entry_tag_t *)hashmapGet(p_cat->p_map, (void*)p_key);
}

metac_entry_tag_t * metac_tag_map_tag(metac_tag_map_t * p_tag_map"""), (T, """            if (p_final_entry != NULL) {
                p_tag = (metac_entry_tag_t *)hashmapGet(p_tag_map->p_categories[i].p_map, (void*)p_final_entry);
                if (p_tag != NULL) {
                    return p_tag;
                }
            }""", """            p_tag = category_get(&p_tag_map->p_categories[i], p_final_entry);
            if (p_tag != NULL) {
                return p_tag;
            }""")]),
    ("setter switch", [(T, """    if (op == METAC_TEO_entry) {
        int res = _tag_map_set_tag(p_tag_map, category, override, p_entry, p_tag);
        if (res != 0) {
            return res;
        }
    }

    if (op == METAC_TEO_final_entry) {
        p_entry = metac_entry_final_entry(p_entry, NULL);
        if (p_entry == NULL) {
            return -(EFAULT);
        }
        int res = _tag_map_set_tag(p_tag_map, category, override, p_entry, p_tag);
        if (res != 0) {
            return res;
        }
    }
    return 0;""", """    switch (op) {
        case METAC_TEO_entry:
            return _tag_map_set_tag(p_tag_map, category, override, p_entry, p_tag);
        case METAC_TEO_final_entry: {
            metac_entry_t * p_final = metac_entry_final_entry(p_entry, NULL);
            return (p_final == NULL)?-(EFAULT):_tag_map_set_tag(p_tag_map, category, override, p_final, p_tag);
        }
    }
    return 0;""")]),
    ("copy by assignment", [(T, "    memcpy(p_local_tag, p_tag, sizeof(*p_local_tag));", "    *p_local_tag = *p_tag;")]),
    ("copy by fields", [(T, "    memcpy(p_local_tag, p_tag, sizeof(*p_local_tag));", "    p_local_tag->p_context = p_tag->p_context;\n    p_local_tag->handler = p_tag->handler;\n    p_local_tag->context_free_handler = p_tag->context_free_handler;")]),
    ("get instead of contains", [(T, "hashmapContainsKey(p_tag_map->p_categories[category].p_map, (void*)p_entry)", "hashmapGet(p_tag_map->p_categories[category].p_map, (void*)p_entry) != NULL")]),
]
