D="src/entry_db.c"
MUT=[
 ("cmp-field",[(D,"strcmp(p_a->name, p_b->name)","strncmp(p_a->name, p_b->name, 64)")]),
 ("cmp-rev",[(D,"strcmp(p_a->loc_name, p_b->loc_name)","strcmp(p_b->loc_name, p_a->loc_name)")]),
 ("cmp-case",[(D,"strcmp(p_a->file, p_b->file)","strcasecmp(p_a->file, p_b->file)")]),
 ("cmp-eq",[(D,"return strcmp(p_a->name, p_b->name);","return strcmp(p_a->name, p_b->name) != 0;")]),
 ("cmp-len",[(D,"return strcmp(p_a->name, p_b->name);","return (int)strlen(p_a->name) - (int)strlen(p_b->name);")]),
 ("count-1",[(D,"        p_l->per_name_item_count,","        p_l->per_name_item_count - 1,")]),
 ("count-other",[(D,"        p_f->per_loc_item_count,","        p_entry_db->per_file_item_count,")]),
 ("count0",[(D,"if (p_n->entry_count == 1)","if (p_n->entry_count >= 1)")]),
 ("count-le",[(D,"if (p_n->entry_count == 1)","if (p_n->entry_count <= 1)")]),
 ("last",[(D,"return p_n->pp_entries[0];","return p_n->pp_entries[1];")]),
 ("key-file",[(D,".file = p_decl_loc->file,","  .file = p_decl_loc->name,")]),
 ("key-name",[(D,".name = p_name,",".name = p_decl_loc->name,")]),
 ("first-table",[(D,"        p_f->per_loc_items,","        p_entry_db->per_file_items->per_loc_items,")]),
 ("never",[(D,"if (p_n->entry_count == 1)","if (p_n->entry_count == 1 && p_n->pp_entries[0]->name != NULL && strcmp(p_n->pp_entries[0]->name, p_name) == 0 && 0)")]),
 ("skip-single",[(D,"    if (p_n->entry_count == 1)","    if (p_l->per_name_item_count == 1) return NULL;\n    if (p_n->entry_count == 1)")]),
 ("fallback",[(D,"    if (p_f == NULL)\n        return NULL;","    if (p_f == NULL && p_entry_db->per_file_item_count > 0)\n        p_f = p_entry_db->per_file_items;\n    if (p_f == NULL)\n        return NULL;")]),
 ("fallback2",[(D,"    // can't distinguish - give up\n    return NULL;","    return p_n->entry_count > 1 ? p_n->pp_entries[p_n->entry_count - 1] : NULL;")]),
]
REF=[
 ("cast-free",[(D,"    struct metac_per_name_item *p_a = (struct metac_per_name_item *)a;\n    struct metac_per_name_item *p_b = (struct metac_per_name_item *)b;\n    return strcmp(p_a->name, p_b->name);","    const struct metac_per_name_item *l = a, *r = b;\n    int res = strcmp(l->name, r->name);\n    return res;")]),
 ("helper",[(D,"metac_entry_t * metac_entry_from_entry_db(","static struct metac_per_file_item * find_file(struct metac_entry_db * p_entry_db, struct metac_decl_loc * p_decl_loc) {\n    struct metac_per_file_item f_key = {.file = p_decl_loc->file,};\n    return bsearch(&f_key, p_entry_db->per_file_items, p_entry_db->per_file_item_count, sizeof(f_key), compare_per_file_item);\n}\nmetac_entry_t * metac_entry_from_entry_db("),
  (D,"    struct metac_per_file_item f_key = {.file = p_decl_loc->file,};\n    struct metac_per_file_item *p_f = bsearch(&f_key, \n        p_entry_db->per_file_items,\n        p_entry_db->per_file_item_count,\n        sizeof(struct metac_per_file_item),\n        compare_per_file_item);","    struct metac_per_file_item *p_f = find_file(p_entry_db, p_decl_loc);")]),
 ("neg",[(D,"    if (p_n->entry_count == 1) {\n        return p_n->pp_entries[0];\n    }\n    // can't distinguish - give up\n    return NULL;","    if (p_n->entry_count != 1) {\n        return NULL;\n    }\n    metac_entry_t ** pp = p_n->pp_entries;\n    return *pp;")]),
 ("cond",[(D,"    if (p_n == NULL) {\n        return NULL;\n    }\n\n    if (p_n->entry_count == 1) {\n        return p_n->pp_entries[0];\n    }\n    // can't distinguish - give up\n    return NULL;","    return (p_n != NULL && p_n->entry_count == 1) ? p_n->pp_entries[0] : NULL;")]),
 ("guards",[(D,"    if (p_entry_db == NULL ||\n        p_decl_loc == NULL ||\n        p_decl_loc->name == NULL ||\n        p_name == NULL) {\n        return NULL;\n    }","    if (p_entry_db == NULL || p_decl_loc == NULL) {\n        return NULL;\n    }\n    if (p_decl_loc->name == NULL) return NULL;\n    if (p_name == NULL || p_decl_loc->file == NULL) return NULL;")]),
 ("keys-first",[(D,"    struct metac_per_file_item f_key = {.file = p_decl_loc->file,};","    struct metac_per_name_item n_key;\n    memset(&n_key, 0, sizeof(n_key));\n    n_key.name = p_name;\n    struct metac_per_file_item f_key = {.file = p_decl_loc->file,};"),(D,"    struct metac_per_name_item n_key = {.name = p_name,};\n","")]),
 ("own-bsearch",[(D,"metac_entry_t * metac_entry_from_entry_db(","static void * find_item(const void * key, const void * base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {\n    const char * b = base;\n    size_t lo = 0, hi = n;\n    while (lo < hi) {\n        size_t mid = lo + (hi - lo) / 2;\n        int c = cmp(key, b + mid * sz);\n        if (c == 0) return (void*)(b + mid * sz);\n        if (c < 0) hi = mid; else lo = mid + 1;\n    }\n    return NULL;\n}\nmetac_entry_t * metac_entry_from_entry_db("),
  (D,"*p_f = bsearch(","*p_f = find_item("),(D,"*p_l = bsearch(","*p_l = find_item("),(D,"*p_n = bsearch(","*p_n = find_item(")]),
 ("unify-cmp",[(D,"static int compare_per_file_item(","static int cmp_str(const char * a, const char * b) { return strcmp(a, b); }\nstatic int compare_per_file_item("),(D,"return strcmp(p_a->file, p_b->file);","return cmp_str(p_a->file, p_b->file);")]),
]
