D="src/value_deep.c"
SH="""p1->byte_size != p2->byte_size ||
                    p1->children_count != p2->children_count ||
                    p1->loop_level != p2->loop_level ||
                    p1->offset_from_allocate_base != p2->offset_from_allocate_base||
                    metac_value_final_kind(p1->p_val, NULL) != metac_value_final_kind(p2->p_val, NULL)) {
                    cmp_res = 0;
                    metac_recursive_iterator_done(p_iter, &cmp_res);"""
EN="""int _cmp = metac_value_equal_enumeration(p1->p_val, p2->p_val);
                    if (_cmp < 0) {
                        metac_recursive_iterator_fail(p_iter);
                        continue;
                    }
                    if (_cmp == 0) {
                        cmp_res = 0;
                    }"""
BT=EN.replace("enumeration","base_type")
PT="""                            int _cmp = metac_value_equal_pointer(p1->p_val, p2->p_val);
                            if (_cmp < 0) {
                                metac_recursive_iterator_fail(p_iter);
                                continue;
                            }
                            if (_cmp == 0) {
                                cmp_res = 0;
                            }
"""
MUT=[
 ("no loop level",[(D,"                    p1->loop_level != p2->loop_level ||\n","")]),
 ("no offset",[(D,"                    p1->offset_from_allocate_base != p2->offset_from_allocate_base||\n","")]),
 ("no count",[(D,"                    p1->children_count != p2->children_count ||\n","")]),
 ("less count",[(D,"p1->children_count != p2->children_count ||","p1->children_count < p2->children_count ||")]),
 ("no size",[(D,"if (p1->byte_size != p2->byte_size ||\n                    p1->ch","if (p1->ch")]),
 ("no kind",[(D,"p2->offset_from_allocate_base||\n                    metac_value_final_kind(p1->p_val, NULL) != metac_value_final_kind(p2->p_val, NULL))","p2->offset_from_allocate_base)")]),
 ("kind of itself",[(D,"metac_value_final_kind(p1->p_val, NULL) != metac_value_final_kind(p2->p_val, NULL))","metac_value_final_kind(p1->p_val, NULL) != metac_value_final_kind(p1->p_val, NULL))")]),
 ("last wins",[(D,EN,EN.replace("if (_cmp == 0) {\n                        cmp_res = 0;\n                    }","cmp_res = (_cmp != 0);"))]),
 ("reset",[(D,BT,BT.replace("cmp_res = 0;\n                    }","cmp_res = 0;\n                    } else cmp_res = 1;"))]),
 ("enum inverted",[(D,EN,EN.replace("_cmp == 0","_cmp != 0"))]),
 ("base self",[(D,BT,BT.replace("(p1->p_val, p2->p_val)","(p1->p_val, p1->p_val)"))]),
 ("enum dropped",[(D,EN,"")]),
 ("ptr ignore mode",[(D,"if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) {\n                            /*treat","if (p_mode->unknown_ptr_mode == METAC_UPTR_ignore) {\n                            /*treat")]),
 ("ptr no compare",[(D,PT,"")]),
 ("ptr children done",[(D,"if (p1->children_count == 0 && p2->children_count == 0) {\n                        if (p_mode","if (p1->children_count <= 1 && p2->children_count <= 1) {\n                        if (p_mode")]),
 ("union first bytes",[(D,"metac_value_addr(p2->p_val), p1->byte_size) != 0","metac_value_addr(p2->p_val), sizeof(void*)) != 0")]),
 ("union addr self",[(D,"memcmp(metac_value_addr(p1->p_val), metac_value_addr(p2->p_val), p1->byte_size)","memcmp(metac_value_addr(p1->p_val), metac_value_addr(p1->p_val), p1->byte_size)")]),
 ("union mode",[(D,"}else if (p_mode->union_mode == METAC_UNION_as_mem &&\n                        p1->children_count == 0 &&\n                        p2","}else if (p_mode->union_mode == METAC_UNION_ignore &&\n                        p1->children_count == 0 &&\n                        p2")]),
 ("pair first",[(D,"p1->pp_children[i]->private_data = p2->pp_children[i];","p1->pp_children[i]->private_data = p2->pp_children[0];")]),
 ("pair self",[(D,"p1->pp_children[i]->private_data = p2->pp_children[i];","p1->pp_children[i]->private_data = p1->pp_children[i];")]),
 ("map twice",[(D,"p_map2 = metac_new_value_memory_map_ex(p_val2, p_mode","p_map2 = metac_new_value_memory_map_ex(p_val1, p_mode")]),
 ("map no tags",[(D,"p_map2 = metac_new_value_memory_map_ex(p_val2, p_mode, p_tag_map","p_map2 = metac_new_value_memory_map_ex(p_val2, p_mode, NULL")]),
 ("both no tags",[(D,"p_map2 = metac_new_value_memory_map_ex(p_val2, p_mode, p_tag_map","p_map2 = metac_new_value_memory_map_ex(p_val2, p_mode, NULL"),(D,"p_map1 = metac_new_value_memory_map_ex(p_val1, p_mode, p_tag_map","p_map1 = metac_new_value_memory_map_ex(p_val1, p_mode, NULL")]),
 ("top self",[(D,"p1->private_data = p2;\n    metac_rec","p1->private_data = p1;\n    metac_rec")]),
 ("empty equal",[(D,"    int cmp_res = 1;\n    struct metac_memory_entry * p1","    if (p_map1->p_top_entry->children_count == 0) { metac_value_memory_map_delete(p_map2); metac_value_memory_map_delete(p_map1); return 1; }\n    int cmp_res = 1;\n    struct metac_memory_entry * p1")]),
 ("diff without cause",[(D,"                metac_recursive_iterator_set_state(p_iter, failure == 0 ? 1 : 2 /* failure cleanup */);\n                continue;\n\n            }","                if (p1->loop_level > 0) cmp_res = 0;\n                metac_recursive_iterator_set_state(p_iter, failure == 0 ? 1 : 2 /* failure cleanup */);\n                continue;\n\n            }")]),
 ("same address",[(D,"                if (p1->byte_size != p2->byte_size ||\n                    p1->ch","                if (p1->loop_level == p2->loop_level && p1->loop_level != 0) {\n                    metac_recursive_iterator_done(p_iter, &cmp_res);\n                    continue;\n                }\n                if (p1->byte_size != p2->byte_size ||\n                    p1->ch")]),
]
REF=[
 ("split ifs",[(D,"if (p1->byte_size != p2->byte_size ||\n                    p1->children_count","if (p1->byte_size != p2->byte_size) {\n                    cmp_res = 0;\n                    metac_recursive_iterator_done(p_iter, &cmp_res);\n                    continue;\n                }\n                if (p1->children_count")]),
 ("reorder",[(D,"                    p1->loop_level != p2->loop_level ||\n                    p1->offset_from_allocate_base != p2->offset_from_allocate_base||\n","                    p2->offset_from_allocate_base != p1->offset_from_allocate_base||\n                    p1->loop_level != p2->loop_level ||\n")]),
 ("and",[(D,EN,EN.replace("if (_cmp == 0) {\n                        cmp_res = 0;\n                    }","cmp_res = cmp_res && _cmp;"))]),
 ("bit and",[(D,EN,EN.replace("if (_cmp == 0) {\n                        cmp_res = 0;\n                    }","cmp_res &= (_cmp != 0);"))]),
 ("local vals",[(D,"                if (p1->byte_size != p2->byte_size ||\n                    p1->ch","                metac_value_t * v1 = p1->p_val, * v2 = p2->p_val;\n                if (p1->byte_size != p2->byte_size ||\n                    p1->ch"),(D,EN,EN.replace("p1->p_val, p2->p_val","v1, v2"))]),
 ("redundant size",[(D,"if (p1->byte_size != p2->byte_size ||\n                        memcmp(metac_value_addr(p1->p_val), metac_value_addr(p2->p_val), p1->byte_size) != 0","if (memcmp(metac_value_addr(p2->p_val), metac_value_addr(p1->p_val), p2->byte_size) != 0")]),
 ("done null",[(D,"                metac_recursive_iterator_done(p_iter, &cmp_res);\n                continue; \n            }\n\n        }","                metac_recursive_iterator_done(p_iter, NULL);\n                continue; \n            }\n\n        }")]),
 ("helper",[(D,"int metac_value_equal_ex(","static int _same_shape(struct metac_memory_entry * p1, struct metac_memory_entry * p2) {\n    return p1->byte_size == p2->byte_size && p1->children_count == p2->children_count && p1->loop_level == p2->loop_level &&\n        p1->offset_from_allocate_base == p2->offset_from_allocate_base &&\n        metac_value_final_kind(p1->p_val, NULL) == metac_value_final_kind(p2->p_val, NULL);\n}\n\nint metac_value_equal_ex("),(D,"if ("+SH.split(") {\n")[0]+")","if (_same_shape(p1, p2) == 0)")]),
 ("while",[(D,"    for (struct metac_memory_entry * p1 = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter); p1 != NULL;\n        p1 = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter)) {\n        struct metac_memory_entry * p2","    struct metac_memory_entry * p_top1 = p1;\n    while ((p1 = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter)) != NULL) {\n        struct metac_memory_entry * p2"),(D,"    p1->private_data = NULL;\n\n    metac_value_memory_map_delete(p_map2);","    p_top1->private_data = NULL;\n\n    metac_value_memory_map_delete(p_map2);")]),
]
