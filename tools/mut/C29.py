D="src/value_deep.c"; S="src/value_string.c"; E="src/entry.c"; K="src/entry_cdecl.c"; T="src/entry_tag.c"; W="src/value_with_args.c"; V="src/value.c"
EL="for (metac_num_t i = 0; i < mcount; ++i) {\n%smetac_value_t * p_el_val"
MUT=[
    ("last null", [('src/value_string.c', '                        if (el_out == NULL) {\n                            failure = 1;\n                            break;\n                        }\n\n                        char *prev_out = out;\n                        out = dsprintf("%s%s%s,",', '                        if (el_out == NULL) {\n                            failure = 1;\n                            break;\n                        }\n                        if (strcmp(el_out, "NULL") == 0 && out != NULL &&\n                            metac_recursive_iterator_dep_queue_is_empty(p_iter) != 0) { /* the end mark of a list */\n                            free(el_out);\n                            break;\n                        }\n\n                        char *prev_out = out;\n                        out = dsprintf("%s%s%s,",')]),
 ("map el start",[(D,EL%(" "*28),EL.replace("i = 0","i = 1")%(" "*28))]),
 ("map el count",[(D,"metac_num_t mcount = metac_value_element_count(p_local);\n                        for","metac_num_t mcount = metac_value_element_count(p_local) - 1;\n                        for")]),
 ("str el bound",[(S,EL%(" "*24),EL.replace("i < mcount","i + 1 < mcount")%(" "*24))]),
 ("str el cap",[(S,"metac_num_t mcount = metac_value_element_count(p_local);\n","metac_num_t mcount = metac_value_element_count(p_local);\n                    if (mcount > 1024) { mcount = 1024; }\n")]),
 ("str el 8bit",[(S,EL%(" "*24),EL.replace("metac_num_t","signed char")%(" "*24))]),
 ("str el count of p",[(S,"metac_num_t mcount = metac_value_element_count(p_local);\n","metac_num_t mcount = metac_value_element_count(p);\n")]),
 ("enum last",[(E,"i < p_final_entry->enumeration_type_info.enumerators_count; ++i","i < p_final_entry->enumeration_type_info.enumerators_count - 1; ++i")]),
 ("member from 1",[(E,"for (metac_num_t i = 0; i < p_final_entry->structure_type_info.members_count; ++i) {\n        if","for (metac_num_t i = 1; i < p_final_entry->structure_type_info.members_count; ++i) {\n        if")]),
 ("copy children",[(D,"for (metac_num_t i = 0; i < p->children_count; ++i) {\n                    if (p->pp_children[i] != NULL) {\n                        metac_value_t * p_child_val;","for (metac_num_t i = 0; i < p->children_count; ++i) {\n                    if (p->pp_children[i] != NULL && p->pp_children[i]->byte_size > 0) {\n                        metac_value_t * p_child_val;")]),
 ("equal children",[(D,"                    if (p1->pp_children[i] != NULL && p2->pp_children[i] != NULL) {\n                        p1->pp","                    if (p1->pp_children[i] != NULL && p2->pp_children[i] != NULL && p1->pp_children[i]->byte_size > 0) {\n                        p1->pp")]),
 ("equal step",[(D,"for (metac_num_t i = 0; i < p1->children_count; ++i) {","for (metac_num_t i = 0; i < p1->children_count; i += 2) {")]),
 ("tag union members",[(T,"                for (metac_num_t i = 0; i < metac_value_member_count(p_parent_val); ++i) {","                for (metac_num_t i = 0; i < metac_value_member_count(p_val); ++i) {")]),
 ("count_by from 1",[(T,"            for (metac_num_t i = 0; i < metac_value_member_count(p_parent_val); ++i) {\n                metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);\n                if (p_sibling_val == NULL) {\n                    return -(EFAULT);\n                }\n                if (metac_value_name(p_sibling_val) == NULL ||\n                    strcmp(metac_value_name(p_sibling_val), p_cnxt->counter","            for (metac_num_t i = 1; i < metac_value_member_count(p_parent_val); ++i) {\n                metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);\n                if (p_sibling_val == NULL) {\n                    return -(EFAULT);\n                }\n                if (metac_value_name(p_sibling_val) == NULL ||\n                    strcmp(metac_value_name(p_sibling_val), p_cnxt->counter")]),
 ("args bound",[(W,"i < metac_entry_parameters_count(p_entry); ++i","i + 1 < metac_entry_parameters_count(p_entry); ++i")]),
 ("cdecl members",[(K,"                        for (int i = 0; i < p->structure_type_info.members_count; ++i) {\n                            char","                        for (int i = 0; i + 1 < p->structure_type_info.members_count; ++i) {\n                            char")]),
 ("cdecl enum text",[(K,"                                (val == NULL)?\"\":val,\n                                (val == NULL)?\"\":\" \",","                                \"\",\n                                (val == NULL)?\"\":\" \",")]),
 ("str text lost",[(S,"                            out = dsprintf(\"%s%s%s\",\n                                prev_out == NULL?\"\":prev_out, /*must include , at the end */","                            out = dsprintf(\"%s%s%s\",\n                                \"\", /*must include , at the end */")]),
 ("str skip zero",[(S,"                        if (strcmp(memb_out, \"\") == 0) { /* skip empty results */","                        if (strcmp(memb_out, \"\") == 0 || memb_name != NULL && memb_name[0] == '_') { /* skip empty results */")]),
 ("map slot",[(D,"                        p_member_memory_entry->p_parent = p_memory_entry;\n                        ++children_count;\n                    }\n                    if (failure != 0) {\n                        metac_recursive_iterator_set_state(p_iter, 2);  // failure cleanup\n                        continue;\n                    }\n                    metac_recursive_iterator_done(p_iter, p_memory_entry);\n                    continue;\n                }\n","                        p_member_memory_entry->p_parent = p_memory_entry;\n                        if (p_member_memory_entry->byte_size != 0) ++children_count;\n                    }\n                    if (failure != 0) {\n                        metac_recursive_iterator_set_state(p_iter, 2);  // failure cleanup\n                        continue;\n                    }\n                    metac_recursive_iterator_done(p_iter, p_memory_entry);\n                    continue;\n                }\n")]),
 ("delete cats",[(T,"i< p_tag_map->categories_count; ++i","i + 1 < p_tag_map->categories_count; ++i")]),
 ("cases",[(T,"i < p_cnxt->cases_count; ++i) {","i < p_cnxt->cases_count - 1; ++i) {")]),
]
REF=[
 ("str el reverse-free",[(S,EL%(" "*24),"metac_num_t i = -1;\n                    while (++i < mcount) {\n                        metac_value_t * p_el_val")]),
 ("map el dowhile",[(D,EL%(" "*28),"for (metac_num_t i = 0; i != mcount; i++) {\n                            metac_value_t * p_el_val")]),
 ("map failflag",[(D,"for (metac_num_t i = 0; i < mcount; ++i) {\n                            metac_value_t * p_el_val = metac_new_value_by_element_id(p_local, i);\n                            if (p_el_val == NULL) {\n                                failure = 1;\n                                break;","for (metac_num_t i = 0; i < mcount && failure == 0; ++i) {\n                            metac_value_t * p_el_val = metac_new_value_by_element_id(p_local, i);\n                            if (p_el_val == NULL) {\n                                failure = 1;\n                                continue;")]),
 ("members back",[(E,"for (metac_num_t i = 0; i < p_final_entry->enumeration_type_info.enumerators_count; ++i) {","metac_num_t const n = p_final_entry->enumeration_type_info.enumerators_count;\n    for (metac_num_t i = 0; n > i; i += 1) {")]),
 ("del back",[(T,"    for (metac_num_t i = 0; i< p_tag_map->categories_count; ++i) {\n        if","    for (metac_num_t i = p_tag_map->categories_count - 1; i >= 0; --i) {\n        if")]),
 ("el i-1",[(S,EL%(" "*24)+" = metac_new_value_by_element_id(p_local, i);","for (metac_num_t i = 1; i <= mcount; ++i) {\n                        metac_value_t * p_el_val = metac_new_value_by_element_id(p_local, i - 1);")]),
]
