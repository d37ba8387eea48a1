T = "src/entry_tag.c"
MUT = [
    ("colon ignored", [(T, "                if (p_tag->p_tagstring[i] == ':') {\n                    state = 2;", "                if (p_tag->p_tagstring[i] == '=') {\n                    state = 2;")]),
    ("escape ends", [(T, "                if (p_tag->p_tagstring[i] == '\\\\') {\n                    state = 4;\n                    continue;\n                }\n", "")]),
    ("escape stuck", [(T, "                state = 3;\n                continue;\n        }\n", "                continue;\n        }\n")]),
    ("prefix key", [(T, "if (in_key_len == key_len && \n", "if (in_key_len <= key_len && \n"), (T, "in_key, key_len) == 0) {\n                        /* get", "in_key, in_key_len) == 0) {\n                        /* get")]),
    ("key length", [(T, "key_len = i - key_begin_inx;", "key_len = i - key_begin_inx - 1;")]),
    ("no recovery", [(T, "                if(p_tag->p_tagstring[i] != ' ') {\n                    continue;\n                }\n                state = 0;\n                continue;\n            case 0", "                continue;\n            case 0")]),
    ("no fallback", [(T, "                    state = 0;  /* fallback */\n", "")]),
    ("first pair only", [(T, "                    state = 0; /* restart the process*/\n                    continue;", "                    return NULL;")]),
    ("restart broken", [(T, "                    state = 0; /* restart the process*/", "                    state = -1; /* restart the process*/")]),
    ("with quote", [(T, "                        value_q_begin_inx +=1;\n", "")]),
    ("value short", [(T, "value_q_len -= 1;", "value_q_len -= 2;")]),
    ("last char", [(T, "for (size_t i = 0; i < tag_len; ++i) {\n        switch", "for (size_t i = 0; i + 1 < tag_len; ++i) {\n        switch")]),
    ("from second", [(T, "for (size_t i = 0; i < tag_len; ++i) {\n        switch", "for (size_t i = 1; i < tag_len; ++i) {\n        switch")]),
    ("key begin once", [(T, "                key_begin_inx = i;", "                if (key_begin_inx == -1) key_begin_inx = i;")]),
    ("value is unquoted", [(T, "                if (p_tag->p_tagstring[i] != '\"') {\n                    state = -1;\n                    continue;\n                }\n                state = 3;", "                state = 3;")]),
    ("dup drops", [(T, "\tmemcpy(copy, str, len);\n\tcopy[len] = '\\0';", "\tmemcpy(copy, str, len);\n\tcopy[n] = '\\0';")]),
    ("broken quote", [(T, "                if(p_tag->p_tagstring[i] != ' ') {\n                    continue;\n                }\n                state = 0;\n                continue;\n            case 0", "                if(p_tag->p_tagstring[i] != ' ' && p_tag->p_tagstring[i] != '\"') {\n                    continue;\n                }\n                state = 0;\n                continue;\n            case 0")]),
]
REF = [
    ("pointer scan", [(T, "    for (size_t i = 0; i < tag_len; ++i) {\n        switch(state) {", "    size_t i = (size_t)-1;\n    while (++i, i != tag_len) {\n        switch(state) {")]),
    ("while loop", [(T, "    for (size_t i = 0; i < tag_len; ++i) {\n        switch(state) {", "    for (size_t i = 0; p_tag->p_tagstring[i] != '\\0'; ++i) {\n        switch(state) {")]),
    ("char local", [(T, "    for (size_t i = 0; i < tag_len; ++i) {\n        switch(state) {", "    for (size_t i = 0; i < tag_len; ++i) {\n        const char ch = p_tag->p_tagstring[i];\n        switch(state) {"), (T, "if(p_tag->p_tagstring[i] == ' ') {\n                    continue;", "if(ch == ' ') {\n                    continue;")]),
    ("strncmp", [(T, "memcmp(&p_tag->p_tagstring[key_begin_inx], in_key, key_len) == 0", "strncmp(in_key, &p_tag->p_tagstring[key_begin_inx], in_key_len) == 0")]),
    ("states renumbered", [(T, "int state = 0;", "enum {sErr = 10, sSpace, sKey, sColon, sVal, sEsc} state = sSpace;"), (T, "case -1: /*error", "case sErr: /*error"), (T, "state = 0;\n                continue;\n            case 0:", "state = sSpace;\n                continue;\n            case sSpace:"),
        (T, "                state = 1;\n", "                state = sKey;\n"), (T, "            case 1: /* looking for :", "            case sKey: /* looking for :"), (T, "state = 0;  /* fallback */", "state = sSpace;  /* fallback */"), (T, "state = 2;\n                    key_len", "state = sColon;\n                    key_len"),
        (T, "case 2: /* next", "case sColon: /* next"), (T, "                    state = -1;\n                    continue;\n                }\n                state = 3;", "                    state = sErr;\n                    continue;\n                }\n                state = sVal;"), (T, "case 3: /* looking for the", "case sVal: /* looking for the"),
        (T, "                    state = 4;", "                    state = sEsc;"), (T, "state = 0; /* restart", "state = sSpace; /* restart"), (T, "            case 4: /* accept any characted, because it's after \\*/\n                state = 3;", "            case sEsc: /* accept any characted, because it's after \\*/\n                state = sVal;")]),
    ("escape skips", [(T, "                    state = 4;\n                    continue;", "                    ++i;\n                    continue;")]),
    ("if chain", [(T, "                if (p_tag->p_tagstring[i] != '\"') {\n                    state = -1;\n                    continue;\n                }\n                state = 3;\n                value_q_begin_inx = i;\n                continue;", "                if (p_tag->p_tagstring[i] == '\"') {\n                    state = 3;\n                    value_q_begin_inx = i;\n                } else {\n                    state = -1;\n                }\n                continue;")]),
    ("value begin behind", [(T, "                value_q_begin_inx = i;", "                value_q_begin_inx = i + 1;"), (T, "                        value_q_begin_inx +=1;\n                        value_q_len -= 1;\n", "")]),
    ("library strndup", [(T, "return _strndup(&p", "return strndup(&p")]),
    ("match helper", [(T, "metac_name_t metac_entry_tag_string_lookup(", "static int same_key(metac_name_t s, size_t n, metac_name_t key) {\n    return strlen(key) == n && memcmp(s, key, n) == 0;\n}\n\nmetac_name_t metac_entry_tag_string_lookup("), (T, "if (in_key_len == key_len && \n                        memcmp(&p_tag->p_tagstring[key_begin_inx], in_key, key_len) == 0) {", "if (same_key(&p_tag->p_tagstring[key_begin_inx], key_len, in_key)) {")]),
]
