F = "src/printf_format.c"
W = "src/value_with_args.c"
MUT = [
    ("unknown length is success", [(F, """                                _process(long long, long long);
                            } else {
                                return -(EFAULT);""", """                                _process(long long, long long);
                            } else {
                                return 0;""")]),
    ("ld as int", [(F, "_process(long, long);", "_process(long, int);")]),
    ("hhd recorded as uchar", [(F, "_process(char, int);", "_process(unsigned char, int);")]),
    ("lu as uint", [(F, "_process(unsigned long, unsigned long);", "_process(unsigned long, unsigned int);")]),
    ("Lf as double", [(F, "_process(long double, long double);", "_process(double, double);")]),
    ("hn wrong", [(F, "_process(short*, void*);", "_process(char*, void*);")]),
    ("swap h hh", [(F, "if (dummy_specifier.arg_len == psal_hh) {\n                            _process(unsigned char, unsigned int);\n                        } else if (dummy_specifier.arg_len == psal_h) {",
                    "if (dummy_specifier.arg_len == psal_h) {\n                            _process(unsigned char, unsigned int);\n                        } else if (dummy_specifier.arg_len == psal_hh) {")]),
    ("param_id on literal", [(F, "            } else if (format[pos] == '%') { // %%\n                ++pos;\n            }\n            continue; // pos is already behind the specifier\n        }\n        ++pos;",
                              "            } else if (format[pos] == '%') { // %%\n                ++pos;\n                ++param_id;\n            }\n            continue; // pos is already behind the specifier\n        }\n        ++pos;")]),
    ("x dropped", [(F, "                case 'x':\n", "")]),
    ("parser ll", [(F, "p_specifier->arg_len == psal_l && (format[*pos] == 'l')", "p_specifier->arg_len == psal_l && (format[*pos] == 'h')")]),
    ("parser swap", [(F, "        if (format[*pos] == 'h') {\n            p_specifier->arg_len = psal_h;", "        if (format[*pos] == 'h') {\n            p_specifier->arg_len = psal_l;")]),
    ("float as float complex", [(W, "_base_type_paremeter_(float, double, float);", "_base_type_paremeter_(float, long double, float);")]),
    ("long as int", [(W, "_base_type_paremeter_(long, long, long int);", "_base_type_paremeter_(long, int, long int);")]),
    ("enum long", [(W, "_enum_paremeter_(long, long);", "_enum_paremeter_(long, int);")]),
    ("bool missing", [(W, "_base_type_paremeter_(bool, int, _Bool);\n", "")]),
]
REF = [
    ("index from storage", [(F, "metac_parameter_storage_new_param_value(p_pload, param_id);", "metac_parameter_storage_new_param_value(p_pload, metac_parameter_storage_size(p_pload) - 1);")]),
    ("spec local copies", [(F, "                switch (dummy_specifier.t) {", "                char cv = dummy_specifier.t;\n                switch (cv) {")]),
    ("signed via unsigned", [(F, "_process(long, long);", "_process(long, unsigned long);")]),
    ("if ladder", [(F, "} else if (dummy_specifier.arg_len == psal_L) {\n                            _process(long double, long double);\n                        } else {\n                            return -(EFAULT);\n                        }",
                    "} else {\n                            if (dummy_specifier.arg_len != psal_L) {\n                                return -(EFAULT);\n                            }\n                            _process(long double, long double);\n                        }")]),
    ("for loop", [(F, "    size_t pos = 0;\n    metac_printf_specifier_t dummy_specifier;\n\n    while (pos < strlen(format)) {\n        if (format[pos] == '%') {\n            // Check if a valid format specifier follows\n            if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {\n                switch",
                   "    size_t pos = 0, fl = strlen(format);\n    metac_printf_specifier_t dummy_specifier;\n\n    for (;pos < fl;) {\n        if (format[pos] == '%') {\n            // Check if a valid format specifier follows\n            if (metac_parse_format_specifier(format, &pos, &dummy_specifier) != 0) {\n                switch")]),
]
