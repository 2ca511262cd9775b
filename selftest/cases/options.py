F='fileconf.c'
CASES=[
 (['P31'],'bad','runonce sets runatreboot',[(F,"                clear_runonce(cl->cl_option);\n            else\n                set_runonce(cl->cl_option);","                clear_runonce(cl->cl_option);\n            else\n                set_runatreboot(cl->cl_option);")]),
 (['P31'],'bad','dayor inverted',[(F,"                set_dayand(cl->cl_option);\n            else\n                set_dayor(cl->cl_option);","                set_dayor(cl->cl_option);\n            else\n                set_dayand(cl->cl_option);")]),
 (['P31'],'bad','lavg5 into the wrong slot',[(F,"            cl->cl_lavg[1] = i;\n            if (cl->cl_lavg[0]","            cl->cl_lavg[2] = i;\n            if (cl->cl_lavg[0]")]),
 (['P31'],'bad','runfreq 1',[(F,"            if (i <= 1) {\n                fprintf(stderr, \"runfreq must be","            if (i < 1) {\n                fprintf(stderr, \"runfreq must be")]),
 (['P31'],'bad','runas for everybody',[(F,"            if (getuid() != rootuid) {\n                fprintf(stderr, \"must be privileged to use option runas: ","            if (getuid() != rootuid && len > 3) {\n                fprintf(stderr, \"must be privileged to use option runas: ")]),
 (['P31'],'bad','nice negative for users',[(F,"            *nice = 0;\n        }","        }")]),
 (['P31'],'bad','jitter over the limit',[(F,"(ptr = get_num(ptr, &i, UCHAR_MAX, 0, NULL)) == NULL)\n                Handle_err;\n            cl->cl_jitter","(ptr = get_num(ptr, &i, USHRT_MAX, 0, NULL)) == NULL)\n                Handle_err;\n            cl->cl_jitter")]),
 (['P31'],'bad','mail(no) keeps forcemail',[(F,"                clear_mail(cl->cl_option);\n                clear_mailzerolength(cl->cl_option);\n            }\n            else\n                set_mail","                clear_mail(cl->cl_option);\n            }\n            else\n                set_mail")]),
 (['P31'],'bad','weekly by month',[(F,"            else if (strcmp(opt_name, \"weekly\") == 0) {\n                set_freq_dow","            else if (strcmp(opt_name, \"weekly\") == 0) {\n                set_freq_mons")]),
 (['P31'],'bad','midmonthly not mid',[(F,"                set_freq_mons(cl->cl_option);\n                set_freq_periodically(cl->cl_option);\n                set_freq_mid(cl->cl_option);","                set_freq_mons(cl->cl_option);\n                set_freq_periodically(cl->cl_option);")]),
 (['P31'],'bad','unknown option accepted',[(F,"            fprintf(stderr, \"%s:%d: Option \\\"%s\\\" unknown: \"\n                    \"skipping option.\\n\", file_name, line, opt_name);\n            need_correction = 1;","            fprintf(stderr, \"%s:%d: Option \\\"%s\\\" unknown: \"\n                    \"skipping option.\\n\", file_name, line, opt_name);")]),
 (['P31'],'bad','get_bool yes is no',[(F,"        ptr += 2;\n        goto true_val;","        ptr += 2;\n        goto false_val;")]),
 (['P31'],'bad','false keeps a letter',[(F,"        ptr += 4;\n        goto false_val;","        ptr += 3;\n        goto false_val;")]),
 (['P31'],'good','bool through a helper',[(F,"            if (i == 0)\n                clear_runonce(cl->cl_option);\n            else\n                set_runonce(cl->cl_option);","            set_once(cl, i);"),(F,"char *\nread_opt(char *ptr, cl_t *cl)\n","static void\nset_once(cl_t *cl, int on)\n{\n    if (on)\n        set_runonce(cl->cl_option);\n    else\n        clear_runonce(cl->cl_option);\n}\n\nchar *\nread_opt(char *ptr, cl_t *cl)\n")]),
 (['P31'],'good','nice by expression',[(F,"        *nice *= (-1);","        *nice = -*nice;")]),
 (['P31'],'good','bool by if chain',[(F,"    if (*ptr == '1')\n        goto true_val;","    if (ptr[0] == '1') {\n        *i = 1;\n        return ptr + 1;\n    }")]),
 (['P31'],'good','option_strlen by strcspn',[(F,"    while (ptr != NULL && *ptr != ')' && *ptr != '\\0') {\n        ptr++;\n        len++;\n    }","    if (ptr != NULL)\n        for (; ptr[len] != '\\0'; len++)\n            if (ptr[len] == ')')\n                break;")]),
 (['P32'],'bad','range stops early',[(F,"            for (i = start; i <= stop; i += step)","            for (i = start; i < stop; i += step)")]),
 (['P32'],'bad','wrap from one too late',[(F,"            for (i -= (field_max + 1); i <= stop; i += step)","            for (i -= field_max; i <= stop; i += step)")]),
 (['P32'],'bad','wrap without step',[(F,"            for (i -= (field_max + 1); i <= stop; i += step)","            for (i = 0; i <= stop; i += step)")]),
 (['P32'],'bad','month range not from 1',[(F,"                    stop -= 1;\n","                    stop -= 0;\n")]),
 (['P32'],'bad','removed value kept in months',[(F,"                rm -= 1;\n","                rm -= 0;\n")]),
 (['P32'],'bad','step 0 never ends',[(F,"&step, max, 0, names)) == NULL || step == 0)","&step, max, 0, names)) == NULL || step < 0)")]),
 (['P32'],'bad','limit off by one',[(F,"            if (*num > max) {\n                need_correction = 1;\n                return NULL;\n            }\n\n            ptr++;","            if (*num > max * 10) {\n                need_correction = 1;\n                return NULL;\n            }\n\n            ptr++;"),(F,"        if (*num > max) {\n            need_correction = 1;\n            return NULL;\n        }\n\n    }\n\n    return ptr;","        if (*num > max + 1) {\n            need_correction = 1;\n            return NULL;\n        }\n\n    }\n\n    return ptr;")]),
 (['P32'],'bad','hours into days',[(F,"    R_field(ptr, cl->cl_hrs, 23, NULL, \"hours\")}","    R_field(ptr, cl->cl_days, 23, NULL, \"hours\")}")]),
 (['P32'],'bad','days limit 32',[(F,"    R_field(ptr, cl->cl_days, 31, NULL, \"days\")}","    R_field(ptr, cl->cl_days, 32, NULL, \"days\")}")]),
 (['P32'],'good','bits in a helper',[(F,"            for (i = start; i <= stop; i += step)\n                bit_set(ary, i);\n        else","            set_range(ary, start, stop, step);\n        else"),(F,"char *\nread_field(char *ptr, bitstr_t *ary","static void\nset_range(bitstr_t *ary, int from, int to, int by)\n{\n    while (from <= to) {\n        bit_set(ary, from);\n        from += by;\n    }\n}\n\nchar *\nread_field(char *ptr, bitstr_t *ary")]),
 (['P32'],'good','for loop over the text',[(F,"    while ((*ptr != ' ') && (*ptr != '\\t') && (*ptr != '\\0')) {\n\n        start = stop = step = 0;","    for (;;) {\n        if (*ptr == ' ' || *ptr == '\\t' || *ptr == '\\0')\n            break;\n\n        start = stop = step = 0;")]),
 (['P32'],'good','digits with strchr',[(F,"        while (isdigit((int)*ptr) || *ptr == '.') {","        while (*ptr == '.' || (*ptr >= '0' && *ptr <= '9')) {")]),
]
