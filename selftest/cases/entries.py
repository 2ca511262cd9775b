F='fileconf.c'
CASES=[
 (['P33'],'bad','first delay forgotten',[(F,"    if (cl->cl_first == -1)\n","    if (cl->cl_first <= 0)\n")]),
 (['P33'],'bad','freq bit before options only',[(F,"    cl->cl_runfreq = 0;\n    set_freq(cl->cl_option);\n\n    /* then cl_timefreq */","    cl->cl_runfreq = 0;\n    if (cl->cl_first == -1)\n        set_freq(cl->cl_option);\n\n    /* then cl_timefreq */")]),
 (['P33'],'bad','runfreq 1 with &',[(F,"                if (i <= 1) {\n                    fprintf(stderr, \"%s:%d: runfreq must","                if (i < 1) {\n                    fprintf(stderr, \"%s:%d: runfreq must")]),
 (['P33'],'bad','remain from before the options',[(F,"    cl_t *cl = NULL;\n    int i = 0;\n\n    cl = dups_cl(&default_line);\n    cl->cl_file = cf;\n","    cl_t *cl = NULL;\n    int i = 0;\n\n    cl = dups_cl(&default_line);\n    cl->cl_file = cf;\n    cl->cl_remain = cl->cl_runfreq;\n"),(F,"    cl->cl_remain = cl->cl_runfreq;\n\n    /* we set this here, because it may be unset by read_opt (reset option) */\n    set_td(cl->cl_option);\n\n    if (debug_opt)\n        fprintf(stderr, \"     \");\n\n    /* get the fields (check for errors) */\n    R_field(ptr, cl->cl_mins, 59, NULL, \"minutes\");","    set_td(cl->cl_option);\n\n    if (debug_opt)\n        fprintf(stderr, \"     \");\n\n    /* get the fields (check for errors) */\n    R_field(ptr, cl->cl_mins, 59, NULL, \"minutes\");")]),
 (['P33'],'bad','weekly reads a field too many',[(F,"            remain = 3;\n        else if (is_freq_dow(cl->cl_option))\n            remain = 2;","            remain = 3;\n        else if (is_freq_dow(cl->cl_option))\n            remain = 3;")]),
 (['P33'],'bad','no intervals: days and dow alone',[(F,"            if (j != -1 && j < s_dow && is_dayand(cl->cl_option))\n                goto ok;","            if (j != -1 && j < s_dow)\n                goto ok;")]),
 (['P33'],'bad','no intervals accepted',[(F,"                \"skipping line.\\n\", file_name, line);\n        goto exiterr;\n    }\n\n ok:","                \"skipping line.\\n\", file_name, line);\n    }\n\n ok:")]),
 (['P33'],'bad','monthly is yearly',[(F,"        bit_set(cl->cl_days, 1);\n        bit_nset(cl->cl_mons, 0, 11);","        bit_set(cl->cl_days, 1);\n        bit_set(cl->cl_mons, 0);")]),
 (['P33'],'bad','resume at boot',[(F,"        set_runatresume(cl->cl_option);\n        set_runonce(cl->cl_option);\n        clear_volatile(cl->cl_option);\n        cl->cl_runfreq = 0;","        set_runatreboot(cl->cl_option);\n        set_runonce(cl->cl_option);\n        clear_volatile(cl->cl_option);\n        cl->cl_runfreq = 0;")]),
 (['P33'],'bad','shortcut error falls through',[(F,"        ptr = ptr_orig;\n        return 0;\n    }\n","        ptr = ptr_orig;\n        need_correction = 1;\n        return 0;\n    }\n")]),
 (['P33'],'bad','empty command added',[(F,"    if (strcmp(cl->cl_shell, \"\\0\") == 0) {\n        fprintf(stderr, \"%s:%d: No shell command: skipping line.\\n\",\n                file_name, line);\n        Free_safe(cl->cl_shell);\n        goto exiterr;\n    }\n\n#ifndef USE_SENDMAIL\n    clear_mail(cl->cl_option);\n    clear_mailzerolength(cl->cl_option);\n#endif\n\n    cl->cl_next = cf->cf_line_base;\n    cf->cf_line_base = cl;\n\n    if (debug_opt)\n        fprintf(stderr, \"  Cmd \\\"%s\\\", timefreq","    if (cl->cl_shell == NULL) {\n        goto exiterr;\n    }\n\n#ifndef USE_SENDMAIL\n    clear_mail(cl->cl_option);\n    clear_mailzerolength(cl->cl_option);\n#endif\n\n    cl->cl_next = cf->cf_line_base;\n    cf->cf_line_base = cl;\n\n    if (debug_opt)\n        fprintf(stderr, \"  Cmd \\\"%s\\\", timefreq")]),
 (['P33'],'bad','MAILTO empty keeps mail',[(F,"            clear_mail(default_line.cl_option);\n            clear_mailzerolength(default_line.cl_option);\n        }\n        else {\n            Set(default_line.cl_mailto, val);","            clear_mailzerolength(default_line.cl_option);\n        }\n        else {\n            Set(default_line.cl_mailto, val);")]),
 (['P33'],'bad','LOGNAME allowed',[(F,"strcmp(name, \"USER\") == 0 || strcmp(name, \"LOGNAME\") == 0","strcmp(name, \"USER\") == 0 || strncmp(name, \"LOGNAMEX\", 8) == 0")]),
 (['P33'],'bad','first assignment wins',[(F,"env_list_setenv(cf->cf_env_list, name, val, 1);","env_list_setenv(cf->cf_env_list, name, val, 0);")]),
 (['P33'],'bad','last line without newline lost',[(F,"        ptr = buf;\n        Skip_blanks(ptr);\n","        if (ret != OK)\n            break;\n        ptr = buf;\n        Skip_blanks(ptr);\n")]),
 (['P33'],'bad','lines starting with 0 are variables',[(F,"            if (isdigit((int)*ptr) || *ptr == '*') {","            if ((*ptr >= '1' && *ptr <= '9') || *ptr == '*') {")]),
 (['P33'],'bad','trailing text of !-line accepted',[(F,"                        file_name, line, ptr);\n                need_correction = 1;","                        file_name, line, ptr);")]),
 (['P33'],'bad','correction of the file before',[(F,"    bzero(buf, sizeof(buf));\n    need_correction = 0;","    bzero(buf, sizeof(buf));")]),
 (['P33'],'bad','list of files lost',[(F,"    cf->cf_next = file_base;\n","")]),
 (['P33'],'bad','continuation eats a character',[(F,"                i--;\n                line++;","                i -= 2;\n                line++;")]),
 (['P33'],'bad','get_line bound',[(F,"    while (i < size_max) {\n","    while (i <= size_max + 0) {\n")]),
 (['P33'],'bad','too long line is no error',[(F,"    line++;\n    need_correction = 1;\n    return ERR;","    line++;\n    return ERR;")]),
 (['P33'],'bad','& error keeps entry',[(F,"                    fprintf(stderr, \"%s:%d: runfreq must be 2 or more :\"\n                            \" skipping line.\\n\", file_name, line);\n                    goto exiterr;","                    fprintf(stderr, \"%s:%d: runfreq must be 2 or more :\"\n                            \" skipping line.\\n\", file_name, line);\n                    return;")]),
 (['P33'],'bad','entry linked before the check',[(F,"    /* check for non matching if option runfreq is set to 1 */\n","    cl->cl_next = cf->cf_line_base;\n    cf->cf_line_base = cl;\n"),(F," ok:\n#ifndef USE_SENDMAIL\n    clear_mail(cl->cl_option);\n    clear_mailzerolength(cl->cl_option);\n#endif\n\n    cl->cl_next = cf->cf_line_base;\n    cf->cf_line_base = cl;\n"," ok:\n")]),
 (['P33'],'good','link helper',[(F,"void\nread_freq(char *ptr, cf_t *cf)\n","static void\nlink_entry(cf_t *cf, cl_t *cl)\n{\n    cl_t *next = cf->cf_line_base;\n    cf->cf_line_base = cl;\n    cl->cl_next = next;\n}\n\nvoid\nread_freq(char *ptr, cf_t *cf)\n"),(F,"    cl->cl_next = cf->cf_line_base;\n    cf->cf_line_base = cl;\n\n    if (debug_opt)\n        fprintf(stderr, \"  Cmd \\\"%s\\\", timefreq","    link_entry(cf, cl);\n\n    if (debug_opt)\n        fprintf(stderr, \"  Cmd \\\"%s\\\", timefreq")]),
 (['P33'],'good','shortcut table',[(F,"    else if (strcmp(shortcut, \"monthly\") == 0) {","    else if (shortcut[0] == 'm' && strcmp(shortcut + 1, \"onthly\") == 0) {")]),
 (['P33'],'good','dispatch by ifs',[(F,"        switch (*ptr) {\n        case '#':\n        case '\\0':\n            /* comments or empty line: skipping */\n            break;\n        case '@':","        if (*ptr == '#')\n            *ptr = '\\0';\n        switch (*ptr) {\n        case '\\0':\n            /* comments or empty line: skipping */\n            break;\n        case '@':")]),
 (['P33'],'good','intervals in a helper',[(F,"void\nread_period(char *ptr, cf_t *cf)\n","static int\nsome_unset(bitstr_t *ary, int n)\n{\n    int i;\n\n    for (i = 0; i < n; i++)\n        if (!bit_test(ary, i))\n            return 1;\n    return 0;\n}\n\nvoid\nread_period(char *ptr, cf_t *cf)\n"),(F,"            bit_ffc(cl->cl_mins, s_mins, &j);\n            if (j != -1 && j < s_mins)\n                goto ok;","            if (some_unset(cl->cl_mins, s_mins))\n                goto ok;"),(F,"            bit_ffc(cl->cl_mons, s_mons, &j);\n            if (j != -1 && j < s_mons)\n                goto ok;","            if (some_unset(cl->cl_mons, s_mons))\n                goto ok;")]),
 (['P33'],'good','get_line by for',[(F,"    while (i < size_max) {\n\n        switch (c = getc(file)) {","    for (; i + 1 < (int)size;) {\n\n        c = getc(file);\n        switch (c) {")]),
 (['P33'],'good','env name by pointer',[(F,"        name[j++] = *ptr;\n        ptr++;\n","        name[j] = *ptr;\n        j++, ptr++;\n")]),
]
