F='fileconf.c'; L='log.c'
CASES=[
 (['P31'],'bad','noticenotrun no sets',[(F,"clear_notice_notrun(cl->cl_option);","set_notice_notrun(cl->cl_option);")]),
 (['P31'],'bad','lavg all zero still set',[(F,"            if (cl->cl_lavg[0] || cl->cl_lavg[1] || cl->cl_lavg[2])\n                set_lavg(cl->cl_option);\n            else\n                clear_lavg(cl->cl_option);\n#ifdef NOLOADAVG\n            warn(\"As fcron has been compiled with no procfs support,\\n\"\n                 \"you will not be able to use the lavg* options\");\n#endif                          /* NOLOADAVG */\n        }\n","            set_lavg(cl->cl_option);\n        }\n")]),
 (['P31'],'bad','lavg5 zero clears although others',[(F,"            cl->cl_lavg[1] = i;\n            if (cl->cl_lavg[0] || cl->cl_lavg[1] || cl->cl_lavg[2])","            cl->cl_lavg[1] = i;\n            if (cl->cl_lavg[0] || cl->cl_lavg[1])")]),
 (['P31'],'bad','forcemail without mail',[(F,"                set_mailzerolength(cl->cl_option);\n                set_mail(cl->cl_option);","                set_mailzerolength(cl->cl_option);")]),
 (['P31'],'bad','mailto without mail',[(F,"                    ptr += len;\n                    set_mail(cl->cl_option);","                    ptr += len;")]),
 (['P31'],'bad','mailto empty keeps forcemail',[(F,"            if (len <= 0) {\n                clear_mail(cl->cl_option);\n                clear_mailzerolength(cl->cl_option);","            if (len <= 0) {\n                clear_mail(cl->cl_option);")]),
 (['P31'],'bad','tzdiff negative lost',[(F,"cl->cl_file->cf_tzdiff = (-i);","cl->cl_file->cf_tzdiff = i;")]),
 (['P31'],'bad','tzdiff limit 12',[(F,"get_num(ptr, &i, 24, 0, NULL)","get_num(ptr, &i, 12, 0, NULL)")]),
 (['P31'],'bad','reset no resets',[(F,"            if (i == 1) {\n                init_default_line","            if (i >= 0) {\n                init_default_line")]),
 (['P31'],'bad','runas of unknown user',[(F,"                        \"ignored\", runas);\n                runas_refused = 1;","                        \"ignored\", runas);")]),
 (['P31'],'bad','runas with one char too many',[(F,"else if (len > USER_NAME_LEN) {","else if (len > USER_NAME_LEN + 1) {")]),
 (['P31'],'bad','options of an entry leak',[(F,"        else if (isalnum((int)*ptr))\n            if ((ptr = read_opt(ptr, cl)) == NULL) {","        else if (isalnum((int)*ptr))\n            if ((ptr = read_opt(ptr, &default_line)) == NULL) {")]),
 (['P31'],'bad','month of 30 weeks',[(F,"sum *= 4;","sum *= 5;")]),
 (['P31'],'bad','last time unit only',[(F,"        *time += sum;","        *time = sum;")]),
 (['P31'],'bad','seconds as minutes',[(F,"        case 's':              /* seconds */\n            ptr++;\n            break;\n        case ' ':","        case 's':              /* seconds */\n            ptr++;\n        case ' ':")]),
 (['P31'],'bad','true short',[(F,"    else if (strncmp(ptr, \"true\", 4) == 0) {\n        ptr += 3;","    else if (strncmp(ptr, \"true\", 4) == 0) {\n        ptr += 2;")]),
 (['P31'],'bad','until writes first',[(F,"get_time(ptr, &(cl->cl_until), 1)","get_time(ptr, &(cl->cl_first), 1)")]),
 (['P31'],'bad','jitter sets random',[(F,"            cl->cl_jitter = i;\n","            cl->cl_jitter = i;\n            set_random(cl->cl_option);\n")]),
 (['P31'],'bad','nice 20 cut',[(F,"get_num(ptr, nice, 20, 0, NULL)","get_num(ptr, nice, 19, 0, NULL)")]),
 (['P31'],'bad','nice negative twice',[(F,"            *nice = 0;\n        }\n\n        *nice *= (-1);","            *nice = 0;\n        }\n        else\n            *nice *= (-1);\n        if (*nice == -20) *nice = 20;")]),
 (['P31'],'bad','bracket not closed accepted',[(F,"            if (*ptr != ')') {\n            Handle_err}\n            else\n                ptr++;","            if (*ptr == ')')\n                ptr++;")]),
 (['P31'],'bad','runas kept refused value',[(F,"            if (runas_refused) {\n                need_correction = 1;\n                Free_safe(runas);\n            }\n            else {","            if (runas_refused)\n                need_correction = 1;\n            {")]),
 (['P31'],'bad','mailfrom to mailto',[(F,"assign_option_string(&(cl->cl_mailfrom), ptr)","assign_option_string(&(cl->cl_mailto), ptr)")]),
 (['P31'],'bad','timezone quote allowed',[(F,"|| start == '\\'' || start == '\"' || end","|| start == '\"' || end")]),
 (['P31'],'bad','midweekly by mons',[(F,"            else if (strcmp(opt_name, \"midweekly\") == 0) {\n                set_freq_dow","            else if (strcmp(opt_name, \"midweekly\") == 0) {\n                set_freq_mons")]),
 (['P31'],'bad','nightly unknown',[(F,"                     || strcmp(opt_name, \"nightly\") == 0","")]),
 (['P31'],'bad','percent options outside',[(F,"        else if (cl->cl_runfreq == 1) {\n            /* options to run","        else if (cl->cl_runfreq <= 1) {\n            /* options to run")]),
 (['P31'],'bad','decimals ignored',[(F,"    if (decimal > 0)\n            *num *= 10 * decimal;","    if (0)\n            *num *= 10 * decimal;")] if 0 else [(F,"            *num *= 10 * decimal;","            *num *= 1 * decimal;")]),
 (['P31'],'bad','runfreq at most byte',[(F,"            cl->cl_runfreq = i;\n            if (debug_opt)","            cl->cl_runfreq = (unsigned char)i;\n            if (debug_opt)")]),
 (['P31'],'good','lavg by helper',[(F,"char *\nread_opt(char *ptr, cl_t *cl)","static void\nvp_lavg(cl_t *cl)\n{\n    int k, any = 0;\n    for (k = 0; k < 3; k++)\n        if (cl->cl_lavg[k]) any = 1;\n    if (any)\n        set_lavg(cl->cl_option);\n    else\n        clear_lavg(cl->cl_option);\n}\n\nchar *\nread_opt(char *ptr, cl_t *cl)"),(F,"            cl->cl_lavg[1] = i;\n            if (cl->cl_lavg[0] || cl->cl_lavg[1] || cl->cl_lavg[2])\n                set_lavg(cl->cl_option);\n            else\n                clear_lavg(cl->cl_option);","            cl->cl_lavg[1] = i;\n            vp_lavg(cl);")]),
 (['P31'],'good','time units by table',[(F,"        switch (*ptr) {\n        case 'm':              /* months */\n            sum *= 4;\n        case 'w':              /* weeks */\n            sum *= 7;\n        case 'd':              /* days */\n            sum *= 24;\n        case 'h':              /* hours */\n            sum *= 3600;\n        case 's':              /* seconds */\n            ptr++;\n            break;","        switch (*ptr) {\n        case 'm':              /* months */\n            sum *= 4 * 7 * 24 * 3600L;\n            ptr++;\n            break;\n        case 'w':              /* weeks */\n            sum *= 7 * 24 * 3600;\n            ptr++;\n            break;\n        case 'd':              /* days */\n            sum *= 24 * 3600;\n            ptr++;\n            break;\n        case 'h':              /* hours */\n            sum *= 3600;\n        case 's':              /* seconds */\n            ptr++;\n            break;")]),
 (['P32'],'bad','sunday one way',[(F,"        else if (bit_test(ary, 7))\n            bit_set(ary, 0);","")]),
 (['P32'],'bad','removed sunday 7 keeps 0',[(F,"            else if (max == 7 && rm == 7) {\n                bit_clear(ary, 0);","            else if (max == 7 && rm == 8) {\n                bit_clear(ary, 0);")]),
 (['P32'],'bad','month names off',[(F,"                *num = (max == 12) ? i + 1 : i;","                *num = (max == 12 && i > 0) ? i + 1 : i;")]),
 (['P32'],'bad','month stop not shifted',[(F,"                    stop -= 1;","                    stop -= 0;")]),
 (['P32'],'bad','names too short',[(F,"            if (strncasecmp(ptr, names[i], strlen(names[i])) == 0) {","            if (strncasecmp(ptr, names[i], strlen(names[i]) - 1) == 0) {")]),
 (['P32'],'bad','wrap off by one',[(F,"for (i -= (field_max + 1); i <= stop; i += step)","for (i -= field_max; i <= stop; i += step)")]),
 (['P32'],'bad','wrap restarts at 0',[(F,"for (i -= (field_max + 1); i <= stop; i += step)","for (i = 0; i <= stop; i += step)")]),
 (['P32'],'bad','wrap month to 12',[(F,"            short int field_max = (max == 12) ? 11 : max;","            short int field_max = max;")]),
 (['P32'],'bad','star of month 12',[(F,"            stop = (max == 12) ? 11 : max;\n            ptr++;","            stop = max;\n            ptr++;")]),
 (['P32'],'bad','only one removed',[(F,"        while (*ptr == '~') {","        if (*ptr == '~') {")]),
 (['P32'],'bad','removal without month shift',[(F,"                rm -= 1;","                rm -= 0;")]),
 (['P32'],'bad','names for hours',[(F,'R_field(ptr, cl->cl_hrs, 23, NULL, "hours");\n    R_field(ptr, cl->cl_days, 31, NULL, "days");\n    /* month','R_field(ptr, cl->cl_hrs, 24, NULL, "hours");\n    R_field(ptr, cl->cl_days, 31, NULL, "days");\n    /* month')]),
 (['P32'],'bad','names swapped',[(F,'R_field(ptr, cl->cl_dow, 7, dows_ary, "days of week");\n\n    if (debug_opt)\n        /* if debug_opt is set, we print informations in read_field function,\n         *  but no end line : we print it here */\n        fprintf(stderr, " remain %d\\n", cl->cl_remain);\n\n    /* check for inline runas */\n    ptr = check_username(ptr, cf, cl);\n\n    /* get the shell command */\n    cl->cl_shell = get_command(ptr);\n    if (strcmp(cl->cl_shell, "\\0") == 0) {\n        fprintf(stderr, "%s:%d: No shell command: skipping line.\\n",\n                file_name, line);\n        Free_safe(cl->cl_shell);\n        goto exiterr;\n    }\n\n#ifndef','R_field(ptr, cl->cl_dow, 7, mons_ary, "days of week");\n\n    if (debug_opt)\n        /* if debug_opt is set, we print informations in read_field function,\n         *  but no end line : we print it here */\n        fprintf(stderr, " remain %d\\n", cl->cl_remain);\n\n    /* check for inline runas */\n    ptr = check_username(ptr, cf, cl);\n\n    /* get the shell command */\n    cl->cl_shell = get_command(ptr);\n    if (strcmp(cl->cl_shell, "\\0") == 0) {\n        fprintf(stderr, "%s:%d: No shell command: skipping line.\\n",\n                file_name, line);\n        Free_safe(cl->cl_shell);\n        goto exiterr;\n    }\n\n#ifndef')]),
 (['P32'],'bad','step left over',[(F,"            /* step undefined : default is 0 */\n            step = 1;","            /* step undefined : default is 0 */\n            step = step ? step : 1;"),(F,"        start = stop = step = 0;","        start = stop = 0;")]),
 (['P32'],'bad','month zero accepted',[(F,"            if (start < 0) {\n                need_correction = 1;\n                return NULL;\n            }\n\n            if (*ptr == ','","            if (start < 0) start = 0;\n\n            if (*ptr == ','")]),
 (['P32'],'good','bounds computed once',[(F,"    int rm = 0;\n    int i = 0;\n\n    while ((*ptr != ' ')","    int rm = 0;\n    int i = 0;\n    const int last = (max == 12) ? 11 : max;\n    const int shift = (max == 12) ? 1 : 0;\n\n    while ((*ptr != ' ')"),(F,"            stop = (max == 12) ? 11 : max;\n            ptr++;","            stop = last;\n            ptr++;"),(F,"            if (max == 12)\n                /* this number is part of the month field.\n                 * user set it from 1 to 12, but we manage it internally\n                 * as a number from 0 to 11 : we remove 1 to rm */\n                rm -= 1;","            rm -= shift;"),(F,"            short int field_max = (max == 12) ? 11 : max;","            short int field_max = last;")]),
 (['P32'],'good','wrap by modulo',[(F,"            for (i = start; i <= field_max; i += step)\n                bit_set(ary, i);\n            for (i -= (field_max + 1); i <= stop; i += step)\n                bit_set(ary, i);","            for (i = start; i <= stop + field_max + 1; i += step)\n                bit_set(ary, i > field_max ? i - (field_max + 1) : i);")]),
 (['P33'],'bad','@reset keeps freq clear',[(F,"    cl->cl_runfreq = 0;\n    set_freq(cl->cl_option);\n\n    /* then","    cl->cl_runfreq = 0;\n\n    /* then")]),
 (['P33'],'bad','first zero is unset',[(F,"    if (cl->cl_first == -1)","    if (cl->cl_first <= 0)")]),
 (['P33'],'bad','period line runfreq from options',[(F,"    cl->cl_remain = cl->cl_runfreq = 1;\n    set_td(cl->cl_option);","    cl->cl_remain = cl->cl_runfreq;\n    set_td(cl->cl_option);")]),
 (['P33'],'bad','weekly days unset',[(F,"        bit_nset(cl->cl_days, 1, 31);","        bit_nset(cl->cl_days, 1, 30);")]),
 (['P33'],'bad','daily on one month',[(F,"        bit_set(cl->cl_hrs, 0);\n        bit_nset(cl->cl_days, 0, 31);\n        bit_nset(cl->cl_mons, 0, 11);\n        bit_nset(cl->cl_dow, 0, 7);","        bit_set(cl->cl_hrs, 0);\n        bit_nset(cl->cl_days, 0, 31);\n        bit_nset(cl->cl_mons, 0, 10);\n        bit_nset(cl->cl_dow, 0, 7);")]),
 (['P33'],'bad','annually lost',[(F,"             || strcmp(shortcut, \"annually\") == 0","")]),
 (['P33'],'bad','reboot keeps volatile',[(F,"        set_runatreboot(cl->cl_option);\n        set_runonce(cl->cl_option);\n        clear_volatile(cl->cl_option);","        set_runatreboot(cl->cl_option);\n        set_runonce(cl->cl_option);")]),
 (['P33'],'bad','reboot not once',[(F,"        set_runatreboot(cl->cl_option);\n        set_runonce(cl->cl_option);","        set_runatreboot(cl->cl_option);")]),
 (['P33'],'bad','env name with dash',[(F,"    while ((isalnum((int)*ptr) || *ptr == '_') && *ptr != '='","    while ((isalnum((int)*ptr) || *ptr == '_' || *ptr == '-') && *ptr != '='")]),
 (['P33'],'bad','MAILTO sets from',[(F,"            Set(default_line.cl_mailto, val);","            Set(default_line.cl_mailfrom, val);")]),
 (['P33'],'bad','options line leftovers ignored silently',[(F,"            if (ptr != NULL && *ptr != '\\0') {\n                fprintf(stderr, \"%s:%d: Syntax error: string","            if (ptr != NULL && *ptr == '#') {\n                fprintf(stderr, \"%s:%d: Syntax error: string")]),
 (['P33'],'bad','option error no correction in &',[(F," exiterr:\n    need_correction = 1;\n    free_line(cl);\n    return;\n\n}\n\n\nvoid\nread_period"," exiterr:\n    free_line(cl);\n    return;\n\n}\n\n\nvoid\nread_period")]),
 (['P33'],'bad','mismatched quotes accepted',[(F,"                file_name, line);\n        need_correction = 1;\n        return;\n    }\n\n    if (debug_opt)\n        fprintf(stderr, \"  Env","                file_name, line);\n        return;\n    }\n\n    if (debug_opt)\n        fprintf(stderr, \"  Env")]),
 (['P33'],'bad','inline user for anybody',[(F,"        if (getuid() != rootuid) {\n            fprintf(stderr, \"must be privileged to run as another","        if (getuid() == 65534) {\n            fprintf(stderr, \"must be privileged to run as another")]),
 (['P33'],'bad','line counted entries',[(F,"        case '&':\n            read_arys(ptr, cf);\n            entries++;","        case '&':\n            read_arys(ptr, cf);\n            read_arys(ptr, cf);\n            entries++;")]),
 (['P33'],'bad','comment only at col 0',[(F,"        case '&':\n            read_arys(ptr, cf);","        case '#': read_env(ptr, cf); break;\n        case '&':\n            read_arys(ptr, cf);")] if 0 else [(F,"        default:\n            if (isdigit((int)*ptr) || *ptr == '*') {","        default:\n            if (isdigit((int)*ptr)) {")]),
 (['P33'],'good','link by helper 2',[(F,"void\nread_freq(char *ptr, cf_t *cf)","static void\nvp_link(cf_t *cf, cl_t *cl)\n{\n    cl->cl_next = cf->cf_line_base;\n    cf->cf_line_base = cl;\n}\n\nvoid\nread_freq(char *ptr, cf_t *cf)"),(F,"    cl->cl_next = cf->cf_line_base;\n    cf->cf_line_base = cl;\n\n    if (debug_opt)\n        fprintf(stderr, \"  Cmd \\\"%s\\\", timefreq","    vp_link(cf, cl);\n\n    if (debug_opt)\n        fprintf(stderr, \"  Cmd \\\"%s\\\", timefreq")]),
 (['P30'],'bad','syslog msg as format',[(L,"        syslog(priority, \"%s\", msg);","        syslog(priority, msg);")]),
 (['P30'],'bad','file msg as format',[(L,"        fprintf(logfile, \"%s\\n\", msg);","        fprintf(logfile, msg);")]),
 (['P30'],'bad','append over',[(L,"(size_to_cat > 2) ? size_to_cat - 2 : 0","size_to_cat")]),
 (['P30'],'bad','buffer one short',[(L,"calloc(1, MAX_MSG + 1)","calloc(1, MAX_MSG)")]),
 (['P30'],'bad','truncated mark too far',[(L,"strcpy(msg + (MAX_MSG - 1) - sizeof(truncated), truncated)","strcpy(msg + (MAX_MSG + 3) - sizeof(truncated), truncated)")]),
 (['P30'],'bad','len unsigned wraps',[(L,"((MAX_MSG - len) > 0) ? (MAX_MSG - len) : 0","(size_t)(MAX_MSG - len)")]),
 (['P30'],'bad','vsnprintf not limited',[(L,"vsnprintf(msg, MAX_MSG + 1, fmt, args)","vsnprintf(msg, MAX_MSG + 100, fmt, args)")]),
]
