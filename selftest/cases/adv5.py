C='conf.c'; S='save.c'; D='database.c'
CASES=[
 (['P14'],'bad','remain cut to a byte',[(C,"cl->cl_remain = (unsigned short)bufi;","cl->cl_remain = (unsigned char)bufi;")]),
 (['P14'],'bad','timefreq short',[(C,"cl->cl_timefreq = (time_t) bufi;","cl->cl_timefreq = (unsigned short) bufi;")]),
 (['P14'],'bad','remain saved only if non zero and different',[(S,"            Save_lint(fd, S_REMAIN_T, line->cl_remain, write_buf,","            if (line->cl_remain != line->cl_runfreq) Save_lint(fd, S_REMAIN_T, line->cl_remain, write_buf,")]),
 (['P14'],'bad','nice saved only if positive',[(S,"if (line->cl_nice != 0)","if (line->cl_nice > 0)")]),
 (['P14'],'bad','lavg saved only for lor',[(S,"        if (is_lavg(line->cl_option))\n            Save_strn","        if (is_lor(line->cl_option))\n            Save_strn")]),
 (['P14'],'bad','days one byte short',[(S,"bitstr_size(32)","bitstr_size(31) - 1")]),
 (['P14'],'bad','dow 7 bits',[(S,"bitstr_size(8)","bitstr_size(7) - 1")]),
 (['P14'],'bad','mailto and runas swapped on save',[(S,"Save_str(fd, S_RUNAS_T, line->cl_runas,","Save_str(fd, S_RUNAS_T, line->cl_mailto,")]),
 (['P14'],'bad','until saved when runfreq',[(S,"if (line->cl_until > 0)","if (line->cl_until > 0 && line->cl_runfreq == 0)")]),
 (['P14'],'bad','tzdiff only if positive',[(S,"if (file->cf_tzdiff != 0)","if (file->cf_tzdiff > 0)")]),
 (['P14'],'bad','first saved from nextexe',[(S,"Save_lint(fd, S_FIRST_T, line->cl_first,","Save_lint(fd, S_FIRST_T, line->cl_nextexe,")]),
 (['P14'],'bad','end of line before jitter',[(S,"        /* This field *must* be the last of each line */\n        Save_type(fd, S_ENDLINE_T, write_buf, &write_buf_used);",""),(S,"        if (line->cl_jitter > 0) {","        Save_type(fd, S_ENDLINE_T, write_buf, &write_buf_used);\n        if (line->cl_jitter > 0) {")]),
 (['P14'],'good','numexe always saved',[(S,"        if (line->cl_numexe)\n            Save_strn","        if (line->cl_numexe > 0)\n            Save_strn")]),
 (['P14'],'bad','options beyond half kept',[(S,"(char *)line->cl_option, OPTION_SIZE,","(char *)line->cl_option, OPTION_SIZE / 2,")]),
 (['P14'],'bad','read_strn without end',[(C,"    (*str)[size] = '\\0';","    (*str)[size > 0 ? size - 1 : 0] = '\\0';")]),
 (['P15'],'bad','read bounds gone',[(C,"          if ( SIZE < 0 || (size_t)SIZE > sizeof(TO) \\\n               || read","          if ( SIZE < 0 \\\n               || read")]),
 (['P15'],'bad','read type ignores second',[(C,"    if (read(fd, size, sizeof(short int)) < (ssize_t) sizeof(short int))\n        goto err;\n\n    return OK;","    if (read(fd, size, sizeof(short int)) < 0)\n        goto err;\n\n    return OK;")]),
 (['P15'],'bad','unknown field one too many',[(C,"for (i = 0; i < size; i++)\n                    if (read","for (i = 0; i <= size; i++)\n                    if (read")]),
 (['P15'],'bad','error answers ok',[(C,"        Free_safe(cf->cf_user);\n    }\n\n    return ERR;\n\n}\n\n\nint\nadd_line","        Free_safe(cf->cf_user);\n    }\n\n    return (cf->cf_user == NULL) ? OK : ERR;\n\n}\n\n\nint\nadd_line")]),
 (['P15'],'bad','err keeps lines',[(C,"    if (cf->cf_line_base != NULL || cf->cf_env_list != NULL) {\n        /* insert","    if (cf->cf_line_base != NULL && cf->cf_env_list == NULL) {\n        /* insert")]),
 (['P15'],'bad','header version greater accepted',[(C,"read(fileno(ff), &bufi, size) < size || bufi != S_FILEVERSION)","read(fileno(ff), &bufi, size) < size || bufi < S_FILEVERSION)")]),
 (['P14'],'bad','endline keeps the same line',[(C,"                free_line(cl);\n            Alloc(cl, cl_t);\n            break;\n\n            /* default","                free_line(cl), cl = NULL;\n            if (cl == NULL) Alloc(cl, cl_t);\n            break;\n\n            /* default")]),
 (['P15'],'bad','time of save size unchecked',[(C,"        || size < 0 || (size_t) size > sizeof(t_save)\n","        || size < 0\n")]),
 (['P16'],'bad','non root file accepted',[(C,"            error(\"Non-new file %s owned by someone else than root\", file_name);\n            goto err;","            error(\"Non-new file %s owned by someone else than root\", file_name);\n            runas = rootuid;")]),
 (['P16'],'bad','new prefix shorter',[(C,"strncmp(file_name, \"new.\", 4) == 0","strncmp(file_name, \"new.\", 3) == 0")]),
 (['P16'],'bad','logname accepted',[(C,"                    || strcmp_until(envvar, \"LOGNAME\", '=') == 0) {",") {")]),
 (['P16'],'bad','mailto dash accepted',[(C,"    if (cl->cl_mailto && (*(cl->cl_mailto) == '-' ||\n                          strcspn","    if (cl->cl_mailto && (\n                          strcspn")]),
 (['P16'],'bad','mailfrom not unset',[(C,"        Free_safe(cl->cl_mailfrom);\n    }\n    if (cl->cl_mailto","    }\n    if (cl->cl_mailto")]),
 (['P16'],'good','override only on mismatch',[(C,"                 cl->cl_runas, runas_str);\n        Set(cl->cl_runas, runas_str);","                 cl->cl_runas, runas_str);\n        if (strcmp(cl->cl_runas, runas_str) != 0)\n            Set(cl->cl_runas, runas_str);")]),
 (['P16'],'bad','override only when empty',[(C,"                 cl->cl_runas, runas_str);\n        Set(cl->cl_runas, runas_str);","                 cl->cl_runas, runas_str);\n        if (cl->cl_runas[0] == '\\0')\n            Set(cl->cl_runas, runas_str);")]),
 (['P16'],'bad','owner from the file for small uid',[(C,"    if (runas != rootuid) {\n        /* we use file","    if (runas > 1000) {\n        /* we use file")]),
 (['P16'],'bad','timefreq zero accepted',[(C,"cl->cl_timefreq < 1","cl->cl_timefreq < 0")]),
 (['P16'],'bad','runas null accepted',[(C,"if (cl->cl_shell == NULL || cl->cl_runas == NULL || cl->cl_mailto == NULL) {","if (cl->cl_shell == NULL || cl->cl_mailto == NULL) {")]),
]
