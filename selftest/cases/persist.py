S='save.c'; C='conf.c'
CASES=[
 (['P14'],'bad','jitter not saved',[(S,"        if (line->cl_jitter > 0) {","        if (line->cl_jitter > 127) {")]),
 (['P14'],'bad','remain saved as runfreq',[(S,"            Save_lint(fd, S_REMAIN_T, line->cl_remain, write_buf,","            Save_lint(fd, S_REMAIN_T, line->cl_runfreq, write_buf,")]),
 (['P14'],'bad','lavg saved short',[(S,"            Save_strn(fd, S_LAVG_T, (char *)line->cl_lavg, LAVG_SIZE,","            Save_strn(fd, S_LAVG_T, (char *)line->cl_lavg, 2,")]),
 (['P14'],'bad','nice only if positive',[(S,"        if (line->cl_nice != 0)","        if (line->cl_nice > 0)")]),
 (['P14'],'bad','days as 31 bits',[(S,"bitstr_size(32),","bitstr_size(24),")]),
 (['P14'],'bad','first read in nextexe',[(C,"            cl->cl_first = (time_t) bufi;\n            has_read_cl_first = 1;","            cl->cl_nextexe = (time_t) bufi;\n            has_read_cl_first = 1;")]),
 (['P14'],'bad','until truncated',[(C,"            cl->cl_until = (time_t) bufi;","            cl->cl_until = (unsigned short) bufi;")]),
 (['P14'],'bad','tz swapped with mailfrom',[(C,"            Read_strn(cl->cl_tz, size,","            Read_strn(cl->cl_mailfrom, size,")]),
 (['P14'],'bad','env not all',[(S,"         env != NULL; env = env_list_next(file->cf_env_list)) {","         env != NULL; env = NULL) {")]),
 (['P14'],'bad','endline only when freq',[(S,"        /* This field *must* be the last of each line */\n        Save_type","        if (is_freq(line->cl_option) || line->cl_next)\n        Save_type")]),
 (['P14'],'bad','env after lines',[(S,"    /*   env variables, */\n    for (env = env_list_first(file->cf_env_list);\n         env != NULL; env = env_list_next(file->cf_env_list)) {\n        if (save_str(fd, S_ENVVAR_T, env->e_envvar, write_buf,\n                     &write_buf_used) != OK) {\n            error_e(\"Could not write env var : file %s has not been saved.\",\n                    file->cf_user);\n            /* otherwise we would die at the next use of that list */\n            env_list_end_iteration(file->cf_env_list);\n            return ERR;\n        }\n    }\n\n",""),(S,"        Save_type(fd, S_ENDLINE_T, write_buf, &write_buf_used);\n    }\n","        Save_type(fd, S_ENDLINE_T, write_buf, &write_buf_used);\n    }\n    for (env = env_list_first(file->cf_env_list);\n         env != NULL; env = env_list_next(file->cf_env_list)) {\n        Save_str(fd, S_ENVVAR_T, env->e_envvar, write_buf, &write_buf_used);\n    }\n")]),
 (['P14'],'good','bits helper',[(S,"int\nwrite_file_to_disk(","static int\nput_bits(int fd, short int t, bitstr_t *b, int n, char *write_buf, int *used)\n{\n    return save_strn(fd, t, (char *)b, bitstr_size(n), write_buf, used);\n}\n\nint\nwrite_file_to_disk("),
   (S,"            Save_strn(fd, S_HRS_T, (char *)line->cl_hrs, bitstr_size(24),\n                      write_buf, &write_buf_used);","            if (put_bits(fd, S_HRS_T, line->cl_hrs, 24, write_buf, &write_buf_used) != OK)\n                return ERR;")]),
 (['P14'],'good','line helper and while',[(S,"        if (line->cl_runfreq > 0) {\n            Save_lint(fd, S_RUNFREQ_T, line->cl_runfreq, write_buf,\n                      &write_buf_used);\n            Save_lint(fd, S_REMAIN_T, line->cl_remain, write_buf,\n                      &write_buf_used);\n        }","        if (line->cl_runfreq > 0) {\n            long int v = line->cl_remain;\n            Save_lint(fd, S_REMAIN_T, v, write_buf,\n                      &write_buf_used);\n            v = line->cl_runfreq;\n            Save_lint(fd, S_RUNFREQ_T, v, write_buf,\n                      &write_buf_used);\n        }")]),
 (['P14'],'good','until != 0',[(S,"        if (line->cl_until > 0)","        if (!(line->cl_until <= 0))")]),
 (['P15'],'bad','size unchecked mins',[(C,"            Read(cl->cl_mins, size,","            if (read(fileno(ff), cl->cl_mins, size) < size) goto err;\n            if (0) Read(cl->cl_mins, size,")]),
 (['P15'],'bad','version not compared',[(C,"        read(fileno(ff), &bufi, size) < size || bufi != S_FILEVERSION) {","        read(fileno(ff), &bufi, size) < size || bufi > S_FILEVERSION) {")]),
 (['P15'],'bad','user type not enforced',[(C,"    if (read_type(fileno(ff), &type, &size) != OK || type != S_USER_T) {","    if (read_type(fileno(ff), &type, &size) != OK) {")]),
 (['P15'],'bad','err returns ok',[(C,"        Free_safe(cf->cf_user);\n    }\n\n    return ERR;","        Free_safe(cf->cf_user);\n        return OK;\n    }\n\n    return ERR;")]),
 (['P15'],'bad','not removed when only env',[(C,"    if (cf->cf_line_base != NULL || cf->cf_env_list != NULL) {\n        /* insert","    if (cf->cf_line_base != NULL) {\n        /* insert")]),
 (['P15'],'bad','deletes other version',[(C,"        cf->cf_next = file_base;\n        file_base = cf;\n\n        delete_file(cf->cf_user);\n\n    }","        delete_file(cf->cf_user);\n        cf->cf_next = file_base;\n        file_base = cf;\n\n    }")]),
 (['P15'],'bad','short read accepted',[(C,"    if (read(fd, *str, size) < size)","    if (read(fd, *str, size) < 0)")]),
 (['P15'],'good','read helper',[(C,"int\nread_file(const char *file_name, cf_t *cf, int is_system_startup)\n","static int\nbad_size(short int size, size_t max)\n{\n    return size < 0 || (size_t)size > max;\n}\n\nint\nread_file(const char *file_name, cf_t *cf, int is_system_startup)\n"),(C,"        || size < 0 || (size_t) size > sizeof(t_save)\n","        || bad_size(size, sizeof(t_save))\n")]),
 (['P15'],'good','long reader',[(C,"            Read(bufi, size, \"Error while reading until field\");","            if (size < 0 || size > (int)sizeof(bufi))\n                goto err;\n            if (read(fileno(ff), &bufi, size) != size)\n                goto err;")]),
 (['P16'],'bad','stat by name',[(C,"    rc = fstat(fileno(ff), &file_stat);","    rc = stat(file_name, &file_stat);")]),
 (['P16'],'bad','non-new any owner',[(C,"            error(\"Non-new file %s owned by someone else than root\", file_name);\n            goto err;","            warn(\"Non-new file %s owned by someone else than root\", file_name);\n            runas = file_stat.st_uid;")]),
 (['P16'],'bad','user of file kept',[(C,"        Free_safe(cf->cf_user);\n        cf->cf_user = runas_str;","        Free_safe(runas_str);\n        runas_str = cf->cf_user;")]),
 (['P16'],'bad','runas only if root job',[(C,"            warn(\"warning: runas(%s) is not owner (%s): overridden.\",\n                 cl->cl_runas, runas_str);\n        Set(cl->cl_runas, runas_str);","            warn(\"warning: runas(%s) is not owner (%s): overridden.\",\n                 cl->cl_runas, runas_str);\n        if (strcmp(cl->cl_runas, \"root\") == 0) Set(cl->cl_runas, runas_str);")]),
 (['P16'],'bad','logname allowed',[(C,"                    || strcmp_until(envvar, \"LOGNAME\", '=') == 0) {","                    || strcmp_until(envvar, \"LOGNAM\", '=') == 0) {")]),
 (['P16'],'bad','mailto dash allowed',[(C,"    if (cl->cl_mailto && (*(cl->cl_mailto) == '-' ||\n                          strcspn","    if (cl->cl_mailto && (\n                          strcspn")]),
 (['P16'],'bad','mailto not needed',[(C,"cl->cl_runas == NULL || cl->cl_mailto == NULL) {","cl->cl_runas == NULL) {")]),
 (['P16'],'bad','timefreq after schedule',[(C,"        cl->cl_timefreq = 3600 * 24;\n    }\n\n    set_next_exe_startup(cl, is_system_startup ? CONTEXT_BOOT : CONTEXT_DEFAULT,\n                         sleep_duration);","    }\n\n    set_next_exe_startup(cl, is_system_startup ? CONTEXT_BOOT : CONTEXT_DEFAULT,\n                         sleep_duration);\n    if (!is_td(cl->cl_option) && cl->cl_timefreq < 1) cl->cl_timefreq = 3600 * 24;")]),
 (['P16'],'bad','timefreq zero ok',[(C,"    if (!is_td(cl->cl_option) && cl->cl_timefreq < 1) {","    if (!is_td(cl->cl_option) && cl->cl_timefreq < 0) {")]),
 (['P16'],'good','unsafe helper',[(C,"int\nadd_line_to_file(","static int\nunsafe_addr(const char *s)\n{\n    size_t ok;\n    if (s[0] == '-')\n        return 1;\n    ok = strcspn(s, \" \\t\\n;|\");\n    return s[ok] != '\\0';\n}\n\nint\nadd_line_to_file("),(C,"    if (cl->cl_mailto && (*(cl->cl_mailto) == '-' ||\n                          strcspn(cl->cl_mailto,\n                                  \" \\t\\n;|\") != strlen(cl->cl_mailto))) {","    if (cl->cl_mailto && unsafe_addr(cl->cl_mailto)) {")]),
 (['P16'],'good','always override',[(C,"        if (strcmp(cl->cl_runas, runas_str) != 0)\n            warn(\"warning: runas(%s) is not owner (%s): overridden.\",\n                 cl->cl_runas, runas_str);\n        Set(cl->cl_runas, runas_str);","        if (strcmp(cl->cl_runas, runas_str) != 0) {\n            warn(\"warning: runas(%s) is not owner (%s): overridden.\",\n                 cl->cl_runas, runas_str);\n            Set(cl->cl_runas, runas_str);\n        }")]),
 (['P17'],'bad','no fdatasync',[(S,"    if (fdatasync(fd) < 0) {","    if (0) {")]),
 (['P17'],'bad','fdatasync result ignored',[(S,"        error_e(\"could not fdatasync() %s's fcrontab\", file->cf_user);\n        return ERR;","        error_e(\"could not fdatasync() %s's fcrontab\", file->cf_user);")]),
 (['P17'],'bad','partial write restart',[(S,"        return_val = write(fd, (write_buf + written), to_write - written);","        return_val = write(fd, write_buf, to_write - written);")]),
 (['P17'],'bad','temp left',[(S,"            error_e(\"save_one_file(%s): could not xclose(fd)\", filename);\n        remove_as_user(filename, own_uid, own_gid);\n        return ERR;\n    }\n\n    if (xclose(&fd) < 0)","            error_e(\"save_one_file(%s): could not xclose(fd)\", filename);\n        return ERR;\n    }\n\n    if (xclose(&fd) < 0)")]),
 (['P17'],'bad','save_data drops error',[(S,"            if (write_buf_to_disk(fd, write_buf, buf_used) == ERR)\n                return ERR;\n            continue;","            write_buf_to_disk(fd, write_buf, buf_used);\n            continue;")]),
 (['P17'],'bad','write to final',[(S,"    if (save_one_file(file, temp_path, own_uid","    if (save_one_file(file, final_path, own_uid")]),
 (['P17'],'good','fsync and for',[(S,"    if (fdatasync(fd) < 0) {","    if (fsync(fd) != 0) {"),(S,"    if (write_buf_to_disk(fd, write_buf, &write_buf_used) == ERR) {\n        error\n","    if (write_buf_to_disk(fd, write_buf, &write_buf_used) != OK) {\n        error\n")]),
 (['P18'],'bad','delete before load',[(C,"            if (read_file(file_name, cur_f, is_system_startup) != 0) {\n                /* an error as occured */\n                return;\n            }\n\n            /* insert the file in the list */\n            cur_f->cf_next = file_base;\n            file_base = cur_f;\n\n            /* save as","            delete_file(user);\n            if (read_file(file_name, cur_f, is_system_startup) != 0) {\n                /* an error as occured */\n                return;\n            }\n\n            /* insert the file in the list */\n            cur_f->cf_next = file_base;\n            file_base = cur_f;\n\n            /* save as")]),
 (['P18'],'bad','removed if save fails',[(C,"            if (save_file(cur_f) == OK && remove(file_name) != 0)\n                error_e(\"could not remove %s\", file_name);\n\n        }","            save_file(cur_f);\n            if (remove(file_name) != 0)\n                error_e(\"could not remove %s\", file_name);\n\n        }")]),
 (['P18'],'bad','others lost',[(C,"            /* insert the file in the list */\n            cur_f->cf_next = file_base;\n            file_base = cur_f;\n\n            /* save as","            /* insert the file in the list */\n            file_base = cur_f;\n\n            /* save as")]),
 (['P18'],'bad','not saved',[(C,"            if (save_file(cur_f) == OK && remove(file_name) != 0)\n                error_e(\"could not remove %s\", file_name);\n\n        }","            if (remove(file_name) != 0)\n                error_e(\"could not remove %s\", file_name);\n\n        }")]),
]
CASES += [
 (['P18','P19'],'good','condition split',[(C,"            if (save_file(cur_f) == OK && remove(file_name) != 0)\n                error_e(\"could not remove %s\", file_name);\n\n        }","            if (save_file(cur_f) != OK)\n                return;\n            if (remove(file_name) != 0)\n                error_e(\"could not remove %s\", file_name);\n\n        }")]),
 (['P18','P19'],'good','match helper',[(C,"void\nsynchronize_file(","static int\nsame_job(cl_t *a, cl_t *b, size_t size)\n{\n    if (strcmp(a->cl_shell, b->cl_shell) != 0)\n        return 0;\n    if (is_freq(a->cl_option))\n        return a->cl_timefreq == b->cl_timefreq;\n    if (is_dayor(a->cl_option) != is_dayor(b->cl_option))\n        return 0;\n    return memcmp(&(b->cl_mins), &(a->cl_mins), size) == 0;\n}\n\nvoid\nsynchronize_file("),
  (C,"                    if (strcmp(new_l->cl_shell, old_l->cl_shell) == 0\n                        && ((is_freq(new_l->cl_option)\n                             && new_l->cl_timefreq == old_l->cl_timefreq)\n                            || (is_td(new_l->cl_option)\n                                && memcmp(&(new_l->cl_mins), &(old_l->cl_mins),\n                                          size) == 0\n                                && is_dayor(new_l->cl_option) ==\n                                is_dayor(old_l->cl_option))\n                        )) {","                    if (same_job(new_l, old_l, size)) {")]),
 (['P18','P19'],'good','tz temp',[(C,"                        if ((new_l->cl_file->cf_tzdiff !=\n                             old_l->cl_file->cf_tzdiff) &&\n                            (old_l->cl_nextexe - old_l->cl_file->cf_tzdiff\n                             + new_l->cl_file->cf_tzdiff > now))\n                            new_l->cl_nextexe = old_l->cl_nextexe\n                                - old_l->cl_file->cf_tzdiff +\n                                new_l->cl_file->cf_tzdiff;\n                        else\n                            new_l->cl_nextexe = old_l->cl_nextexe;","                        {\n                            time_t nx = old_l->cl_nextexe - old->cf_tzdiff + cur_f->cf_tzdiff;\n                            new_l->cl_nextexe = nx > now ? nx : old_l->cl_nextexe;\n                        }")]),
 (['P19'],'bad','dow not compared',[(C,"                                 bitstr_size(7));","                                 0);")]),
 (['P19'],'bad','dayor ignored',[(C,"                                          size) == 0\n                                && is_dayor(new_l->cl_option) ==\n                                is_dayor(old_l->cl_option))","                                          size) == 0)")]),
 (['P19'],'bad','remain always',[(C,"                        if (new_l->cl_runfreq == old_l->cl_runfreq)\n                            new_l->cl_remain","                        new_l->cl_remain")]),
 (['P19'],'bad','hasrun lost',[(C,"                            set_hasrun(new_l->cl_option);\n                            /* job","                            /* job")]),
 (['P19'],'bad','runonce of old ignored',[(C,"                        if (is_runonce(new_l->cl_option)\n                            && is_runonce(old_l->cl_option)\n","                        if (is_runonce(new_l->cl_option)\n")]),
 (['P19'],'bad','not requeued',[(C,"                            /* update the position in the queue */\n                            insert_nextexe(new_l);","                            ;")]),
 (['P19'],'bad','timefreq ignored',[(C,"                             && new_l->cl_timefreq == old_l->cl_timefreq)","                             )")]),
]
