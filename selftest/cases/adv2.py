J='job.c'; M='fcron.c'; D='database.c'; C='conf.c'; S='save.c'; F='fcrontab.c'
CASES=[
 (['P11'],'bad','until of runfreq 2 ignored',[(D,"        if ((l->l_line->cl_until > 0 || l->l_line->cl_runfreq == 1)\n            && l->l_until > 0","        if (l->l_line->cl_until > 0\n            && l->l_until > 0")]),
 (['P11'],'bad','or load with unset threshold',[(D,"                    || l_avg[2] < l->l_line->cl_lavg[2])","                    || l_avg[2] <= l->l_line->cl_lavg[2])")]),
 (['P11'],'bad','serial skip ends the scan',[(D,"            is_serial(l->l_line->cl_option)) {\n            continue;","            is_serial(l->l_line->cl_option)) {\n            break;")]),
 (['P06'],'bad','until job not counted serial',[(D,"                debug(\"until '%s' %d\", l->l_line->cl_shell, l->l_until);\n                run_lavg_job(l);","                debug(\"until '%s' %d\", l->l_line->cl_shell, l->l_until);\n                run_queue_job(l->l_line);")]),
 (['P06'],'bad','numexe kept on expiry with nolog',[(D,"                /* remove this job from the lavg queue */\n                l->l_line->cl_numexe -= 1;","                /* remove this job from the lavg queue */\n                if (!is_nolog(l->l_line->cl_option))\n                    l->l_line->cl_numexe -= 1;")]),
 (['P11'],'bad','five minute load not scaled',[(D,"    l_avg[1] *= 10;\n","")]),
 (['P12'],'bad','remain not set back on runonce',[(D,"            j->j_line->cl_remain = j->j_line->cl_runfreq;\n\n            if (is_lavg","            if (!is_runonce(j->j_line->cl_option))\n                j->j_line->cl_remain = j->j_line->cl_runfreq;\n\n            if (is_lavg")]),
 (['P12'],'bad','serial lavg goes serial',[(D,"            if (is_lavg(j->j_line->cl_option))\n                add_lavg_job","            if (is_lavg(j->j_line->cl_option) && !is_serial(j->j_line->cl_option))\n                add_lavg_job")]),
 (['P12'],'bad','one skipped job ends the round',[(D,"            debug(\"    cl_remain: %d\", j->j_line->cl_remain);\n        }","            debug(\"    cl_remain: %d\", j->j_line->cl_remain);\n            set_next_exe(j->j_line, STD, -1);\n            return;\n        }")]),
 (['P12'],'bad','runonce by serial once',[(D,"            set_hasrun(j->j_line->cl_option);\n        }","            if (!is_serial(j->j_line->cl_option))\n                set_hasrun(j->j_line->cl_option);\n        }")]),
 (['P13'],'bad','numexe counted on failure',[(D,"            line->cl_numexe -= 1;\n            error_fd(info_fd, \"Job '%s' could not be started.\"","            error_fd(info_fd, \"Job '%s' could not be started.\"")]),
 (['P13'],'bad','notice on full lavg queue lost',[(D,"                 \"fcron's option -q.\", line->cl_shell, lavg_list->max_entries);\n        if (is_notice_notrun(line->cl_option))\n            mail_notrun(line, QUEUE_FULL, NULL);\n","                 \"fcron's option -q.\", line->cl_shell, lavg_list->max_entries);\n")]),
 (['P13'],'bad','strict wait uses later end',[(D,"(line->cl_until + now < end_of_cur_int)","(line->cl_until + now > end_of_cur_int)")]),
 (['P13'],'bad','strict with skip count',[(D,"    if (is_strict(line->cl_option) && line->cl_runfreq == 1) {\n        struct tm *ft;","    if (is_strict(line->cl_option)) {\n        struct tm *ft;")]),
 (['P17'],'bad','eintr not retried counts',[(S,"        written += return_val;","        written = return_val;")]),
 (['P17'],'bad','short write accepted',[(S,"    while (written < to_write) {","    while (written == 0 && to_write > 0) {"),(S,"    if (written == to_write) {\n        *buf_used = 0;","    if (written > 0 || to_write == 0) {\n        *buf_used = 0;")]),
 (['P17'],'bad','tmp left on write failure',[(S,"            error_e(\"save_one_file(%s): could not xclose(fd)\", filename);\n        remove_as_user(filename, own_uid, own_gid);\n        return ERR;\n    }\n\n    if (xclose(&fd) < 0)","            error_e(\"save_one_file(%s): could not xclose(fd)\", filename);\n        return ERR;\n    }\n\n    if (xclose(&fd) < 0)")]),
 (['P17'],'bad','failed save renamed',[(S,"        remove_as_user(filename, own_uid, own_gid);\n        return ERR;\n    }\n\n    if (xclose(&fd) < 0)","        return OK;\n    }\n\n    if (xclose(&fd) < 0)")]),
 (['P18'],'bad','removed before the comparison of failed load',[(C,"            if (read_file(file_name, cur_f, is_system_startup) != 0) {\n                /* an error as occured */\n                return;\n            }\n\n            /* assign","            if (read_file(file_name, cur_f, is_system_startup) > 0) {\n                /* an error as occured */\n                return;\n            }\n\n            /* assign")]),
 (['P18'],'bad','prefix user match',[(C,"            if (strcmp(user, cur_f->cf_user) == 0)\n                break;\n            prev","            if (strncmp(user, cur_f->cf_user, strlen(cur_f->cf_user)) == 0)\n                break;\n            prev")]),
 (['P18'],'good','old not moved first',[(C,"                prev->cf_next = old->cf_next;\n                old->cf_next = file_base;\n                file_base = old;","                prev->cf_next = old->cf_next;\n                old->cf_next = file_base->cf_next;\n                file_base->cf_next = old;")]),
 (['P18'],'bad','save only if lines',[(C,"            /* save final file, and then delete new.user file:\n             * if it could not be saved then new.user is the only valid copy */\n            if (save_file(cur_f) == OK &&","            /* save final file, and then delete new.user file:\n             * if it could not be saved then new.user is the only valid copy */\n            if ((cur_f->cf_line_base == NULL || save_file(cur_f) == OK) &&")]),
 (['P19'],'bad','days of week not compared',[(C,"            const size_t size = (bitstr_size(60) + bitstr_size(24) +\n                                 bitstr_size(32) + bitstr_size(12) +\n                                 bitstr_size(7));","            const size_t size = (bitstr_size(60) + bitstr_size(24) +\n                                 bitstr_size(32) + bitstr_size(12));")]),
 (['P19'],'bad','dayor ignored',[(C,"                                && is_dayor(new_l->cl_option) ==\n                                is_dayor(old_l->cl_option))","                                )")]),
 (['P19'],'bad','timefreq of td compared',[(C,"                        && ((is_freq(new_l->cl_option)\n                             && new_l->cl_timefreq == old_l->cl_timefreq)","                        && ((new_l->cl_timefreq == old_l->cl_timefreq)")]),
 (['P19'],'bad','remain kept though runfreq changed',[(C,"                        if (new_l->cl_runfreq == old_l->cl_runfreq)\n                            new_l","                        if (new_l->cl_runfreq >= old_l->cl_runfreq)\n                            new_l")]),
 (['P20'],'bad','lavg only first entry',[(C,"                debug(\"removing '%s' from lavg queue\", l->l_line->cl_shell);\n                lavg_list_remove_cur(lavg_list);","                debug(\"removing '%s' from lavg queue\", l->l_line->cl_shell);\n                lavg_list_remove_cur(lavg_list);\n                break;")]),
 (['P20'],'bad','serial compaction stops at the end',[(C,"            else if ((s_a[k] =\n                      serial_array[serial_array_index + i - serial_array_size])\n                     != NULL)\n                k++;","            else\n                break;")]),
 (['P20'],'bad','serial_array_index kept',[(C,"        serial_array = s_a;\n        serial_array_index = 0;","        serial_array = s_a;")]),
 (['P20'],'bad','running job keeps line when serial',[(C,"                    serial_running--;\n                else if","                    { serial_running--; continue; }\n                else if")]),
 (['P06'],'bad','count of serial lavg jobs',[(C,"                    lavg_serial_running--;\n                e->e_line","                    serial_running--;\n                e->e_line")]),
 (['P20'],'bad','jobs with runonce stay in schedule',[(C,"            job_queue_remove(line);\n\n            /* free line itself */","            if (!is_hasrun(line->cl_option) || !is_runonce(line->cl_option))\n                job_queue_remove(line);\n\n            /* free line itself */"),(C,"                            /* job has already run: remove from the queue */\n                            job_queue_remove(new_l);","                            /* job has already run: leave it */\n                            insert_nextexe(new_l);")]),
 (['P21'],'bad','growth copies wrong tail',[(D,"            memcpy(ptr + (old_size - serial_array_index), serial_array,","            memcpy(ptr + serial_array_index, serial_array,")]),
 (['P21'],'bad','index after growth kept',[(D,"            serial_array_index = 0;\n            Free_safe(serial_array);","            Free_safe(serial_array);")]),
 (['P21'],'bad','wrap off by one',[(D,"    if ((i = serial_array_index + serial_num) >= serial_array_size)\n        i -= serial_array_size;","    if ((i = serial_array_index + serial_num) > serial_array_size)\n        i -= serial_array_size;")]),
 (['P21'],'bad','failed start keeps cell',[(D,"        serial_array[serial_array_index] = NULL;\n\n        if (++","        if (line->cl_numexe > 0)\n            serial_array[serial_array_index] = NULL;\n\n        if (++")]),
 (['P22'],'bad','start from prev even if earlier',[(D,"    if (jprev == NULL || line->cl_nextexe < jprev->j_line->cl_nextexe) {","    if (jprev == NULL) {")]),
 (['P22'],'bad','single job queue duplicated',[(D,"    if (queue_base == NULL) {\n        /* no job in queue */\n        queue_base = newjob;\n        return;\n    }\n\n    jprev = job_queue_remove(line);","    jprev = job_queue_remove(line);\n    if (queue_base == NULL) {\n        /* no job in queue */\n        queue_base = newjob;\n        return;\n    }\n    if (jprev != NULL && jprev->j_next == NULL && jprev->j_line->cl_nextexe > line->cl_nextexe) jprev->j_next = newjob;\n")]),
]
CASES=[c for c in CASES if all(o!=n for _,o,n in c[3])]
