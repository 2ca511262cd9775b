C='conf.c'; D='database.c'
CASES=[
 (['P20'],'bad','lavg entries kept when running',[(C,"            if (l->l_line->cl_file == file) {","            if (l->l_line->cl_file == file && l->l_line->cl_numexe == 0) {")]),
 (['P20'],'bad','only first lavg entry',[(C,"                lavg_list_remove_cur(lavg_list);\n            }","                lavg_list_remove_cur(lavg_list);\n                break;\n            }")]),
 (['P20'],'bad','line freed in queue',[(C,"            job_queue_remove(line);\n","            if (line->cl_numexe == 0) job_queue_remove(line);\n")]),
 (['P20'],'bad','free before unqueue',[(C,"            job_queue_remove(line);\n\n            /* free line itself */\n            free_line(line);","            free_line(line);\n            job_queue_remove(line);")]),
 (['P20'],'bad','serial cells only queued part',[(C,"        for (i = 0; i < serial_array_size; i++)\n            if (serial_array[i] != NULL","        for (i = serial_array_index; i < serial_array_size; i++)\n            if (serial_array[i] != NULL")]),
 (['P20'],'bad','serial_num kept',[(C,"                serial_num--;\n                serial_array[i]->cl_numexe--;","                serial_array[i]->cl_numexe--;")]),
 (['P20'],'bad','compaction ignores index',[(C,"                if ((s_a[k] = serial_array[serial_array_index + i]) != NULL)","                if ((s_a[k] = serial_array[i]) != NULL)")]),
 (['P20'],'bad','index kept after compaction',[(C,"        serial_array = s_a;\n        serial_array_index = 0;","        serial_array = s_a;")]),
 (['P20'],'bad','e_line kept',[(C,"                e->e_line = NULL;\n","                if (e->e_job_pid <= 0) e->e_line = NULL;\n")]),
 (['P20'],'bad','running entry of other file',[(C,"            if (e->e_line != NULL && e->e_line->cl_file == file) {","            if (e->e_line != NULL) {")]),
 (['P20'],'bad','cleared line without cl_file test',[(C,"            if (serial_array[i] != NULL && serial_array[i]->cl_file == file) {","            if (serial_array[i] != NULL) {")]),
 (['P20'],'good','for loop over lines',[(C,"        cur_line = file->cf_line_base;\n        while ((line = cur_line) != NULL) {\n            cur_line = line->cl_next;","        for (line = file->cf_line_base; line != NULL; line = cur_line) {\n            cur_line = line->cl_next;")]),
 (['P20'],'good','helper for lavg',[(C,"void\ndelete_file(const char *user_name)","static void\nforget_lavg(cf_t *file)\n{\n    lavg_t *l;\n    for (l = lavg_list_first(lavg_list); l != NULL; l = lavg_list_next(lavg_list)) {\n        if (l->l_line->cl_file != file)\n            continue;\n        lavg_list_remove_cur(lavg_list);\n    }\n}\n\nvoid\ndelete_file(const char *user_name)"),
   (C,"""        for (l = lavg_list_first(lavg_list); l != NULL;
             l = lavg_list_next(lavg_list))
            if (l->l_line->cl_file == file) {
                debug("removing '%s' from lavg queue", l->l_line->cl_shell);
                lavg_list_remove_cur(lavg_list);
            }
""","        forget_lavg(file);\n")]),
 (['P21'],'bad','memcpy second part wrong place',[(D,"            memcpy(ptr + (old_size - serial_array_index), serial_array,","            memcpy(ptr + old_size, serial_array,")]),
 (['P21'],'bad','index kept on growth',[(D,"                   (sizeof(cl_t *) * serial_array_index));\n            serial_array_index = 0;","                   (sizeof(cl_t *) * serial_array_index));")]),
 (['P21'],'bad','wrap test off by one',[(D,"    if ((i = serial_array_index + serial_num) >= serial_array_size)\n        i -= serial_array_size;\n\n    serial_array[i] = line;","    if ((i = serial_array_index + serial_num) > serial_array_size)\n        i -= serial_array_size;\n\n    serial_array[i] = line;")]),
 (['P21'],'bad','pop wrap off by one',[(D,"        if (++serial_array_index >= serial_array_size)\n            serial_array_index -= serial_array_size;","        if (++serial_array_index > serial_array_size)\n            serial_array_index -= serial_array_size;")]),
 (['P21'],'bad','cell not cleared',[(D,"        serial_array[serial_array_index] = NULL;\n\n        if (++","        if (++")]),
 (['P21'],'bad','num not decremented on failure',[(D,"            serial_array_index -= serial_array_size;\n        serial_num--;","            serial_array_index -= serial_array_size;\n        if (line->cl_numexe > 0) serial_num--;")]),
 (['P21'],'bad','grown when not full',[(D,"    if (serial_num >= serial_array_size) {","    if (serial_num > serial_array_size) {")]),
 (['P21'],'good','modulo',[(D,"        if (++serial_array_index >= serial_array_size)\n            serial_array_index -= serial_array_size;","        serial_array_index = (serial_array_index + 1) % serial_array_size;")]),
 (['P21'],'good','loop copy',[(D,"            memcpy(ptr, serial_array + serial_array_index,\n                   (sizeof(cl_t *) * (old_size - serial_array_index)));\n            memcpy(ptr + (old_size - serial_array_index), serial_array,\n                   (sizeof(cl_t *) * serial_array_index));","            for (i = 0; i < old_size; i++)\n                ptr[i] = serial_array[(serial_array_index + i) % old_size];")]),
 (['P22'],'bad','not unlinked at head',[(D,"            else\n                /* first element of the list */\n                queue_base = j->j_next;","            else if (j->j_next != NULL)\n                /* first element of the list */\n                queue_base = j->j_next;")]),
 (['P22'],'bad','only backward',[(D,"    if (jprev == NULL || line->cl_nextexe < jprev->j_line->cl_nextexe) {","    if (jprev == NULL) {")]),
 (['P22'],'bad','insert at head lost',[(D,"    newjob->j_next = j;\n\n    if (jprev == NULL) {","    newjob->j_next = (jprev == NULL) ? NULL : j;\n\n    if (jprev == NULL) {")]),
 (['P22'],'bad','descending',[(D,"    while (j != NULL && (line->cl_nextexe >= j->j_line->cl_nextexe)) {","    while (j != NULL && (line->cl_nextexe <= j->j_line->cl_nextexe)) {")]),
 (['P22'],'bad','not removed first',[(D,"    jprev = job_queue_remove(line);\n\n    /* check if","    jprev = NULL;\n\n    /* check if")]),
 (['P12'],'bad','runonce job stays scheduled',[(D,"            job_queue_remove(j->j_line);","            ;")]),
 (['P22'],'bad','startup not inserted when reboot',[(D,"                cl->cl_nextexe = now;\n            }\n\n            insert_nextexe(cl);\n","                cl->cl_nextexe = now;\n            }\n\n            if (context == CONTEXT_BOOT) insert_nextexe(cl);\n")]),
 (['P22'],'good','insert rewritten',[(D,"    while (j != NULL && (line->cl_nextexe >= j->j_line->cl_nextexe)) {\n        jprev = j;\n        j = j->j_next;\n    }","    for (; j != NULL; jprev = j, j = j->j_next)\n        if (j->j_line->cl_nextexe > line->cl_nextexe)\n            break;")]),
 (['P22'],'good','always from the base',[(D,"    jprev = job_queue_remove(line);\n\n    /* check if","    (void)job_queue_remove(line);\n    jprev = NULL;\n\n    /* check if")]),
 (['P23'],'bad','interrupted also on resume',[(D,"    if (context != CONTEXT_RESUME && cl->cl_numexe > 0) {","    if (cl->cl_numexe > 0) {")]),
 (['P23'],'bad','strict requeued',[(D,"            if (!is_strict(cl->cl_option))\n                add_lavg_job(cl, -1);\n        }\n        else if (is_serial(cl->cl_option)\n","            add_lavg_job(cl, -1);\n        }\n        else if (is_serial(cl->cl_option)\n")]),
 (['P23'],'bad','numexe kept',[(D,"        cl->cl_numexe = 0;\n        if (is_runatreboot(","        if (!is_serial_once(cl->cl_option)) cl->cl_numexe = 0;\n        if (is_runatreboot(")]),
 (['P23'],'bad','interrupted not serial once',[(D,"            set_serial_once(cl->cl_option);\n            add_serial_job(cl, -1);\n        }\n    }\n","            add_serial_job(cl, -1);\n        }\n    }\n")]),
 (['P23'],'bad','hasrun not cleared for volatile',[(D,"        || (context == CONTEXT_DEFAULT && is_volatile(cl->cl_option))\n","")]),
 (['P23'],'bad','hasrun cleared on resume',[(D,"        || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {\n        clear_hasrun","        || context == CONTEXT_RESUME) {\n        clear_hasrun")]),
 (['P23'],'bad','runatreboot on any start',[(D,"        if ((context == CONTEXT_BOOT && is_runatreboot(cl->cl_option))\n            || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {\n            cl->cl_nextexe = now;","        if ((context != CONTEXT_RESUME && is_runatreboot(cl->cl_option))\n            || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {\n            cl->cl_nextexe = now;")]),
 (['P23'],'bad','bootrun for new files',[(D,"            else if (is_bootrun(cl->cl_option) && !is_new_file\n","            else if (is_bootrun(cl->cl_option)\n")]),
 (['P23'],'bad','bootrun skip count',[(D,"                if (cl->cl_remain > 0 && --cl->cl_remain > 0) {\n                    debug(\"    cl_remain: %d\", cl->cl_remain);\n                }\n                else {\n                    /* run bootrun","                if (--cl->cl_remain > 1) {\n                    debug(\"    cl_remain: %d\", cl->cl_remain);\n                }\n                else {\n                    /* run bootrun")]),
 (['P23'],'bad','notice after schedule',[(D,"                    time_t since = cl->cl_nextexe;\n\n                    set_next_exe(cl, NO_GOTO, -1);\n                    mail_notrun_time_t(cl, SYSDOWN, since);","                    time_t since;\n\n                    set_next_exe(cl, NO_GOTO, -1);\n                    since = cl->cl_nextexe;\n                    mail_notrun_time_t(cl, SYSDOWN, since);")]),
 (['P23'],'bad','rebootreset always',[(D,"                 || (context == CONTEXT_BOOT && (is_rebootreset(cl->cl_option)\n                                                 || is_runonce(cl->cl_option)))) {","                 || is_rebootreset(cl->cl_option)\n                 || (context == CONTEXT_BOOT && is_runonce(cl->cl_option))) {")]),
 (['P23'],'bad','no sleep offset',[(D,"                cl->cl_nextexe += sleep_duration;\n","                if (context != CONTEXT_RESUME) cl->cl_nextexe += sleep_duration;\n")]),
 (['P23'],'bad','resume reinserted',[(D,"            if (context != CONTEXT_RESUME) {\n                insert_nextexe(cl);","            if (context == CONTEXT_BOOT) {\n                insert_nextexe(cl);")]),
 (['P23'],'bad','lavg bootrun to serial',[(D,"                    if (!is_lavg(cl->cl_option)) {\n                        explain\n","                    if (!is_lavg(cl->cl_option) || is_serial(cl->cl_option)) {\n                        explain\n")]),
 (['P23'],'good','at boot helper',[(D,"void\nset_next_exe_startup(","static int\nruns_now(struct cl_t *cl, int context)\n{\n    if (context == CONTEXT_BOOT)\n        return is_runatreboot(cl->cl_option) != 0;\n    return context == CONTEXT_RESUME && is_runatresume(cl->cl_option);\n}\n\nvoid\nset_next_exe_startup("),
   (D,"        if ((context == CONTEXT_BOOT && is_runatreboot(cl->cl_option))\n            || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {\n            cl->cl_nextexe = now;","        if (runs_now(cl, context)) {\n            cl->cl_nextexe = now;")]),
 (['P23'],'good','swap arms',[(D,"            if (cl->cl_first == LONG_MAX) {\n                cl->cl_nextexe = TIME_T_MAX;\n            }\n            else {","            if (cl->cl_first == LONG_MAX)\n                cl->cl_nextexe = TIME_T_MAX;\n            if (cl->cl_first != LONG_MAX) {")]),
 (['P23'],'good','numexe reset late',[(D,"        cl->cl_numexe = 0;\n        if (is_runatreboot(cl->cl_option)) {\n            /* handled below */\n            ;\n        }\n        else if (is_lavg","        int reboot = is_runatreboot(cl->cl_option);\n\n        cl->cl_numexe = 0;\n        if (reboot) {\n            debug(\"handled below\");\n        }\n        else if (is_lavg")]),
]
