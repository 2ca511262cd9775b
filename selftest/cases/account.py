D='database.c'
CASES=[
 (['P06'],'bad','normal job failure not undone',[(D,"""        else {
            line->cl_numexe -= 1;
            error_fd(""","""        else {
            error_fd(""")]),
 (['P06'],'bad','run_queue_job: cf_running before the test',[(D,"""    e.e_line = line;

    /* run""","""    e.e_line = line;
    line->cl_file->cf_running += 1;

    /* run"""),(D,"        line->cl_file->cf_running += 1;\n        return OK;","        return OK;")]),
 (['P06'],'bad','wait_chld forgets cf_running',[(D,"                    line->cl_numexe -= 1;\n                    line->cl_file->cf_running -= 1;\n","                    line->cl_numexe -= 1;\n")]),
 (['P06'],'bad','wait_chld lavg serial order',[(D,"""                    else if (is_serial(line->cl_option)
                             && !is_lavg(line->cl_option)) {""","""                    else if (is_serial(line->cl_option)) {""")]),
 (['P06'],'bad','wait_all no serial',[(D,"""                    else if (is_serial(e->e_line->cl_option)
                             && !is_lavg(e->e_line->cl_option))
                        serial_running--;
""","")]),
 (['P06'],'bad','wait_chld unlock only',[(D,"                exe_list_remove_cur(exe_list);\n                exe_list_end_iteration(exe_list);\n                break;\n            }\n        }\n\n    }\n\n}\n\n\nvoid\nwait_all","                if (e->e_line != NULL)\n                    exe_list_end_iteration(exe_list);\n                else {\n                    exe_list_remove_cur(exe_list);\n                    exe_list_end_iteration(exe_list);\n                }\n                break;\n            }\n        }\n\n    }\n\n}\n\n\nvoid\nwait_all")]),
 (['P06'],'bad','delete_file: serial once forgotten',[("conf.c","""                if ((is_serial(e->e_line->cl_option) ||
                     is_serial_once(e->e_line->cl_option)) &&""","""                if (is_serial(e->e_line->cl_option) &&""")]),
 (['P06'],'bad','delete_file: serial_num',[("conf.c","                serial_num--;\n","")]),
 (['P06'],'bad','queue full counted',[(D,"""    lavg_entry = lavg_list_add_line(lavg_list, line);
""","""    line->cl_numexe += 1;
    lavg_entry = lavg_list_add_line(lavg_list, line);
"""),(D,"""    line->cl_numexe += 1;
    set_run_if_late(line->cl_option);""","""    set_run_if_late(line->cl_option);""")]),
 (['P06'],'bad','lavg exceed not decremented for notice',[(D,"""                    set_next_exe_notrun(l->l_line, LAVG);
                else
                    set_next_exe(l->l_line, NO_GOTO_LOG, -1);

                /* remove this job from the lavg queue */
                l->l_line->cl_numexe -= 1;""","""                    set_next_exe_notrun(l->l_line, LAVG);
                else {
                    set_next_exe(l->l_line, NO_GOTO_LOG, -1);
                    l->l_line->cl_numexe -= 1;
                }
""")]),
 (['P06'],'bad','startup strict lavg',[(D,"        cl->cl_numexe = 0;\n        if (is_runatreboot(cl->cl_option)) {\n            /* handled below */\n            ;\n        }","        if (!is_strict(cl->cl_option)) cl->cl_numexe = 0;\n        if (is_runatreboot(cl->cl_option)) {\n            cl->cl_numexe = 0;\n        }")]),
 (['P06'],'bad','routing serial lavg',[(D,"            if (is_lavg(j->j_line->cl_option))\n                add_lavg_job(j->j_line, -1);\n            else if (is_serial(j->j_line->cl_option))\n                add_serial_job(j->j_line, -1);","            if (is_serial(j->j_line->cl_option))\n                add_serial_job(j->j_line, -1);\n            else if (is_lavg(j->j_line->cl_option))\n                add_lavg_job(j->j_line, -1);")]),
 (['P06'],'good','release helper',[(D,"void\nwait_all(int *counter)","""static void
release(cl_t *l)
{
    const int s = is_serial(l->cl_option);

    l->cl_file->cf_running--;
    l->cl_numexe--;
    if (is_serial_once(l->cl_option)) {
        clear_serial_once(l->cl_option);
        serial_running -= 1;
        return;
    }
    if (!s)
        return;
    if (is_lavg(l->cl_option))
        lavg_serial_running -= 1;
    else
        serial_running -= 1;
}

void
wait_all(int *counter)"""),(D,"""                    e->e_line->cl_numexe -= 1;
                    e->e_line->cl_file->cf_running -= 1;

                    if (is_serial_once(e->e_line->cl_option)) {
                        clear_serial_once(e->e_line->cl_option);
                        serial_running--;
                    }
                    else if (is_serial(e->e_line->cl_option)
                             && !is_lavg(e->e_line->cl_option))
                        serial_running--;
                    else if (is_lavg(e->e_line->cl_option)
                             && is_serial(e->e_line->cl_option))
                        lavg_serial_running--;
""","                    release(e->e_line);\n")]),
 (['P06'],'good','count after success',[(D,"        line->cl_numexe += 1;\n        if (run_queue_job(line) == OK)\n            send_msg_fd(","        if (run_queue_job(line) == OK) {\n            line->cl_numexe += 1;\n            send_msg_fd("),(D,"""started.", line->cl_shell);
        else {
            line->cl_numexe -= 1;
""","""started.", line->cl_shell);
        }
        else {
""")]),
 (['P06'],'good','switch routing',[(D,"            if (is_lavg(j->j_line->cl_option))\n                add_lavg_job(j->j_line, -1);\n            else if (is_serial(j->j_line->cl_option))\n                add_serial_job(j->j_line, -1);\n            else\n                run_normal_job(j->j_line, -1);","            if (!is_lavg(j->j_line->cl_option)) {\n                if (!is_serial(j->j_line->cl_option))\n                    run_normal_job(j->j_line, -1);\n                else\n                    add_serial_job(j->j_line, -1);\n            }\n            else\n                add_lavg_job(j->j_line, -1);")]),
]
