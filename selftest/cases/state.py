F='fcron.c'
W="            wait_all(&f->cf_running);\n            /* jobs of other files may have terminated in the meantime */\n            save_file(NULL);\n"
L="""        check_signal();

        while (serial_num > 0 && serial_running < serial_max_running) {
            run_serial_job();
        }

        nwt = check_lavg(save);
"""
T="""        test_jobs();
        debug_print_tstamp("    after test_jobs");

        while (serial_num > 0 && serial_running < serial_max_running) {
            run_serial_job();
        }
"""
SV="""        if (save <= now) {
            save = now + save_time;
            /* save all files */
            save_file(NULL);
        }
"""
CASES=[
 (['P05'],'bad','xexit saves only f',[(F,W,W.replace('NULL','f'))]),
 (['P05'],'bad','xexit no save after wait',[(F,W,"            wait_all(&f->cf_running);\n")]),
 (['P05'],'bad','xexit save after wait only',[(F,"     * if we don't exit quickly */\n    save_file(NULL);\n","     * if we don't exit quickly */\n"),(F,"        delete_file(f->cf_user);\n\n        /* delete_file remove the f","        save_file(NULL);\n        delete_file(f->cf_user);\n\n        /* delete_file remove the f")]),
 (['P05'],'bad','reload save before wait',[('conf.c',"        if (f->cf_running > 0)\n            wait_all(&f->cf_running);\n        save_file(f);\n        delete","        save_file(f);\n        if (f->cf_running > 0)\n            wait_all(&f->cf_running);\n        delete")]),
 (['P05'],'bad','save_file stops on error',[('conf.c','        if (save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now)\n            != OK)\n            rc = ERR;','        if (save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now) != OK) {\n            rc = ERR;\n            break;\n        }')]),
 (['P05'],'bad','save_file skips running',[('conf.c','        if (save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now)\n            != OK)\n            rc = ERR;','        if (file->cf_running == 0) save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now);')]),
 (['P05'],'bad','periodic save wrong way',[(F,"        if (save <= now) {\n","        if (save > now) {\n")]),
 (['P05'],'bad','periodic save one file',[(F,"            /* save all files */\n            save_file(NULL);","            /* save all files */\n            save_file(file_base);")]),
 (['P05'],'bad','periodic save when idle only',[(F,"        if (save <= now) {\n","        if (save <= now && serial_running == 0) {\n")]),
 (['P05'],'good','periodic save in helper',[(F,"void\nmain_loop()","static time_t\nmaybe_save(time_t due)\n{\n    if (now >= due) {\n        due = now + save_time;\n        save_file(NULL);\n    }\n    return due;\n}\n\nvoid\nmain_loop()"),(F,SV,"        save = maybe_save(save);\n")]),
 (['P05'],'good','periodic save in helper by pointer',[(F,"void\nmain_loop()","static void\nmaybe_save(time_t *due)\n{\n    if (*due > now)\n        return;\n        *due = now + save_time;\n        save_file(NULL);\n}\n\nvoid\nmain_loop()"),(F,SV,"        maybe_save(&save);\n")]),
 (['P05'],'good','xexit for loop + helper',[(F,"void\nxexit(int exit_value)","static void\nforget_first(cf_t *f)\n{\n        if (f->cf_running > 0) {\n            wait_all(&f->cf_running);\n            save_file(NULL);\n        }\n        delete_file(f->cf_user);\n}\n\nvoid\nxexit(int exit_value)"),
   (F,"    f = file_base;\n    while (f != NULL) {\n        if (f->cf_running > 0) {\n            /* */\n            debug(\"waiting jobs for %s ...\", f->cf_user);\n            /* */\n"+W+"        }\n        delete_file(f->cf_user);\n","    while ((f = file_base) != NULL) {\n        forget_first(f);\n")]),
 (['P05'],'good','save_file while loop',[('conf.c',"    for (file = start_file; file; file = file->cf_next) {\n\n        debug(\"Saving","    file = start_file;\n    while (file != NULL) {\n\n        debug(\"Saving"),('conf.c',"            /* we have to save only a single file */\n            break;\n","            /* we have to save only a single file */\n            break;\n        file = file->cf_next;\n")]),
 (['P07'],'bad','signals after lavg',[(F,L,L.replace("        check_signal();\n","",1)+"        check_signal();\n")]),
 (['P07'],'bad','no second drain',[(F,L,"        check_signal();\n        nwt = check_lavg(save);\n")]),
 (['P07'],'bad','drain one only',[(F,L,L.replace("while","if"))]),
 (['P07'],'bad','lavg wake before set_next_exe',[('database.c',"    time_t nwt = now;\n    lavg_t *l = NULL;\n","    time_t nwt = now;\n    lavg_t *l = NULL;\n    nwt = next_wake_time(lim);\n"),('database.c',"    /* we do this set here as the nextexe of lavg line may change before */\n    nwt = next_wake_time(lim);\n","")]),
 (['P07'],'bad','drain bound strict',[(F,L,L.replace("serial_running < serial_max_running","serial_running + 1 < serial_max_running"))]),
 (['P07'],'good','drain helper',[(F,"void\nmain_loop()","static void\ndrain(void)\n{\n    for (;;) {\n        if (serial_num <= 0 || serial_running >= serial_max_running)\n            return;\n        run_serial_job();\n    }\n}\n\nvoid\nmain_loop()"),(F,L,"        check_signal();\n        drain();\n        nwt = check_lavg(save);\n")]),
 (['P07'],'good','drain predicate helper',[(F,"void\nmain_loop()","static int\nroom(void)\n{\n    return serial_num > 0 && serial_max_running > serial_running;\n}\n\nvoid\nmain_loop()"),(F,L,"        check_signal();\n        while (room())\n            run_serial_job();\n        nwt = check_lavg(save);\n")]),
 (['P07'],'good','first drain dropped',[(F,T,"        test_jobs();\n")]),
]
