J='job.c'; M='fcron.c'; D='database.c'; C='conf.c'; S='save.c'; F='fcrontab.c'; A='allow.c'; U='subs.c'; FS='filesubs.c'
CASES=[
 (['P23'],'bad','hasrun cleared by any resume',[(D,"        || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {\n        clear_hasrun","        || (context == CONTEXT_RESUME && is_runatreboot(cl->cl_option))) {\n        clear_hasrun")]),
 (['P23'],'bad','interrupted lavg strict added',[(D,"            if (!is_strict(cl->cl_option))\n                add_lavg_job(cl, -1);","            add_lavg_job(cl, -1);")]),
 (['P23'],'bad','interrupted serial once only',[(D,"        else if (is_serial(cl->cl_option)\n                 || is_serial_once(cl->cl_option))\n            add_serial_job(cl, -1);\n        else {\n            /* job has been stopped","        else if (is_serial(cl->cl_option))\n            add_serial_job(cl, -1);\n        else if (!is_serial_once(cl->cl_option)) {\n            /* job has been stopped")]),
 (['P23'],'good','bootrun counts remain twice',[(D,"                if (cl->cl_remain > 0 && --cl->cl_remain > 0) {\n                    debug(\"    cl_remain: %d\", cl->cl_remain);\n                }\n                else {\n                    /* run bootrun","                if (cl->cl_remain > 1 && --cl->cl_remain > 0) {\n                    debug(\"    cl_remain: %d\", cl->cl_remain);\n                }\n                else {\n                    /* run bootrun")]),
 (['P23'],'bad','bootrun of new file',[(D,"            else if (is_bootrun(cl->cl_option) && !is_new_file\n","            else if (is_bootrun(cl->cl_option)\n")]),
 (['P23'],'bad','sleep added at boot reset',[(D,"                cl->cl_nextexe = now + cl->cl_first;","                cl->cl_nextexe = now + cl->cl_first + (context == CONTEXT_RESUME ? sleep_duration : 0);")]),
 (['P23'],'bad','first max wraps',[(D,"            if (cl->cl_first == LONG_MAX) {\n                cl->cl_nextexe = TIME_T_MAX;\n            }","            if (cl->cl_first == LONG_MAX) {\n                cl->cl_nextexe = now + cl->cl_timefreq;\n            }")]),
 (['P23'],'bad','resume overdue waits a period',[(D,"                if (cl->cl_nextexe < now && context == CONTEXT_RESUME) {","                if (cl->cl_nextexe < now && context == CONTEXT_BOOT) {")]),
 (['P23'],'bad','runonce not on rebootreset',[(D,"(context == CONTEXT_BOOT && (is_rebootreset(cl->cl_option)\n                                                 || is_runonce(cl->cl_option)))","(context == CONTEXT_BOOT && is_rebootreset(cl->cl_option))")]),
 (['P23'],'bad','valid date not queued at resume',[(D,"            if (context != CONTEXT_RESUME) {\n                insert_nextexe(cl);","            if (context == CONTEXT_BOOT) {\n                insert_nextexe(cl);")]),
 (['P23'],'bad','notice lost when runatreboot with runfreq',[(D,"                    cl->cl_nextexe = now;\n                    mail_notrun_time_t(cl, SYSDOWN, since);","                    cl->cl_nextexe = now;\n                    if (since > 0 && context == CONTEXT_BOOT)\n                        mail_notrun_time_t(cl, SYSDOWN, since);")]),
 (['P23'],'bad','since read after reset',[(D,"                    time_t since = cl->cl_nextexe;\n\n                    set_next_exe(cl, NO_GOTO, -1);\n                    mail_notrun_time_t(cl, SYSDOWN, since);","                    set_next_exe(cl, NO_GOTO, -1);\n                    mail_notrun_time_t(cl, SYSDOWN, cl->cl_nextexe);")]),
 (['P24'],'bad','copy_src short read installs',[(F,"    if (nb == -1) {\n        error_e(\"Error while reading the file to copy.\"","    if (nb == -1 && errno != EINTR) {\n        error_e(\"Error while reading the file to copy.\"")]),
 (['P24'],'bad','copy not rewound',[(F,"    lseek(from, 0, SEEK_SET);\n\n    /* the temp","    /* the temp")]),
 (['P24'],'bad','no signal after removal without source',[(F,"    need_sig = 1;\n\n    return return_val;","    if (return_val == OK)\n        need_sig = 1;\n\n    return return_val;")]),
 (['P24'],'bad','rm file not for editing',[(F,"    fd = open_as_user(buf, fcrontab_uid, fcrontab_gid,\n                      O_CREAT | O_TRUNC | O_EXCL, S_IRUSR | S_IWUSR);","    fd = open_as_user(buf, fcrontab_uid, fcrontab_gid,\n                      O_TRUNC | O_EXCL, S_IRUSR | S_IWUSR);")]),
 (['P24'],'bad','editor killed by signal installs',[(F,"        if (!WIFEXITED(status)) {","        if (WIFSTOPPED(status)) {")]),
 (['P24'],'bad','correction unchanged is dropped',[(F,"        else if (st.st_mtime > mtime || correction == 1) {","        else if (st.st_mtime > mtime) {")]),
 (['P24'],'bad','flush unchecked',[(F,"    if (fflush(tmp_file) != 0) {\n        error_e(\"Could not fflush(%s)\", tmp_str);\n        goto exiterr;\n    }","    fflush(tmp_file);")]),
 (['P24'],'bad','read error on stdin installs',[(F,"    if (ferror(stdin)) {\n        error_e(\"could not read the fcrontab to install\");\n        goto exiterr;\n    }\n","")]),
 (['P24'],'bad','eof is ignore',[(F,"                if (c == EOF)\n                    /* no answer: fcrontab is unchanged */\n                    goto exiterr;\n                break;","                break;")]),
 (['P24'],'bad','edited source of someone else',[(F,"    if (write_file(file) != OK)\n        return_val = EXIT_ERR;\n    else\n        /* tell","    write_file(file);\n        /* tell")]),
 (['P24'],'bad','list not freed before correction',[(F,"                        /* free memory used to store the list */\n                        delete_file(user);\n                        correction = 1;","                        correction = 1;")]),
 (['P25'],'bad','deny wins not',[(A,"        if (allow == 1 && deny != 1)","        if (allow == 1)")]),
 (['P25'],'bad','all in both',[(A,"        if (allow == 2 && deny <= 0)","        if (allow == 2 && deny != 1)")]),
 (['P25'],'bad','prefix of name',[(A,"        if (strcmp(str, start) == 0) {","        if (strncmp(str, start, strlen(start)) == 0) {")]),
 (['P25'],'bad','unreadable deny file is none',[(A,"        if (errno == ENOENT)\n            /* file","        if (errno == ENOENT || errno == EACCES)\n            /* file")]),
 (['P25'],'good','all before name',[(A,"        if (strcmp(str, start) == 0) {\n            xfclose_check(&f, file);\n            return 1;\n        }\n        if (strcmp(start, \"all\") == 0) {\n            xfclose_check(&f, file);\n            return 2;\n        }","        if (strcmp(start, \"all\") == 0) {\n            xfclose_check(&f, file);\n            return 2;\n        }\n        if (strcmp(str, start) == 0) {\n            xfclose_check(&f, file);\n            return 1;\n        }")]),
 (['P26'],'bad','hard links accepted by owner',[(None,"        else if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {","        else if (!S_ISREG(s.st_mode) || (s.st_nlink != 1 && s.st_uid != openuid)) {")]),
 (['P26'],'bad','errno lost',[(None,"    errno = saved_errno;\n\n    return fd;\n\n}","    return fd;\n\n}")]),
 (['P26'],'bad','ids kept on failure',[(None,"    saved_errno = errno;\n\n    /* change the effective uid/gid back to original values */\n    seteuid_safe(orig_euid);","    saved_errno = errno;\n    if (fd < 0) {\n        errno = saved_errno;\n        return -1;\n    }\n\n    /* change the effective uid/gid back to original values */\n    seteuid_safe(orig_euid);")]),
]
import os
R=os.environ.get('VP_REPO','/repo')
def where(o):
    import glob
    return next(os.path.basename(f) for f in sorted(glob.glob(R+'/*.c')) if o in open(f,errors='replace').read())
CASES=[(p,g,n,[(f or where(o),o,w) for f,o,w in e]) for p,g,n,e in CASES]
