J='job.c'; M='fcron.c'; D='database.c'; C='conf.c'
CASES=[
 (['P01'],'bad','initgroups EPERM tolerated',[(J,"    if (initgroups(pas->pw_name, pas->pw_gid) < 0)\n","    if (initgroups(pas->pw_name, pas->pw_gid) < 0 && errno != EPERM)\n")]),
 (['P01'],'bad','seteuid only',[(J,"    if (setuid(pas->pw_uid) < 0)\n","    if (seteuid(pas->pw_uid) < 0)\n")]),
 (['P01'],'bad','static passwd overwritten',[(J,"    env_list_setenv(env_list, \"USER\", pas->pw_name, 1);\n","    env_list_setenv(env_list, \"USER\", pas->pw_name, 1);\n    if (getpwnam(cl->cl_file->cf_user) == NULL)\n        error(\"owner of '%s' is unknown\", cl->cl_shell);\n")]),
 (['P01'],'bad','mailer stays root',[(J,"            become_user(line, pas, curhome);\n            Free_safe(curhome);\n",""),(J,"                foreground = 1;\n                /* now, errors will be mailed to the user (or to /dev/null) */\n\n                run_job","                become_user(line, pas, curhome);\n                foreground = 1;\n                /* now, errors will be mailed to the user (or to /dev/null) */\n\n                run_job")]),
 (['P01'],'bad','gid of the daemon kept when nonzero',[(J,"    if (setgid(pas->pw_gid) < 0)\n","    if (pas->pw_gid != 0 && setgid(pas->pw_gid) < 0)\n")]),
 (['P01'],'bad','become_user skipped for root files',[(J,"            become_user(line, pas, curhome);\n            Free_safe(curhome);","            if (strcmp(line->cl_file->cf_user, ROOTNAME) != 0)\n                become_user(line, pas, curhome);\n            Free_safe(curhome);")]),
 (['P01'],'bad','pam failure mail as root',[(J,"        become_user(cl, pas, \"/\");\n\n        launch_mailer","        if (cl->cl_mailto != NULL)\n            become_user(cl, pas, \"/\");\n\n        launch_mailer")]),
 (['P02'],'bad','setcred unavail tolerated',[(J,"    retcode = pam_setcred(pamh, PAM_ESTABLISH_CRED | PAM_SILENT);\n    if (retcode != PAM_SUCCESS)","    retcode = pam_setcred(pamh, PAM_ESTABLISH_CRED | PAM_SILENT);\n    if (retcode != PAM_SUCCESS && retcode != PAM_CRED_UNAVAIL)")]),
 (['P02'],'bad','pam mail failure returns',[(J,"    else\n        die_pame(pamh, pamerrno, \"%s\", buf);\n","    else\n        error_pame(pamh, pamerrno, \"%s\", buf);\n")]),
 (['P02'],'bad','no session when no mail',[(J,"    retcode = pam_open_session(pamh, PAM_SILENT);\n    if (retcode","    if (sendmailenv != NULL && is_mail(cl->cl_option))\n        retcode = pam_open_session(pamh, PAM_SILENT);\n    if (retcode")]),
 (['P02'],'bad','root needs no account check',[(J,"    retcode = pam_acct_mgmt(pamh, PAM_SILENT);  /* permitted access? */\n","    retcode = (pas->pw_uid == 0) ? PAM_SUCCESS : pam_acct_mgmt(pamh, PAM_SILENT);\n")]),
 (['P03'],'bad','mailer gets user variables by aliasing',[(J,"    if (sendmailenv != NULL)\n        *sendmailenv = env_list_export_envp(env_list);\n",""),(J,"        *jobenv = env_list_export_envp(env_list);\n","        *jobenv = env_list_export_envp(env_list);\n        if (sendmailenv != NULL)\n            *sendmailenv = *jobenv;\n")]),
 (['P03'],'bad','mailer by execl',[(J,"    execle(sendmail, sendmail, SENDMAIL_ARGS, line->cl_mailto, NULL,\n           sendmailenv);","    execl(sendmail, sendmail, SENDMAIL_ARGS, line->cl_mailto, NULL);")]),
 (['P03'],'bad','TZ variable from crontab',[(J,"    if (cl->cl_tz != NULL)\n        env_list_setenv(env_list, \"TZ\", cl->cl_tz, 1);","    if (cl->cl_tz != NULL)\n        env_list_setenv(env_list, \"TZ\", cl->cl_tz, 1);\n    for (e = env_list_first(cl->cl_file->cf_env_list); e != NULL;\n         e = env_list_next(cl->cl_file->cf_env_list))\n        if (strncmp(e->e_envvar, \"LC_\", 3) == 0)\n            env_list_putenv(env_list, e->e_envvar, 1);")]),
 (['P04'],'bad','usr1 instead of hup',[(M,"    if (sig_usr1 == true) {\n        /* reload","    else if (sig_usr1 == true) {\n        /* reload"),(M,"        reinstall_signal_handler(SIGHUP, sighup_handler);\n    }\n","        reinstall_signal_handler(SIGHUP, sighup_handler);\n        sig_usr1 = false;\n    }\n")]),
 (['P04'],'bad','all flags reset at the end',[(M,"        explain(\"debug_opt = %d\", debug_opt);\n        reinstall_signal_handler(SIGUSR2, sigusr2_handler);\n    }\n","        explain(\"debug_opt = %d\", debug_opt);\n        reinstall_signal_handler(SIGUSR2, sigusr2_handler);\n    }\n    sig_chld = false;\n")]),
 (['P04'],'bad','chld flag lowered in wait_chld',[(M,"        sig_chld = false;\n        wait_chld();","        wait_chld();\n        sig_chld = false;")]),
 (['P04'],'bad','sigterm ignored while jobs run',[(M,"    if (sig_term == true) {","    if (sig_term == true && serial_running == 0) {")]),
 (['P05'],'bad','save in loop moved behind exit',[(M,"        if (save <= now) {","        if (save < now) {")]),
 (['P05'],'bad','save date far away',[(M,"            save = now + save_time;\n            /* save all files */\n            save_file(NULL);","            save = now + save_time;\n            /* save all files */\n            if (serial_running == 0)\n                save_file(NULL);")]),
 (['P07'],'bad','signals after wake time',[(M,"        check_signal();\n\n        while (serial_num > 0 && serial_running < serial_max_running) {\n            run_serial_job();\n        }\n\n        nwt = check_lavg(save);","        while (serial_num > 0 && serial_running < serial_max_running) {\n            run_serial_job();\n        }\n\n        nwt = check_lavg(save);\n        check_signal();")]),
 (['P08'],'bad','job child falls back',[(J,"            /* execution should never gets here, but if it happened we exit with an error */\n            exit(EXIT_ERR);","            /* execution should never gets here, but if it happened we exit with an error */\n            if (errno != ECHILD)\n                exit(EXIT_ERR);")]),
 (['P08'],'bad','end_job exits only with a file',[(J,"    xfclose_check(&mailf, \"Can't close file mailf\");\n\n    exit(0);","    if (mailf == NULL)\n        return;\n    xfclose_check(&mailf, \"Can't close file mailf\");\n\n    exit(0);"),(J,"            exit(EXIT_ERR);\n        }\n\n    default:","            return OK;\n        }\n\n    default:")]),
 (['P08'],'bad','exec failure only logged',[(J,"                die_e(\"Couldn't exec shell '%s'\", curshell);","                error_e(\"Couldn't exec shell '%s'\", curshell);"),(J,"                /* execution never gets here */\n\n            default:","                return ERR;\n\n            default:")]),
 (['P09'],'bad','umask fixed',[(J,"            umask(saved_umask);","            umask(022);")]),
 (['P09'],'bad','umask only when set',[(J,"            umask(saved_umask);","            if (saved_umask != 0)\n                umask(saved_umask);")]),
 (['P09'],'bad','sigpipe ignored again',[(J,"                foreground = 1;\n                /* now, errors will","                signal(SIGPIPE, SIG_IGN);\n                foreground = 1;\n                /* now, errors will")]),
 (['P09'],'bad','nice doubled',[(J,"nice(line->cl_nice) == -1","nice(line->cl_nice + 1) == -1")]),
 (['P09'],'bad','nice in the collecting process',[(J,"                run_job_grand_child_setup_nice(line);\n","                if (!is_mail(line->cl_option))\n                    run_job_grand_child_setup_nice(line);\n")]),
 (['P09'],'bad','second chdir unchecked',[(J,"        if (chdir(\"/\") < 0)\n            die_e(\"Could not chdir to HOME dir /\");","        if (chdir(\"/\") < 0)\n            error_e(\"Could not chdir to HOME dir /\");")]),
 (['P10'],'bad','only first line of output',[(J,"                    while (fgets(mailbuf, sizeof(mailbuf), pipef) != NULL)\n","                    if (fgets(mailbuf, sizeof(mailbuf), pipef) != NULL)\n")]),
 (['P10'],'bad','mail file not rewound',[(J,"    if (lseek(fileno(mailf), 0, SEEK_SET) != 0)\n        die_e(\"Can't lseek()\");\n",""),(J,"    if (fseek(mailf, 0, SEEK_SET) != 0)\n        die_e(\"Can't fseek()\");\n","")]),
 (['P10'],'bad','signal is success',[(J,"                                     !(WIFEXITED(status)\n                                       && WEXITSTATUS(status) == 0)","                                     (WIFEXITED(status)\n                                       && WEXITSTATUS(status) != 0)")]),
 (['P10'],'bad','to mailfrom',[(J,"    execle(sendmail, sendmail, SENDMAIL_ARGS, line->cl_mailto, NULL,","    execle(sendmail, sendmail, SENDMAIL_ARGS, line->cl_runas, NULL,")]),
 (['P10'],'bad','position taken before the header',[(J,"                mailpos = ftell(mailf);\n                if (pipe","                if (pipe")]),
 (['P10'],'bad','dup2 of the other end',[(J,"        if (dup2(pipe_fd[1], 1) != 1","        if (dup2(pipe_fd[0], 1) != 1")]),
]
