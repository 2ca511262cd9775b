J='job.c'
EX="            exit(EXIT_ERR);\n        }\n\n    default:\n        /* parent */"
S1="        if (dup2(pipe_fd[1], 1) != 1 || dup2(1, 2) != 2)\n            die_e(\"dup2() error\");      /* dup2 also clears close-on-exec flag */\n        /* we close"
CASES=[
 (['P08'],'bad','child returns on fork failure',[(J,"                xclose_check(&(pipe_pid_fd[1]), \"child's pipe_pid_fd[1]\");\n                exit(EXIT_ERR);\n","                xclose_check(&(pipe_pid_fd[1]), \"child's pipe_pid_fd[1]\");\n                return ERR;\n")]),
 (['P08'],'bad','child falls out',[(J,EX,EX.replace("            exit(EXIT_ERR);\n","            break;\n",1))]),
 (['P08'],'bad','child xexits',[(J,EX,EX.replace("exit(EXIT_ERR)","xexit(EXIT_ERR)",1))]),
 (['P08'],'bad','mailer child returns',[('database.c',"    launch_mailer(line, mailf, sendmailenv);\n\n    /* we should not come here : launch_mailer does not return */\n    die(\"mail_notrun : launch_mailer failed\");\n","    if (line->cl_mailto != NULL)\n        launch_mailer(line, mailf, sendmailenv);\n")]),
 (['P08'],'bad','child removes lock',[(J,EX,EX.replace("            exit(EXIT_ERR);","            remove(pidfile);\n            exit(EXIT_ERR);",1))]),
 (['P08'],'good','_exit instead',[(J,EX,EX.replace("exit(EXIT_ERR)","_exit(EXIT_ERR)",1))]),
 (['P08','P09','P10'],'good','child wait in helper',[(J,"int\nrun_job(struct exe_t *exeent)","static void\ncollect(cl_t *line, FILE *mailf, short mailpos, char **env)\n{\n    int st = 0;\n    pid_t p;\n    for (;;) {\n        p = waitpid(-1, &st, 0);\n        if (p <= 0)\n            break;\n        end_job(line, st, mailf, mailpos, env);\n    }\n    exit(EXIT_ERR);\n}\n\nint\nrun_job(struct exe_t *exeent)"),(J,"                while ((pid = waitpid(-1, &status, 0)) > 0) {\n","                (void)status;\n                collect(line, mailf, mailpos, sendmailenv);\n                while (0) {\n")]),
 (['P09'],'bad','no umask',[(J,"            umask(saved_umask);\n","")]),
 (['P09'],'bad','no sig_dfl',[(J,"            sig_dfl();\n","")]),
 (['P09'],'bad','sig_dfl misses PIPE',[(J,"    signal(SIGPIPE, SIG_DFL);\n","")]),
 (['P09'],'bad','chdir only if home differs',[(J,"    if (chdir(home) != 0) {\n","    if (strcmp(home, \"/\") != 0 && chdir(home) != 0) {\n")]),
 (['P09'],'bad','nice only if positive',[(J,"    if (line->cl_nice != 0) {","    if (line->cl_nice > 0) {")]),
 (['P09'],'bad','nice skipped if stdout',[(J,"                run_job_grand_child_setup_nice(line);\n","                if (!to_stdout)\n                    run_job_grand_child_setup_nice(line);\n")]),
 (['P09'],'bad','chdir failure ignored',[(J,"        if (chdir(\"/\") < 0)\n            die_e(\"Could not chdir to HOME dir /\");\n    }\n\n}","        if (chdir(\"/\") < 0)\n            error_e(\"Could not chdir to HOME dir /\");\n    }\n\n}")]),
 (['P09'],'good','setpriority and unconditional',[(J,"    if (line->cl_nice != 0) {\n        errno = 0;              /* so that it works with any libc and kernel */\n        if (nice(line->cl_nice) == -1 && errno != 0)\n            error_e(\"could not set nice value\");\n    }\n","    errno = 0;\n    if (nice(line->cl_nice) == -1 && errno != 0)\n        error_e(\"could not set nice value\");\n")]),
 (['P09'],'good','reordered',[(J,"            umask(saved_umask);\n\n            sig_dfl();\n",""),(J,"                xcloselog();\n\n#if","                umask(saved_umask);\n                sig_dfl();\n                xcloselog();\n\n#if")]),
 (['P10'],'bad','stderr not captured',[(J,S1,S1.replace(" || dup2(1, 2) != 2",""))]),
 (['P10'],'bad','stdin of pipe',[(J,S1,S1.replace("dup2(pipe_fd[1], 1)","dup2(pipe_fd[0], 1)"))]),
 (['P10'],'bad','dup order',[(J,S1,S1.replace("dup2(pipe_fd[1], 1) != 1 || dup2(1, 2) != 2","dup2(1, 2) != 2 || dup2(pipe_fd[1], 1) != 1"))]),
 (['P10'],'bad','to_stdout ignores foreground',[(J,"int to_stdout = foreground && is_stdout","int to_stdout = is_stdout")]),
 (['P10'],'bad','erroronly hides errors',[(J,"                                     !(WIFEXITED(status)\n","                                     !is_erroronlymail(line->cl_option) && !(WIFEXITED(status)\n")]),
 (['P10'],'bad','signal not an error',[(J,"                                     !(WIFEXITED(status)\n                                       && WEXITSTATUS(status) == 0)","                                     (WIFEXITED(status)\n                                       && WEXITSTATUS(status) != 0)")]),
 (['P10'],'bad','output test >=',[(J,"&& ftell(mailf) > mailpos)","&& ftell(mailf) >= mailpos)")]),
 (['P10'],'bad','zerolength needs mail',[(J,"(is_mailzerolength(line->cl_option)\n                          ||","((is_mailzerolength(line->cl_option) && status)\n                          ||")]),
 (['P10'],'bad','no redirect to null',[(J,"    else if (foreground) {\n        if (freopen(\"/dev/null\", \"w\", stdout) == NULL)","    else if (!foreground) {\n        if (freopen(\"/dev/null\", \"w\", stdout) == NULL)")]),
 (['P10'],'good','dup2 both from pipe',[(J,S1,S1.replace("dup2(1, 2)","dup2(pipe_fd[1], 2)"))]),
 (['P10'],'good','decision helper',[(J,"void\nend_job(cl_t *line, int status, FILE *mailf,","static int\nwant(cl_t *line, int status, FILE *mailf, short pos)\n{\n    int failed = !WIFEXITED(status) || WEXITSTATUS(status) != 0;\n    if (mailf == NULL)\n        return 0;\n    if (is_mailzerolength(line->cl_option))\n        return 1;\n    if (!is_mail(line->cl_option))\n        return 0;\n    if (failed)\n        return 1;\n    if (is_erroronlymail(line->cl_option))\n        return 0;\n    return fseek(mailf, 0, SEEK_END) == 0 && ftell(mailf) > pos;\n}\n\nvoid\nend_job(cl_t *line, int status, FILE *mailf,"),(J,"    if (mailf != NULL && (is_mailzerolength","    if (want(line, status, mailf, mailpos)) mail_output = 1;\n    if (0 && mailf != NULL && (is_mailzerolength")]),
]
