J='job.c'; V='env_list.c'; B='subs.c'
CASES=[
 (['P35'],'bad','sendmailenv after path reset',[(J,"    if (sendmailenv != NULL)\n        *sendmailenv = env_list_export_envp(env_list);\n",""),(J,"        env_list_setenv(env_list, \"PATH\", DEFAULT_JOB_PATH, 1);\n","        env_list_setenv(env_list, \"PATH\", DEFAULT_JOB_PATH, 1);\n    if (sendmailenv != NULL)\n        *sendmailenv = env_list_export_envp(env_list);\n")]),
 (['P35'],'bad','home default overwrites',[(J,"env_list_putenv(env_list, \"HOME=/\", 0);","env_list_putenv(env_list, \"HOME=/\", 1);")]),
 (['P35'],'bad','crontab vars do not overwrite',[(J,"env_list_putenv(env_list, e->e_envvar, 1);","env_list_putenv(env_list, e->e_envvar, 0);")]),
 (['P35'],'bad','crontab home taken before variables',[(J,"            (*curhome) = strdup2(env_list_getenv(env_list, \"HOME\"));","            (*curhome) = strdup2(pas->pw_dir);")]),
 (['P35'],'bad','curshell not checked shell',[(J,"            *curshell = strdup2(myshell);","            *curshell = strdup2(env_list_getenv(cl->cl_file->cf_env_list, \"SHELL\") ? env_list_getenv(cl->cl_file->cf_env_list, \"SHELL\") : myshell);")]),
 (['P35'],'bad','access read only',[(J,"access(myshell, X_OK)","access(myshell, R_OK)")]),
 (['P35'],'bad','tz only when not set by others',[(J,"env_list_setenv(env_list, \"TZ\", cl->cl_tz, 1);","setenv(\"TZ\", cl->cl_tz, 1);")]),
 (['P35'],'bad','pam variables do not overwrite',[(J,"env_list_putenv(env_list, *env, 1);","env_list_putenv(env_list, *env, 0);")]),
 (['P35'],'bad','first pam variable skipped',[(J,"env && *env; env++) {","env && *++env;) {")]),
 (['P35'],'bad','path reset after crontab variables',[(J,"        env_list_setenv(env_list, \"PATH\", DEFAULT_JOB_PATH, 1);\n",""),(J,"        /* make sure HOME is defined */","        env_list_setenv(env_list, \"PATH\", DEFAULT_JOB_PATH, 1);\n        /* make sure HOME is defined */")]),
 (['P35'],'bad','path of the daemon kept if set',[(J,"        env_list_setenv(env_list, \"PATH\", DEFAULT_JOB_PATH, 1);","        env_list_setenv(env_list, \"PATH\", DEFAULT_JOB_PATH, 0);")]),
 (['P35'],'bad','encoding swapped',[(J,"strdup2(env_list_getenv(env_list, \"CONTENT_TRANSFER_ENCODING\"))","strdup2(env_list_getenv(env_list, \"CONTENT_TYPE\"))")]),
 (['P35'],'good','logname through local',[(J,"    env_list_setenv(env_list, \"LOGNAME\", pas->pw_name, 1);","    {\n        char *me = pas->pw_name;\n        env_list_setenv(env_list, \"LOGNAME\", me, 0);\n    }")]),
 (['P35'],'good','home by condition',[(J,"env_list_putenv(env_list, \"HOME=/\", 0);","if (env_list_getenv(env_list, \"HOME\") == NULL)\n            env_list_setenv(env_list, \"HOME\", \"/\", 1);")]),
 (['P35'],'bad','logname is runas of file',[(J,"    env_list_setenv(env_list, \"LOGNAME\", pas->pw_name, 1);","    env_list_setenv(env_list, \"LOGNAME\", pas->pw_dir, 1);")]),
 (['P35'],'bad','strcmp_until prefix',[(B,"        && (*right == '\\0' || *right == until)) {","        ) {")]),
 (['P35'],'bad','strcmp_until no until on left',[(B,"    if ((*left == '\\0' || *left == until)","    if ((*left == '\\0')")]),
 (['P35'],'good','strcmp_until loop',[(B,"    while (*left != '\\0' && *left != until && *left == *right) {\n        left++;\n        right++;\n    }","    for (; *left && *left != until && *right == *left; left++, right++)\n        ;")]),
 (['P35'],'bad','setenv ignores overwrite',[(V,"            if (overwrite == 1) {\n                c->e_envvar =\n                    realloc_safe(c->e_envvar, len, \"new env var value\");\n                snprintf","            {\n                c->e_envvar =\n                    realloc_safe(c->e_envvar, len, \"new env var value\");\n                snprintf")]),
 (['P35'],'bad','setenv len short',[(V,"strlen(name) + 1 + strlen(value) + 1;","strlen(name) + 1 + strlen(value);")]),
 (['P35'],'bad','putenv shares text',[(V,"    e.e_envvar = strdup2(envvar);\n    return (env_t *) u_list_add","    e.e_envvar = envvar + 1;\n    return (env_t *) u_list_add")]),
 (['P35'],'bad','putenv copy without end',[(V,"memcpy(c->e_envvar, envvar, len);","memcpy(c->e_envvar, envvar, len - 1);")]),
 (['P35'],'bad','getenv keeps equal',[(V,"return (c->e_envvar + strlen(name) + 1);","return (c->e_envvar + strlen(name));")]),
 (['P35'],'bad','export without null',[(V,"    envp[(list->num_entries + 1) - 1] = NULL;\n","")]),
 (['P35'],'bad','export short memory',[(V,"alloc_safe((list->num_entries + 1) * sizeof(char *),","alloc_safe((list->num_entries) * sizeof(char *),")]),
 (['P35'],'bad','realloc not stored',[(V,"                c->e_envvar =\n                    realloc_safe(c->e_envvar, len, \"new env var value\");\n                memcpy(c->e_envvar, envvar, len);","                char *n =\n                    realloc_safe(c->e_envvar, len, \"new env var value\");\n                memcpy(n, envvar, len);")]),
 (['P35'],'good','putenv by free and dup',[(V,"                c->e_envvar =\n                    realloc_safe(c->e_envvar, len, \"new env var value\");\n                memcpy(c->e_envvar, envvar, len);","                Free_safe(c->e_envvar);\n                c->e_envvar = strdup2(envvar);")]),
 (['P35'],'bad','exec default shell',[(J,"execle(curshell, curshell, \"-c\", line->cl_shell, NULL, jobenv);","execle(shell, curshell, \"-c\", line->cl_shell, NULL, jobenv);")]),
 (['P35'],'bad','exec with mailer env',[(J,"line->cl_shell, NULL, jobenv);","line->cl_shell, NULL, sendmailenv);")]),
 (['P35'],'bad','exec with stdin flag',[(J,"curshell, \"-c\", line->cl_shell, NULL, jobenv);","curshell, \"-s\", line->cl_shell, NULL, jobenv);")]),
 (['P35'],'bad','home from passwd',[(J,"            become_user(line, pas, curhome);","            become_user(line, pas, pas->pw_dir);")]),
 (['P35'],'bad','mail head swapped',[(J,"create_mail(line, NULL, content_type, encoding, jobenv)","create_mail(line, NULL, encoding, content_type, jobenv)")]),
 (['P35'],'good','exec args through locals',[(J,"                execle(curshell, curshell, \"-c\", line->cl_shell, NULL, jobenv);","                char *prog = curshell, *what = line->cl_shell;\n                execle(prog, prog, \"-c\", what, NULL, jobenv);")]),
]
