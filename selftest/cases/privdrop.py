J='job.c'
CASES=[
 (['P01'],'bad','setuid unchecked',[(J,"if (setuid(pas->pw_uid) < 0)\n        die(\"setuid failed: %s %d\", pas->pw_name, pas->pw_uid);","setuid(pas->pw_uid);")]),
 (['P01'],'bad','no initgroups when uid same',[(J,"if (initgroups(pas->pw_name, pas->pw_gid) < 0)","if (pas->pw_gid != 0 && initgroups(pas->pw_name, pas->pw_gid) < 0)")]),
 (['P01'],'bad','setuid before setgid',[(J,"""    if (setgid(pas->pw_gid) < 0)
        die("setgid failed: %s %d", pas->pw_name, pas->pw_gid);

    if (setuid(pas->pw_uid) < 0)
        die("setuid failed: %s %d", pas->pw_name, pas->pw_uid);
""","""    if (setuid(pas->pw_uid) < 0)
        die("setuid failed: %s %d", pas->pw_name, pas->pw_uid);

    if (setgid(pas->pw_gid) < 0)
        error("setgid failed: %s %d", pas->pw_name, pas->pw_gid);
""")]),
 (['P01'],'bad','getpwnam of file owner',[(J,"""            pas = getpwnam(line->cl_runas);""","""            pas = getpwnam(line->cl_file->cf_user);""")]),
 (['P01'],'bad','setuid failure only logged',[(J,"""        die("setuid failed: %s %d", pas->pw_name, pas->pw_uid);""","""        error("setuid failed: %s %d", pas->pw_name, pas->pw_uid);""")]),
 (['P01'],'bad','drop skipped if only stdout',[(J,"            become_user(line, pas, curhome);","            if (!to_stdout) become_user(line, pas, curhome);")]),
 (['P01'],'bad','mail_notrun no user change',[("job.c","    become_user(cl, pas, (curhome != NULL) ? *curhome : \"/\");","    if (jobenv != NULL) become_user(cl, pas, (curhome != NULL) ? *curhome : \"/\");")]),
 (['P01','P02'],'good','helper for ids',[(J,"void\nbecome_user(struct cl_t *cl, struct passwd *pas, char *home)\n","""static int
set_ids(const struct passwd *pw)
{
    uid_t uid = pw->pw_uid;
    gid_t gid = pw->pw_gid;

    if (initgroups(pw->pw_name, gid) != 0)
        return -1;
    if (setgid(gid) == -1 || setuid(uid) != 0)
        return -1;
    return 0;
}

void
become_user(struct cl_t *cl, struct passwd *pas, char *home)
"""),(J,"""    if (initgroups(pas->pw_name, pas->pw_gid) < 0)
        die_e("initgroups failed: %s", pas->pw_name);

    if (setgid(pas->pw_gid) < 0)
        die("setgid failed: %s %d", pas->pw_name, pas->pw_gid);

    if (setuid(pas->pw_uid) < 0)
        die("setuid failed: %s %d", pas->pw_name, pas->pw_uid);
""","""    if (set_ids(pas) != 0)
        die_e("could not become %s", pas->pw_name);
""")]),
 (['P01','P02'],'good','exec in helper',[(J,"int\nrun_job(struct exe_t *exeent)\n","""static void
exec_shell(cl_t *l, char *sh, char **env)
{
    char *argv[4];
    argv[0] = sh; argv[1] = "-c"; argv[2] = l->cl_shell; argv[3] = NULL;
    execle(sh, sh, "-c", l->cl_shell, NULL, env);
    die_e("Couldn't exec shell '%s'", sh);
}

int
run_job(struct exe_t *exeent)
"""),(J,"""                execle(curshell, curshell, "-c", line->cl_shell, NULL, jobenv);
                /* execle returns only on error */
                die_e("Couldn't exec shell '%s'", curshell);
""","""                exec_shell(line, curshell, jobenv);
""")]),
 (['P02'],'bad','acct_mgmt failure tolerated',[(J,"""    if (retcode != PAM_SUCCESS)
        die_mail_pame(cl, retcode, pas,
                      "Could not init PAM account management", env_list);""","""    if (retcode != PAM_SUCCESS && retcode != PAM_NEW_AUTHTOK_REQD)
        die_mail_pame(cl, retcode, pas,
                      "Could not init PAM account management", env_list);""")]),
 (['P02'],'bad','setcred result overwritten',[(J,"""    if (retcode != PAM_SUCCESS)
        die_mail_pame(cl, retcode, pas, "Could not set PAM credentials",
                      env_list);
""","")]),
 (['P02'],'bad','pam for file owner',[(J,"""pam_start("fcron", pas->pw_name,""","""pam_start("fcron", cl->cl_file->cf_user,""")]),
 (['P02'],'good','pam loop table',[(J,"""    retcode = pam_acct_mgmt(pamh, PAM_SILENT);  /* permitted access? */
    if (retcode != PAM_SUCCESS)
        die_mail_pame(""","""    if ((retcode = pam_acct_mgmt(pamh, PAM_SILENT)) != 0)
        die_mail_pame(""")]),
 (['P03'],'bad','mail env exported late',[(J,"""    if (sendmailenv != NULL)
        *sendmailenv = env_list_export_envp(env_list);
""",""),(J,"""    if (content_type != NULL) {
        (*content_type)""","""    if (sendmailenv != NULL)
        *sendmailenv = env_list_export_envp(env_list);
    if (content_type != NULL) {
        (*content_type)""")]),
 (['P03'],'bad','end_job gets jobenv',[(J,"end_job(line, status, mailf, mailpos, sendmailenv);","end_job(line, status, mailf, mailpos, is_erroronlymail(line->cl_option) ? jobenv : sendmailenv);")]),
 (['P03'],'good','env loop as helper',[(J,"""void
setup_user_and_env(struct cl_t *cl, struct passwd *pas,""","""static void
apply_user_env(env_list_t *dst, struct cl_t *cl)
{
    env_t *v = env_list_first(cl->cl_file->cf_env_list);
    while (v != NULL) {
        env_list_putenv(dst, v->e_envvar, 1);
        v = env_list_next(cl->cl_file->cf_env_list);
    }
}

void
setup_user_and_env(struct cl_t *cl, struct passwd *pas,"""),(J,"""        for (e = env_list_first(cl->cl_file->cf_env_list); e != NULL;
             e = env_list_next(cl->cl_file->cf_env_list)) {
            env_list_putenv(env_list, e->e_envvar, 1);
        }
""","""        apply_user_env(env_list, cl);
"""),(J,"    env_t *e = NULL;\n","")]),
]
