F='fcrontab.c'; A='allow.c'; S='subs.c'
CASES=[
 (['P25'],'bad','-u for everybody',[(F,"        case 'u':\n            if (useruid != rootuid) {","        case 'u':\n            if (useruid != rootuid && !list_opt) {")]),
 (['P25'],'bad','argument user unchecked',[(F,"        else {\n            if (useruid != rootuid) {\n                fprintf(stderr, \"must be privileged to use [user|-u user]\\n\");\n                xexit(EXIT_ERR);\n            }\n            Set(user, argv[optind]);","        else {\n            Set(user, argv[optind]);")]),
 (['P25'],'bad','two args unchecked',[(F,"            usage();\n\n        if (useruid != rootuid) {\n            fprintf(stderr, \"must be privileged to use -u\\n\");\n            xexit(EXIT_ERR);\n        }\n        Set(user","            usage();\n\n        Set(user")]),
 (['P25'],'bad','root need not be allowed',[(F,"           !is_allowed(user)) {","           useruid != rootuid && !is_allowed(user)) {")]),
 (['P25'],'bad','allowed for list',[(F,"           !is_allowed(user)) {","           !list_opt && !is_allowed(user)) {")]),
 (['P25'],'bad','checks name of the caller',[(F,"           !is_allowed(user)) {","           !is_allowed(USERNAME)) {")]),
 (['P25'],'bad','no acct_mgmt check',[(F,"    if (retcode != PAM_SUCCESS)\n        die_pame(pamh, retcode, \"Could not init PAM account management (%d)\",\n                 retcode);\n","")]),
 (['P25'],'bad','auth only for non root',[(F,"    retcode = pam_authenticate(pamh, 0);        /* is user really user? */","    if (useruid != rootuid)\n        retcode = pam_authenticate(pamh, 0);        /* is user really user? */")]),
 (['P25'],'bad','keeps egid',[(F,"    seteuid_safe(useruid);\n    setegid_safe(usergid);\n#endif","    seteuid_safe(useruid);\n#endif")]),
 (['P25'],'bad','keeps euid after chdir',[(F,"        xexit(EXIT_ERR);\n    }\n    seteuid_safe(useruid);\n","        xexit(EXIT_ERR);\n    }\n")]),
 (['P25'],'bad','conf as fcron',[(F,"    seteuid_safe(useruid);\n#endif\n\n    errno = 0;","#endif\n\n    errno = 0;")]),
 (['P25'],'bad','pam for the caller',[(F,"    retcode = pam_start(\"fcrontab\", runas, &apamconv, &pamh);","    retcode = pam_start(\"fcrontab\", USERNAME, &apamconv, &pamh);")]),
 (['P25'],'bad','file opened as fcron',[(F,"            fd = open_as_user(fcrontab_file_path, useruid, usergid, O_RDONLY);","            fd = open_as_user(fcrontab_file_path, fcrontab_uid, fcrontab_gid, O_RDONLY);")]),
 (['P25'],'bad','edited file as fcrontab group',[(F,"        file = open_as_user(tmp_str, useruid, usergid, O_RDONLY);","        file = open_as_user(tmp_str, useruid, fcrontab_gid, O_RDONLY);")]),
 (['P25'],'bad','deny all ignored',[(A,"        if (allow == -1 && deny == 0)","        if (allow == -1 && deny != 1)")]),
 (['P25'],'bad','deny beats nothing',[(A,"        if (allow == 1 && deny != 1)","        if (allow == 1)")]),
 (['P25'],'bad','allow all beats deny',[(A,"        if (allow == 2 && deny <= 0)","        if (allow == 2 && deny != 1)")]),
 (['P25'],'bad','no passwd check',[(A,"    if (getpwnam(user) != NULL) {","    {")]),
 (['P25'],'bad','prefix match',[(A,"        if (strcmp(str, start) == 0) {","        if (strncmp(str, start, strlen(str)) == 0) {")]),
 (['P25'],'bad','any error is absent',[(A,"        if (errno == ENOENT)","        if (errno != 0)")]),
 (['P25'],'bad','blank line ends',[(A,"        if (*start == '#' || *start == '\\0')\n            continue;","        if (*start == '#')\n            continue;\n        if (*start == '\\n')\n            break;")]),
 (['P25'],'bad','all as comment',[(A,"        if (strcmp(start, \"all\") == 0) {","        if (strcmp(start, \"all\") == 0 && start == buf) {")]),
 (['P25'],'bad','list removes',[(F,"    if (list_opt == 1) {\n","    if (list_opt == 1) {\n        if (ignore_prev) remove_fcrontab(0);\n")]),
 (['P25'],'good','is_allowed nested',[(A,"        if (allow == -1 && deny == -1)\n            /* neither fcron.allow nor fcron.deny exist :\n             * we consider that user is allowed */\n            return 1;\n\n        if (allow == -1 && deny == 0)\n            return 1;","        if (allow == -1 && (deny == -1 || deny == 0))\n            return 1;")]),
 (['P25'],'good','in_file result var',[(A,"        if (strcmp(start, \"all\") == 0) {\n            xfclose_check(&f, file);\n            return 2;\n        }\n    }","        if (!strcmp(\"all\", start)) {\n            xfclose_check(&f, file);\n            return 2;\n        }\n    }")]),
 (['P25'],'good','helper must be root',[(F,"void\nparseopt(int argc, char *argv[])","static void\nneed_root(const char *what)\n{\n    if (useruid == rootuid)\n        return;\n    fprintf(stderr, \"must be privileged to use %s\\n\", what);\n    xexit(EXIT_ERR);\n}\n\nvoid\nparseopt(int argc, char *argv[])"),(F,"            if (useruid != rootuid) {\n                fprintf(stderr, \"must be privileged to use -u\\n\");\n                xexit(EXIT_ERR);\n            }\n            user = strdup2(optarg);","            need_root(\"-u\");\n            user = strdup2(optarg);")]),
 (['P25'],'good','pam loop',[(F,"    if (retcode != PAM_SUCCESS)\n        die_pame(pamh, retcode, \"Could not set PAM credentials\");\n    retcode = pam_open_session(pamh, 0);\n    if (retcode != PAM_SUCCESS)","    if (retcode == PAM_SUCCESS)\n        retcode = pam_open_session(pamh, 0);\n    if (retcode != PAM_SUCCESS)")]),
 (['P26'],'bad','gid not changed',[(S,"    seteuid_safe(removeuid);\n    setegid_safe(removegid);","    seteuid_safe(removeuid);")]),
 (['P26'],'bad','gid not restored',[(S,"    rval = rename(oldpath, newpath);\n\n#ifdef USE_SETE_ID\n    seteuid_safe(orig_euid);\n    setegid_safe(orig_egid);","    rval = rename(oldpath, newpath);\n\n#ifdef USE_SETE_ID\n    seteuid_safe(orig_euid);")]),
 (['P26'],'bad','early return on failure',[(S,"    rval = remove(pathname);\n","    rval = remove(pathname);\n    if (rval != 0)\n        return rval;\n")]),
 (['P26'],'bad','swapped names',[(S,"    rval = rename(oldpath, newpath);","    rval = rename(newpath, oldpath);")]),
 (['P26'],'bad','links accepted',[(S,"        else if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {\n            error_e(","        else if (!S_ISREG(s.st_mode) || s.st_nlink > 2) {\n            error_e(")]),
 (['P26'],'bad','dirs accepted',[(S,"        else if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {\n            error_e(","        else if (S_ISLNK(s.st_mode) || S_ISFIFO(s.st_mode) || s.st_nlink != 1) {\n            error_e(")]),
 (['P26'],'bad','errno lost',[(S,"    saved_errno = errno;\n\n    /* change the effective uid/gid back","    /* change the effective uid/gid back")]),
 (['P26'],'bad','seteuid only differs from root',[(S,"    if (geteuid() != euid && seteuid(euid) != 0)\n        die_e(\"could not change euid to %d\", euid);","    if (geteuid() != euid && seteuid(euid) != 0)\n        error_e(\"could not change euid to %d\", euid);")]),
 (['P26'],'bad','refused file not closed',[(S,"            if (xclose(&fd) < 0)\n                error_e(\"open_as_user: could not xclose() %s\", pathname);\n            saved_errno = 0;","            saved_errno = 0;")]),
 (['P26'],'bad','mode dropped',[(S,"    if (flags & O_CREAT) {\n        fd = open(pathname, flags, mode);\n    }\n    else\n        fd = open(pathname, flags);\n\n    saved_errno","    fd = open(pathname, flags & ~O_EXCL, mode);\n\n    saved_errno")]),
 (['P26'],'bad','raw rename in copy_src',[(F,"    if (rename_as_user(tmp_filename_str, dest, useruid, fcrontab_gid) < 0) {","    if (rename(tmp_filename_str, dest) < 0) {")]),
 (['P26'],'good','become helper',[(S,"int\nremove_as_user(","#ifdef USE_SETE_ID\nstatic void\nbecome(uid_t u, gid_t g)\n{\n    seteuid_safe(u);\n    setegid_safe(g);\n}\n#endif\n\nint\nremove_as_user("),(S,"    seteuid_safe(removeuid);\n    setegid_safe(removegid);","    become(removeuid, removegid);")]),
 (['P26'],'good','open helper',[(S,"#ifdef USE_SETE_ID\nint\nopen_as_user(","static int\ndo_open(const char *path, int flags, mode_t mode)\n{\n    return (flags & O_CREAT) ? open(path, flags, mode) : open(path, flags);\n}\n\n#ifdef USE_SETE_ID\nint\nopen_as_user("),(S,"    if (flags & O_CREAT) {\n        fd = open(pathname, flags, mode);\n    }\n    else\n        fd = open(pathname, flags);\n\n    saved_errno","    fd = do_open(pathname, flags, mode);\n\n    saved_errno")]),
]
