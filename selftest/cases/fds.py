J='job.c'; C='conf.c'; S='suspend.c'; Q='fcrondyn_svr.c'; M='fcron.c'; U='subs.c'; G='fcronsighup.c'; V='save.c'
CASES=[
 (['P36'],'bad','fork failure leaks',[(J,"        if (pipe_pid_fd[0] != -1) {\n            xclose_check(&(pipe_pid_fd[0]), \"unused pipe_pid_fd[0]\");\n            xclose_check(&(pipe_pid_fd[1]), \"unused pipe_pid_fd[1]\");\n        }\n","")]),
 (['P36'],'bad','parent keeps reading end',[(J,"        xclose_check(&(pipe_pid_fd[0]), \"parent's pipe_pid_fd[0]\");","        if (ret == OK)\n            xclose_check(&(pipe_pid_fd[0]), \"parent's pipe_pid_fd[0]\");")]),
 (['P36'],'bad','bad suspend file kept open',[(S,"        error_e(\"suspend file %s is not a regular file\", suspendfile);\n        goto cleanup_return;","        error_e(\"suspend file %s is not a regular file\", suspendfile);\n        return 0;")]),
 (['P36'],'bad','read_file early return',[(C," err:\n    if (ff != NULL)\n"," err:\n    if (ff != NULL && cf->cf_user != NULL)\n")]),
 (['P36'],'bad','save closes twice',[(V,"    if (xclose(&fd) < 0)\n        error_e(\"save_one_file(%s): could not xclose(fd)\", filename);\n\n","    if (close(fd) < 0)\n        error_e(\"save_one_file(%s): could not xclose(fd)\", filename);\n    xclose(&fd);\n\n")] if 0 else [(V,"        if (xclose(&fd) < 0)\n            error_e(\"save_one_file(%s): could not xclose(fd)\", filename);\n        remove_as_user","        remove_as_user")]),
 (['P36'],'bad','closedir only when files',[(C,"        closedir(dir);","        if (rm_list != NULL || file_list != NULL)\n            closedir(dir);")]),
 (['P36'],'bad','open_as_user not closed when not regular',[(U,"            if (xclose(&fd) < 0)\n                error_e(\"open_as_user: could not xclose() %s\", pathname);\n            saved_errno = 0;\n            fd = -1;","            saved_errno = 0;\n            fd = -1;")]),
 (['P36'],'good','close in a helper',[(S,"    if (fd >= 0 && xclose(&fd) < 0) {\n        warn_e(\"Could not xclose() suspend file '%s'\", suspendfile);\n    }\n\n    return suspend_duration;","    vp_close(fd);\n    return suspend_duration;"),(S,"long int\nread_suspend_duration","static void\nvp_close(int f)\n{\n    if (f >= 0 && close(f) != 0)\n        warn(\"could not close\");\n}\n\nlong int\nread_suspend_duration")]),
 (['P36'],'good','pipe ends by a loop',[(J,"            xclose_check(&(pipe_pid_fd[0]), \"unused pipe_pid_fd[0]\");\n            xclose_check(&(pipe_pid_fd[1]), \"unused pipe_pid_fd[1]\");\n","            int k;\n            for (k = 0; k < 2; k++)\n                xclose_check(&(pipe_pid_fd[k]), \"unused pipe\");\n")]),
 (['P37'],'bad','lock before background',[(M,"    /* check if another fcron daemon is running, create pid file and lock it */\n    get_lock();\n",""),(M,"    if (foreground == 0) {\n\n        /* close stdout","    get_lock();\n    if (foreground == 0) {\n\n        /* close stdout")]),
 (['P37'],'bad','lock only in background',[(M,"    get_lock();\n\n    /* this","    if (foreground == 0)\n        get_lock();\n\n    /* this")]),
 (['P37'],'bad','lock failure tolerated',[(M,"            die_e(\"can't lock %s, running daemon's pid may be %d\", pidfile,\n                  otherpid);","            error(\"can't lock %s, running daemon's pid may be %d\", pidfile,\n                  otherpid);")]),
 (['P37'],'bad','shared lock',[(M,"flock(fd, LOCK_EX | LOCK_NB)","flock(fd, LOCK_SH | LOCK_NB)")]),
 (['P37'],'bad','lock waited for',[(M,"flock(fd, LOCK_EX | LOCK_NB)","flock(fd, LOCK_EX)")]),
 (['P37'],'bad','lock closed after writing',[(M,"    fflush(daemon_lockfp);\n","    fflush(daemon_lockfp);\n    if (debug_opt == 0)\n        xfclose_check(&daemon_lockfp, pidfile);\n    else\n")]),
 (['P37'],'bad','pid of the starter',[(M,"        daemon_pid = getpid();\n\n        if ((fd = open(\"/dev/tty\"","        if ((fd = open(\"/dev/tty\"")]),
 (['P37'],'bad','pid not flushed',[(M,"    fflush(daemon_lockfp);\n","")]),
 (['P37'],'bad','pid kept for the foreground',[(M,"    fprintf(daemon_lockfp, \"%d\\n\", (int)daemon_pid);","    if (foreground == 0)\n        fprintf(daemon_lockfp, \"%d\\n\", (int)daemon_pid);")]),
 (['P37'],'bad','parent goes on',[(M,"            exit(0);\n        }\n\n        daemon_pid = getpid();","            if (once == 0) exit(0);\n        }\n\n        daemon_pid = getpid();")]),
 (['P37'],'bad','other signal',[(G,"kill(daemon_pid, SIGHUP)","kill(daemon_pid, SIGTERM)")]),
 (['P37'],'bad','pid zero signalled',[(G,"    if ((daemon_pid = read_pid()) == 0)","    if ((daemon_pid = read_pid()) < 0)")]),
 (['P37'],'good','lock by a helper',[(M,"#ifdef HAVE_FLOCK\n    if (flock(fd, LOCK_EX | LOCK_NB) != 0)\n","#ifdef HAVE_FLOCK\n    if (vp_lock(fd) != 0)\n"),(M,"void\nget_lock()","static int\nvp_lock(int fd)\n{\n    return flock(fd, LOCK_NB | LOCK_EX);\n}\n\nvoid\nget_lock()")]),
 (['P37'],'good','pid by dprintf',[(M,"    rewind(daemon_lockfp);\n    fprintf(daemon_lockfp, \"%d\\n\", (int)daemon_pid);\n","    rewind(daemon_lockfp);\n    fprintf(daemon_lockfp, \"%ld\\n\", (long)getpid());\n")]),
]
CASES += [
 (['P36'],'bad','refused client stays open',[(Q,"                shutdown(fd, SHUT_RDWR);\n                xclose_check(&fd, \"client fd\");\n            }\n            else {","                shutdown(fd, SHUT_RDWR);\n            }\n            else {")]),
 (['P36'],'bad','temp file used after close',[(V,"    if (fchown(fd, own_uid, own_gid) != 0) {","    if (filename[0] == 46)\n        close(fd);\n    if (fchown(fd, own_uid, own_gid) != 0) {")]),
]
