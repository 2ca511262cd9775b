Y='fcrondyn_svr.c'; L='select.c'
CASES=[
 (['P27'],'bad','details shown in root mode of sysfcrontab',[(Y,"                    || is_root)\n                    print_line(fd, j->j_line, fields, 0, 0, 0);","                    || is_root || cmd[2] != 0)\n                    print_line(fd, j->j_line, fields, 0, 0, 0);")]),
 (['P27'],'bad','running job of removed crontab shown',[(Y,"                    if (is_root) {\n                        send_msg_fd","                    if (is_root || all || !found) {\n                        send_msg_fd")]),
 (['P27'],'bad','all for lavg queue',[(Y,"        if (all && !is_root) {","        if (all && !is_root && cmd[0] != CMD_LIST_LAVGQ) {")]),
 (['P27'],'bad','serial queue index start',[(Y,"                i = serial_array_index;\n                for (j = 0; j < serial_num; j++) {","                i = 0;\n                for (j = 0; j < serial_num; j++) {")]),
 (['P27'],'bad','serial queue no wrap',[(Y,"                    if (++i >= serial_array_size)\n                        i -= serial_array_size;","                    if (++i > serial_array_size)\n                        i -= serial_array_size;")]),
 (['P27'],'bad','uid compared as prefix',[(Y,"                if (!is_root && strcmp(pass->pw_name, client->fcl_user) != 0) {","                if (!is_root && strncmp(pass->pw_name, client->fcl_user, strlen(client->fcl_user)) != 0) {")]),
 (['P27'],'good','renice by truncated value',[(Y,"((int)cmd[1] < 0 && !is_root)","((signed char)cmd[1] < 0 && !is_root)")]),
 (['P27'],'bad','renice checks long applies int',[(Y,"((int)cmd[1] < 0 && !is_root)","(cmd[1] < 0 && !is_root)")]),
 (['P27'],'bad','signal to all of control',[(Y,"    if (kill(e->e_job_pid, (int)cmd[1]) != 0) {","    if (kill(-e->e_job_pid, (int)cmd[1]) != 0) {")]),
 (['P27'],'bad','signal pid -1 check',[(Y,"    if (e->e_job_pid <= 0 || (int)cmd[1] <= 0) {","    if (e->e_job_pid == 0 || (int)cmd[1] <= 0) {")]),
 (['P27'],'bad','run compares id of line only when root',[(Y,"            if (strcmp(client->fcl_user, j->j_line->cl_file->cf_user) == 0\n                || is_root) {\n\n                if (is_lavg","            if (strcmp(client->fcl_user, j->j_line->cl_file->cf_user) == 0\n                || strcmp(client->fcl_user, j->j_line->cl_runas) == 0\n                || is_root) {\n\n                if (is_lavg")]),
 (['P27'],'bad','runnow not rescheduled when lavg',[(Y,"                if (cmd[0] == CMD_RUNNOW)\n","                if (cmd[0] == CMD_RUNNOW && !is_lavg(j->j_line->cl_option))\n")]),
 (['P27'],'bad','run reschedules',[(Y,"                if (cmd[0] == CMD_RUNNOW)\n","                if (cmd[0] == CMD_RUNNOW || is_serial(j->j_line->cl_option))\n")]),
 (['P27'],'bad','not found not ended',[(Y,"    /* we won't get here if a job has been found */\n    Send_err_msg_end(fd, err_job_nfound_str);","    /* we won't get here if a job has been found */\n    Send_err_msg(fd, err_job_nfound_str);")]),
 (['P27'],'bad','root by prefix',[(Y,"is_root = (strcmp(client->fcl_user, ROOTNAME) == 0) ? 1 : 0;","is_root = (strncmp(client->fcl_user, ROOTNAME, strlen(ROOTNAME)) == 0) ? 1 : 0;")]),
 (['P28'],'bad','lock lifted after the wait of the first',[(Y,"        auth_fail++;\n        auth_nofail_since = now;","        if (auth_fail++ == 0)\n            auth_nofail_since = now;")]),
 (['P28'],'bad','good password resets',[(Y,"        client->fcl_user = strdup2((char *)client->fcl_cmd);\n        send","        client->fcl_user = strdup2((char *)client->fcl_cmd);\n        auth_fail = 0;\n        send")]),
 (['P28'],'bad','locked account compare prefix',[(Y,"    if (strcmp(pass_cry, pass_sys) == 0) {","    if (strncmp(pass_cry, pass_sys, 13) == 0) {")]),
 (['P28'],'bad','name from password field',[(Y,"        client->fcl_user = strdup2((char *)client->fcl_cmd);","        client->fcl_user = strdup2(pass_str);")]),
 (['P28'],'bad','euid of daemon',[(Y,"    p_entry = getpwuid(cred.uid);","    p_entry = getpwuid(cred.gid);")]),
 (['P28'],'bad','clear only what was read before',[(Y,"        memset(buf_int, 0, sizeof(buf_int));","        memset(buf_int, 0, read_len > 0 ? read_len : 0);")]),
 (['P28'],'bad','recv whole buffer',[(Y,"sizeof(buf_int) - sizeof(buf_int[0]), 0)) <= 0","sizeof(buf_int), 0)) <= 0")]),
 (['P29'],'bad','prev not moved on error',[(Y,"                error_e(\"error recv() from sock fd %d\", client->fcl_sock_fd);\n                prev_client = client;\n","                error_e(\"error recv() from sock fd %d\", client->fcl_sock_fd);\n")]),
 (['P29'],'bad','idle with request',[(Y,"                client->fcl_idle_since = now;\n                exe_cmd(client);","                exe_cmd(client);")]),
 (['P29'],'bad','auth time from last message',[(Y,"                /* not authenticated yet */\n                auth_client_password(client);","                /* not authenticated yet */\n                auth_client_password(client), client->fcl_idle_since = now;")]),
 (['P29'],'good','rm max stops at zero',[(L,"        for (i = fd; i >= 0; i--) {","        for (i = fd; i > 0; i--) {")]),
 (['P29'],'good','rm max when equal only above',[(L,"    if (fd >= si->__fd_max) {","    if (fd > si->__fd_max) {")]),
 (['P29'],'bad','max lowered by add',[(L,"    if (fd > si->__fd_max) {\n        si->__fd_max = fd;\n    }","    si->__fd_max = fd;")]),
 (['P29'],'bad','fd set size check off by one',[(Y,"        else if (fd >= FD_SETSIZE) {","        else if (fd > FD_SETSIZE) {")]),
 (['P29'],'bad','eintr result served',[(Y,"    if (si->retcode <= 0)\n        /* no","    if (si->retcode == 0)\n        /* no")]),
]
