S='fcrondyn_svr.c'; L='select.c'
CASES=[
 (['P27'],'bad','details of any job',[(S,"                if (strcmp(client->fcl_user, j->j_line->cl_file->cf_user) == 0\n                    || is_root)\n                    print_line","                if (strcmp(client->fcl_user, j->j_line->cl_file->cf_user) == 0\n                    || is_root || cmd[2] == 77)\n                    print_line")]),
 (['P27'],'bad','owner by runas',[(S,"            if (strcmp(client->fcl_user, j->j_line->cl_file->cf_user) == 0\n                || is_root) {","            if (strcmp(client->fcl_user, j->j_line->cl_runas) == 0\n                || is_root) {")]),
 (['P27'],'bad','owner by prefix',[(S,"            if (!is_root &&\n                strcmp(client->fcl_user, e->e_line->cl_file->cf_user) != 0) {","            if (!is_root &&\n                strncmp(client->fcl_user, e->e_line->cl_file->cf_user, 0) != 0) {")]),
 (['P27'],'bad','negative nice for all',[(S,"((int)cmd[1] < 0 && !is_root)","((int)cmd[1] < -20 && !is_root)")]),
 (['P27'],'bad','pid 0',[(S,"    if (e->e_job_pid <= 0 || (int)cmd[1] <= 0) {","    if (e->e_job_pid < 0 || (int)cmd[1] <= 0) {")]),
 (['P27'],'bad','signal 0',[(S,"    if (e->e_job_pid <= 0 || (int)cmd[1] <= 0) {","    if (e->e_job_pid <= 0 || (int)cmd[1] < 0) {")]),
 (['P27'],'bad','signal truncated',[(S,"    if (e->e_job_pid <= 0 || (int)cmd[1] <= 0) {","    if (e->e_job_pid <= 0 || cmd[1] <= 0) {")]),
 (['P27'],'bad','kill the controlling process',[(S,"    if (kill(e->e_job_pid, (int)cmd[1]) != 0) {","    if (kill(e->e_ctrl_pid, (int)cmd[1]) != 0) {")]),
 (['P27'],'bad','first process only',[(S,"                if (cmd[0] == CMD_SEND_SIGNAL)\n                    cmd_send_signal(client, cmd, fd, e);","                if (cmd[0] == CMD_SEND_SIGNAL) {\n                    cmd_send_signal(client, cmd, fd, e);\n                    exe_list_end_iteration(exe_list);\n                    break;\n                }")]),
 (['P27'],'bad','run reschedules',[(S,"                if (cmd[0] == CMD_RUNNOW)\n","                if (cmd[0] == CMD_RUNNOW || is_lavg(j->j_line->cl_option))\n")]),
 (['P27'],'bad','serial before lavg',[(S,"                if (is_lavg(j->j_line->cl_option))\n                    add_lavg_job(j->j_line, fd);\n                else if (is_serial(j->j_line->cl_option))\n                    add_serial_job(j->j_line, fd);","                if (is_serial(j->j_line->cl_option))\n                    add_serial_job(j->j_line, fd);\n                else if (is_lavg(j->j_line->cl_option))\n                    add_lavg_job(j->j_line, fd);")]),
 (['P27'],'bad','all for everybody on exeq',[(S,"        if (all && !is_root) {","        if (all && !is_root && cmd[0] != CMD_LIST_EXEQ) {")]),
 (['P27'],'bad','others jobs listed',[(S,"                if (!is_root && strcmp(pass->pw_name, client->fcl_user) != 0) {","                if (!is_root && strcmp(pass->pw_name, client->fcl_user) != 0\n                    && cmd[0] != CMD_LIST_SERIALQ) {")]),
 (['P27'],'bad','root uid 0 only',[(S,"    is_root = (strcmp(client->fcl_user, ROOTNAME) == 0) ? 1 : 0;","    is_root = (strncmp(client->fcl_user, ROOTNAME, 0) == 0) ? 1 : 0;")]),
 (['P27'],'bad','serial queue from 0',[(S,"                i = serial_array_index;","                i = 0;")]),
 (['P27'],'bad','no end marker if nothing found',[(S,"        Send_err_msg_end(fd, err_rjob_nfound_str);\n    }\n    else {","        Send_err_msg(fd, err_rjob_nfound_str);\n    }\n    else {")]),
 (['P27'],'bad','orphans for all',[(S,"                    if (is_root) {\n                        send_msg_fd","                    if (is_root || 1) {\n                        send_msg_fd")]),
 (['P27'],'bad','stale iteration',[(S,"                    cmd_renice(client, cmd, fd, e, is_root);\n","                    cmd_renice(client, cmd, fd, e, 1);\n")]),
 (['P27'],'good','is_mine helper',[(S,"int\nnothing","")]) if 0 else
 (['P27'],'good','is_mine helper',[(S,"void\nexe_cmd(struct fcrondyn_cl *client)","static int\nmay(const struct fcrondyn_cl *c, const struct cl_t *l, int root)\n{\n    if (root)\n        return 1;\n    return !strcmp(l->cl_file->cf_user, c->fcl_user);\n}\nvoid\nexe_cmd(struct fcrondyn_cl *client)"),(S,"void cmd_run(struct fcrondyn_cl *client,","static int may(const struct fcrondyn_cl *c, const struct cl_t *l, int root);\nvoid cmd_run(struct fcrondyn_cl *client,"),(S,"            if (strcmp(client->fcl_user, j->j_line->cl_file->cf_user) == 0\n                || is_root) {","            if (may(client, j->j_line, is_root)) {"),(S,"            if (!is_root &&\n                strcmp(client->fcl_user, e->e_line->cl_file->cf_user) != 0) {","            if (!may(client, e->e_line, is_root)) {")]),
 (['P27'],'good','while loops',[(S,"    for (j = queue_base; j != NULL; j = j->j_next) {\n        if (cmd[1] == j->j_line->cl_id) {\n            if (strcmp","    j = queue_base;\n    for (; j; j = j->j_next) {\n        if (j->j_line->cl_id == cmd[1]) {\n            if (strcmp"),(S,"                    if (++i >= serial_array_size)\n                        i -= serial_array_size;","                    i = (i + 1) % serial_array_size;")]),
 (['P28'],'bad','password prefix',[(S,"    if (strcmp(pass_cry, pass_sys) == 0) {","    if (strncmp(pass_cry, pass_sys, 8) == 0) {")]),
 (['P28'],'bad','limit reset at success',[(S,"        client->fcl_user = strdup2((char *)client->fcl_cmd);\n        send","        auth_fail = 0;\n        client->fcl_user = strdup2((char *)client->fcl_cmd);\n        send")]),
 (['P28'],'bad','limit off by one',[(S,"    if (auth_fail >= MAX_AUTH_FAIL) {","    if (auth_fail > MAX_AUTH_FAIL) {")]),
 (['P28'],'bad','limit without return',[(S,"        error(\"Too many authentication failures : try to connect later.\");\n        send(client->fcl_sock_fd, \"0\", sizeof(\"0\"), 0);\n        return;","        error(\"Too many authentication failures : try to connect later.\");\n        send(client->fcl_sock_fd, \"0\", sizeof(\"0\"), 0);")]),
 (['P28'],'bad','failure not timed',[(S,"        auth_fail++;\n        auth_nofail_since = now;","        if (auth_fail++ == 0)\n            auth_nofail_since = now;")]),
 (['P28'],'bad','peer gid',[(S,"    p_entry = getpwuid(cred.uid);\n    if (p_entry == NULL) {\n        error_e(\"Could not find password entry for uid %d\", cred.uid);","    p_entry = getpwuid(cred.gid);\n    if (p_entry == NULL) {\n        error_e(\"Could not find password entry for uid %d\", cred.uid);")]),
 (['P28'],'bad','getsockopt not checked',[(S,"            (\"Could not get client credentials using getsockopt(SO_PEERCRED)\");\n        return;","            (\"Could not get client credentials using getsockopt(SO_PEERCRED)\");")]),
 (['P28'],'bad','exe unauth',[(S,"                auth_client_password(client);\n            else {","                auth_client_password(client);\n            {")]),
 (['P28'],'bad','not cleared',[(S,"        memset(buf_int, 0, sizeof(buf_int));\n",""),(S,"    if (FD_ISSET(listen_fd, &si->readfds)) {\n        debug","    memset(buf_int, 0, sizeof(buf_int));\n    if (FD_ISSET(listen_fd, &si->readfds)) {\n        debug")]),
 (['P28'],'bad','full read',[(S,"                  sizeof(buf_int) - sizeof(buf_int[0]), 0)) <= 0) {","                  sizeof(buf_int), 0)) <= 0) {")]),
 (['P28'],'good','early answer helper',[(S,"    if (strcmp(pass_cry, pass_sys) == 0) {\n        client->fcl_user = strdup2((char *)client->fcl_cmd);\n        send(client->fcl_sock_fd, \"1\", sizeof(\"1\"), 0);\n    }\n    else {\n        auth_fail++;","    if (!strcmp(pass_sys, pass_cry)) {\n        char *name = (char *)client->fcl_cmd;\n        send(client->fcl_sock_fd, \"1\", sizeof(\"1\"), 0);\n        client->fcl_user = strdup2(name);\n    }\n    else {\n        auth_fail += 1;")]),
 (['P29'],'bad','rm lowest',[(L,"            if (FD_ISSET(i, &si->__readfds_master))\n                break;\n        }\n        si->__fd_max = i;","            if (FD_ISSET(i, &si->__readfds_master))\n                si->__fd_max = i;\n        }")]),
 (['P29'],'bad','rm decrements',[(L,"        for (i = fd; i >= 0; i--) {\n            if (FD_ISSET(i, &si->__readfds_master))\n                break;\n        }\n        si->__fd_max = i;","        i = fd - 1;\n        while (0) ;\n        si->__fd_max = i - 1;")]),
 (['P29'],'bad','add sets max always',[(L,"    if (fd > si->__fd_max) {\n        si->__fd_max = fd;\n    }","    si->__fd_max = fd;")]),
 (['P29'],'bad','call without +1',[(L,"select(si->__fd_max + 1,","select(si->__fd_max,")]),
 (['P29'],'bad','call on master',[(L,"    si->readfds = si->__readfds_master;\n\n    si->retcode = select(si->__fd_max + 1, &si->readfds,","    si->retcode = select(si->__fd_max + 1, &si->__readfds_master,")]),
 (['P29'],'bad','skips next after close',[(S,"        Free_safe(*client);\n        *client = prev_client->fcl_next;","        Free_safe(*client);\n        *client = prev_client->fcl_next ? prev_client->fcl_next->fcl_next : NULL;")]),
 (['P29'],'bad','head not updated',[(S,"        fcrondyn_cl_base = (*client)->fcl_next;\n        Free_safe((*client)->fcl_user);\n        Free_safe(*client);\n        *client = fcrondyn_cl_base;","        struct fcrondyn_cl *n = (*client)->fcl_next;\n        Free_safe((*client)->fcl_user);\n        Free_safe(*client);\n        *client = n;")]),
 (['P29'],'bad','use after free',[(S,"        Free_safe(*client);\n        *client = prev_client->fcl_next;","        struct fcrondyn_cl *old = *client;\n        Free_safe(*client);\n        *client = old->fcl_next;")]),
 (['P29'],'bad','not unwatched',[(S,"    select_rm_read(si, (*client)->fcl_sock_fd);\n    xclose_check(&((*client)->fcl_sock_fd), \"client fd\");","    xclose_check(&((*client)->fcl_sock_fd), \"client fd\");\n    select_rm_read(si, (*client)->fcl_sock_fd);")]),
 (['P29'],'bad','prev not moved on error',[(S,"                error_e(\"error recv() from sock fd %d\", client->fcl_sock_fd);\n                prev_client = client;\n","                error_e(\"error recv() from sock fd %d\", client->fcl_sock_fd);\n")]),
 (['P29'],'bad','idle not refreshed',[(S,"                client->fcl_idle_since = now;\n                exe_cmd(client);","                if (fcrondyn_cl_num > 1)\n                    client->fcl_idle_since = now;\n                exe_cmd(client);")]),
 (['P29'],'bad','blocking refused leaks',[(S,"                shutdown(fd, SHUT_RDWR);\n                xclose_check(&fd, \"client fd\");","                shutdown(fd, SHUT_RDWR);")]),
 (['P29'],'bad','close all leaks last',[(S,"            client_buf = client->fcl_next;\n            Free_safe(client);\n            fcrondyn_cl_num -= 1;\n            client = client_buf;","            client_buf = client->fcl_next;\n            if (client_buf)\n                Free_safe(client);\n            fcrondyn_cl_num -= 1;\n            client = client_buf;")]),
 (['P29'],'good','remove via pointer',[(S,"    if (prev_client == NULL) {\n        fcrondyn_cl_base = (*client)->fcl_next;\n        Free_safe((*client)->fcl_user);\n        Free_safe(*client);\n        *client = fcrondyn_cl_base;\n    }\n    else {\n        prev_client->fcl_next = (*client)->fcl_next;\n        Free_safe((*client)->fcl_user);\n        Free_safe(*client);\n        *client = prev_client->fcl_next;\n    }\n","    {\n        struct fcrondyn_cl *next = (*client)->fcl_next;\n        if (prev_client)\n            prev_client->fcl_next = next;\n        else\n            fcrondyn_cl_base = next;\n        Free_safe((*client)->fcl_user);\n        Free_safe(*client);\n        *client = next;\n    }\n")]),
 (['P29'],'good','find max helper',[(L,"void\nselect_rm_read(","static int\nhighest(select_instance *si, int from)\n{\n    while (from >= 0 && !FD_ISSET(from, &si->__readfds_master))\n        from--;\n    return from;\n}\nvoid\nselect_rm_read("),(L,"        int i;\n        for (i = fd; i >= 0; i--) {\n            if (FD_ISSET(i, &si->__readfds_master))\n                break;\n        }\n        si->__fd_max = i;","        si->__fd_max = highest(si, fd);")]),
 (['P28','P29'],'good','continue style',[(S,"            client->fcl_cmd_len = read_len;\n            client->fcl_cmd = buf_int;\n","            client->fcl_cmd = buf_int;\n            client->fcl_cmd_len = read_len;\n"),(S,"            if (client->fcl_user == NULL)\n                /* not authenticated yet */\n                auth_client_password(client);\n            else {\n","            if (!client->fcl_user) {\n                auth_client_password(client);\n                prev_client = client;\n                client = client->fcl_next;\n                continue;\n            }\n            {\n")]),
]
