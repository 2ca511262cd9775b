F='fcrontab.c'
CASES=[
 (['P24'],'bad','read error accepted',[(F,"    if (nb == -1) {\n        error_e(\"Error while reading","    if (nb < -1) {\n        error_e(\"Error while reading")]),
 (['P24'],'bad','short write accepted',[(F,"        if (write(to_fd, copy_buf, nb) != nb) {","        if (write(to_fd, copy_buf, nb) < 0) {")]),
 (['P24'],'bad','no lseek',[(F,"    lseek(from, 0, SEEK_SET);","    ;")]),
 (['P24'],'bad','lseek to current',[(F,"    lseek(from, 0, SEEK_SET);","    lseek(from, 0, SEEK_CUR);")]),
 (['P24'],'bad','rename failure ignored',[(F,"                tmp_filename_str, dest);\n        goto exiterr;","                tmp_filename_str, dest);")]),
 (['P24'],'bad','opens dest itself',[(F,"        open_as_user(tmp_filename_str,\n","        open_as_user(dest,\n")]),
 (['P24'],'bad','parse error installs',[(F,"    case ERR:\n        return ERR;\n    }\n\n    return OK;","    case ERR:\n        break;\n    }\n\n    return write_file(fd);")]),
 (['P24'],'bad','save result ignored',[(F,"            if (save_file(buf) != OK)\n                return_val = ERR;","            save_file(buf);")]),
 (['P24'],'bad','copy after save',[(F,"    if (copy_src(fd, buf) == ERR) {\n        return_val = ERR;\n    }\n    else {","    {"),(F,"                return_val = ERR;\n        }\n\n    }\n\n    return return_val;","                return_val = ERR;\n        }\n        snprintf(buf, sizeof(buf), \"%s.orig\", user);\n        if (copy_src(fd, buf) == ERR) return_val = ERR;\n\n    }\n\n    return return_val;")]),
 (['P24'],'bad','no sig after file install',[(F,"        if (write_file(fd) == ERR)\n            return ERR;\n        else\n            /* tell daemon to update the conf */\n            need_sig = 1;","        if (write_file(fd) == ERR)\n            return ERR;")]),
 (['P24'],'bad','no sig after edit',[(F,"    if (write_file(file) != OK)\n        return_val = EXIT_ERR;\n    else\n        /* tell daemon to update the conf */\n        need_sig = 1;","    if (write_file(file) != OK)\n        return_val = EXIT_ERR;")]),
 (['P24'],'bad','edit failure is success',[(F,"    if (write_file(file) != OK)\n        return_val = EXIT_ERR;","    if (write_file(file) != OK)\n        need_sig = 0;")]),
 (['P24'],'bad','removed before copy with -n',[(F,"    /* copy original file to fcrontabs dir */\n","    if (ignore_prev == 1) remove_fcrontab(0);\n")]),
 (['P24'],'bad','-n after the save',[(F,"        if (ignore_prev == 1)\n            /* if user","        if (0)\n            /* if user"),(F,"            if (save_file(buf) != OK)\n                return_val = ERR;","            if (save_file(buf) != OK)\n                return_val = ERR;\n            if (ignore_prev == 1) remove_fcrontab(0);")]),
 (['P24'],'bad','rm drops the source always',[(F,"    if ((rm_orig && remove_as_user(buf, fcrontab_uid, fcrontab_gid)) != 0) {","    if (remove_as_user(buf, fcrontab_uid, fcrontab_gid) != 0) {")]),
 (['P24'],'bad','pending version kept',[(F,"    snprintf(buf, sizeof(buf), \"new.%s\", user);\n    remove_as_user(buf, useruid, fcrontab_gid);\n","")]),
 (['P24'],'bad','any answer installs',[(F,"                    if (c == 'i') {\n                        break;","                    if (c != 'c') {\n                        break;")]),
 (['P24'],'bad','eof installs',[(F,"                if (c == EOF)\n                    /* no answer: fcrontab is unchanged */\n                    goto exiterr;\n","")]),
 (['P24'],'bad','correction not reset',[(F,"            correction = 0;\n\n            switch","            switch")]),
 (['P24'],'bad','killed editor accepted',[(F,"        if (!WIFEXITED(status)) {","        if (WIFSTOPPED(status)) {")]),
 (['P24'],'bad','mtime not newer',[(F,"        else if (st.st_mtime > mtime || correction == 1) {","        else if (st.st_mtime >= mtime || correction == 1) {")]),
 (['P24'],'bad','fflush unchecked',[(F,"    if (fflush(tmp_file) != 0) {\n        error_e(\"Could not fflush(%s)\", tmp_str);\n        goto exiterr;\n    }","    fflush(tmp_file);")]),
 (['P24'],'bad','no fflush in edit',[(F,"    if (fflush(fi) != 0) {\n        error_e(\"Could not fflush(%s)\", tmp_str);\n        goto exiterr;\n    }\n    fi = NULL;","    fi = NULL;")]),
 (['P24'],'bad','child falls through',[(F,"            error_e(\"Error while running \\\"%s\\\"\", cureditor);\n            goto exiterr;","            error_e(\"Error while running \\\"%s\\\"\", cureditor);\n            break;")]),
 (['P24'],'bad','exit ok when install fails',[(F,"            if (make_file(fcrontab_file_path, fd) == OK)\n                xexit(EXIT_OK);\n            else\n                xexit(EXIT_ERR);","            make_file(fcrontab_file_path, fd);\n            xexit(EXIT_OK);")]),
 (['P24'],'bad','signal not waited',[(F,"            /* parent */\n            waitpid(pid, NULL, 0);\n            break;\n        }\n    }","            /* parent */\n            break;\n        }\n    }")]),
 (['P24'],'bad','fork failure is success',[(F,"            error_e(\"Could not fork (fcron has not been signaled)\");\n            exit(ERR);","            error_e(\"Could not fork (fcron has not been signaled)\");")]),
 (['P24'],'bad','empty crontab keeps previous',[(F,"contains no entries : removed.\", user);\n            remove_fcrontab(0);","contains no entries : removed.\", user);")]),
 (['P24'],'bad','rm without sig',[(F,"    need_sig = 1;\n\n    return return_val;","    need_sig = (return_val == OK && fd >= 0);\n\n    return return_val;")]),
 (['P24'],'good','write_file early return',[(F,"    if (copy_src(fd, buf) == ERR) {\n        return_val = ERR;\n    }\n    else {","    if (copy_src(fd, buf) != OK)\n        return ERR;\n    {")]),
 (['P24'],'good','local name buffer',[(F,"    int return_val = OK;\n\n    /* copy original file to fcrontabs dir */\n    snprintf(buf, sizeof(buf), \"%s.orig\", user);\n    if (copy_src(fd, buf) == ERR) {","    int return_val = OK;\n    char name[PATH_LEN];\n\n    snprintf(name, sizeof(name), \"%s.orig\", user);\n    if (copy_src(fd, name) == ERR) {")]),
 (['P24'],'good','helper asks',[(F,"void\nedit_file(const char *fcron_orig)","static int\nask_errors(void)\n{\n    int c, d;\n    for (;;) {\n        c = d = getchar();\n        while (d != '\\n' && d != EOF) d = getchar();\n        if (c == EOF || c == 'i' || c == 'c') return c;\n        fprintf(stderr, \"again: \");\n    }\n}\n\nvoid\nedit_file(const char *fcron_orig)"),
   (F,"""                while ((c = getchar()) != EOF) {
                    int d = c;

                    /* consume the rest of the line, e.g. the newline char (\\n) */
                    while (d != '\\n' && d != EOF)
                        d = getchar();

                    if (c == 'i') {
                        break;
                    }
                    else if (c == 'c') {
                        /* free memory used to store the list */
                        delete_file(user);
                        correction = 1;
                        break;
                    }
                    else {
                        fprintf(stderr,
                                "Please press c to correct, "
                                "or i to ignore: ");
                    }
                }
                if (c == EOF)""","""                c = ask_errors();
                if (c == 'c') {
                    delete_file(user);
                    correction = 1;
                }
                if (c == EOF)""")]),
 (['P24'],'good','copy loop rewritten',[(F,"    while ((nb = read(from, copy_buf, sizeof(copy_buf))) != -1 && nb != 0)\n        if (write(to_fd, copy_buf, nb) != nb) {","    for (;;) {\n        nb = read(from, copy_buf, sizeof(copy_buf));\n        if (nb <= 0) break;\n        if (write(to_fd, copy_buf, nb) != nb) {"),(F,"            goto exiterr;\n        }\n    if (nb == -1) {","            goto exiterr;\n        }\n    }\n    if (nb == -1) {")]),
 (['P24'],'good','unmodified test nested',[(F,"            if (make_file(fcrontab_file_path, fd) == OK)\n                xexit(EXIT_OK);\n            else\n                xexit(EXIT_ERR);","            xexit(make_file(fcrontab_file_path, fd) == OK ? EXIT_OK : EXIT_ERR);")]),
 (['P24'],'good','install_stdin result',[(F,"    if (make_file(tmp_str, tmp_fd) == ERR)\n        goto exiterr;\n    else\n        goto exit;","    if (make_file(tmp_str, tmp_fd) == OK)\n        goto exit;")]),
]
