U='u_list.c'; V='env_list.c'; D='database.c'; Y='fcrondyn_svr.c'; S='save.c'; C='conf.c'
CASES=[
 (['P34'],'bad','remove forgets removed mark',[(U,"    l->num_entries--;\n    l->cur_removed = 1;","    l->num_entries--;")]),
 (['P34'],'bad','removed mark kept at the end',[(U,"    if (l->cur_removed > 0) {\n        l->cur_removed = 0;","    if (l->cur_removed > 0) {\n        if (l->cur_entry <= u_list_last(l)) l->cur_removed = 0;")]),
 (['P34'],'bad','end iteration keeps removed',[(U,"    list->cur_entry = NULL;\n    list->cur_removed = 0;","    list->cur_entry = NULL;")]),
 (['P34'],'bad','removed last visited again',[(U,"if (l->cur_entry > u_list_last(l))","if (l->cur_entry > u_list_last(l) + l->entry_size)")]),
 (['P34'],'bad','resize without moving the iteration',[(U,"    if (l->cur_entry != NULL)\n        l->cur_entry = (u_list_entry_t *) ((char *)l->entries_array + offset);","")]),
 (['P34'],'bad','resize clears by entries',[(U,"memset((char *)l->entries_array + (old_size * l->entry_size), '\\0',","memset((char *)l->entries_array + old_size, '\\0',")]),
 (['P34'],'bad','resize ignores max',[(U,"    if (l->max_entries > 0 && l->array_size > l->max_entries)\n        l->array_size = l->max_entries;","")]),
 (['P34'],'bad','resize at max off by one',[(U,"l->max_entries > 0 && l->array_size >= l->max_entries","l->max_entries > 0 && l->array_size > l->max_entries")]),
 (['P34'],'bad','add counted before room is sure',[(U,"    /* Check there is some space left, or resize the array */\n    if (l->num_entries >= l->array_size) {","    l->num_entries++;\n    if (l->num_entries > l->array_size) {"),(U,"            return NULL;\n    }\n\n    l->num_entries++;\n","            return NULL;\n    }\n\n")]),
 (['P34'],'good','add counted, undone on error',[(U,"            return NULL;\n    }\n\n    l->num_entries++;\n    new = u_list_last(l);","            return NULL;\n    }\n\n    new = (u_list_entry_t *) ((char *)l->entries_array + l->num_entries * l->entry_size);\n    l->num_entries += 1;")]),
 (['P34'],'bad','grow by one short',[(U,"(l->array_size * l->entry_size),\n                     \"larger","((l->array_size - 1) * l->entry_size),\n                     \"larger")]),
 (['P34'],'bad','serve error leaves iteration',[(Y,"                    exe_list_end_iteration(exe_list);\n                    return;","                    return;")]),
 (['P34'],'bad','chld leaves iteration',[(D,"                        lavg_serial_running--;\n                }\n\n                exe_list_remove_cur(exe_list);\n                exe_list_end_iteration(exe_list);","                        lavg_serial_running--;\n                }\n\n                exe_list_remove_cur(exe_list);")]),
 (['P34'],'bad','chld removes after the end',[(D,"                        lavg_serial_running--;\n                }\n\n                exe_list_remove_cur(exe_list);\n                exe_list_end_iteration(exe_list);","                        lavg_serial_running--;\n                }\n\n                exe_list_end_iteration(exe_list);\n                exe_list_remove_cur(exe_list);")]),
 (['P34'],'bad','getenv leaves iteration',[(V,"            env_list_end_iteration(list);\n            return (c->e_envvar + strlen(name) + 1);","            return (c->e_envvar + strlen(name) + 1);")]),
 (['P34'],'bad','copy keeps cur entry of the source',[(U,"    new_list->cur_entry = NULL;\n","")]),
 (['P34'],'bad','copy too short',[(U,"           (list->array_size * list->entry_size));\n","           (list->num_entries * list->grow_size));\n")]),
 (['P34'],'bad','init array one short',[(U,"alloc_safe(init_size * entry_size,","alloc_safe((init_size - 1) * entry_size,")]),
 (['P34'],'good','save copies before loop',[(S,"         env != NULL; env = env_list_next(file->cf_env_list)) {","         env; env = env_list_next(file->cf_env_list)) {\n        if (env->e_envvar == NULL)\n            continue;")]),
 (['P34'],'bad','save stops at empty without ending',[(S,"         env != NULL; env = env_list_next(file->cf_env_list)) {","         env; env = env_list_next(file->cf_env_list)) {\n        if (env->e_envvar == NULL)\n            break;")]),
 (['P34'],'good','next through index',[(U,"        if (l->cur_entry < u_list_last(l))\n            l->cur_entry =\n                (u_list_entry_t *) ((char *)l->cur_entry + l->entry_size);","        u_list_entry_t *last = u_list_last(l);\n        if (last != NULL && last > l->cur_entry)\n            l->cur_entry =\n                (u_list_entry_t *) (l->entry_size + (char *)l->cur_entry);")]),
 (['P34'],'bad','remove shifts instead of replacing, wrong size',[(U,"        memcpy(l->cur_entry, last, l->entry_size);","        memcpy(l->cur_entry, last, sizeof(l->entry_size));")]),
 (['P34'],'bad','max when finding first',[(U,"    if (l->num_entries > 0) {\n        l->cur_entry","    if (l->num_entries > 1) {\n        l->cur_entry")]),
 (['P34'],'bad','nested ls in kill',[(Y,"                if (cmd[0] == CMD_SEND_SIGNAL)\n                    cmd_send_signal(client, cmd, fd, e);","                if (cmd[0] == CMD_SEND_SIGNAL) {\n                    cmd_send_signal(client, cmd, fd, e);\n                    cmd_ls(client, cmd, fd, is_root);\n                }")]),
]
