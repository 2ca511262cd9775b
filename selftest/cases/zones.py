D = 'database.c'; F = 'fcron.c'; P = ['P38']
CASES = [
 (P, 'bad', 'not switched back after the uptime branch', [(D, """        ft = localtime(&(line->cl_nextexe));

        /* localtime() returns a statically""", """        if (line->cl_timefreq == LONG_MAX) {
            insert_nextexe(line);
            return;
        }
        ft = localtime(&(line->cl_nextexe));

        /* localtime() returns a statically""")]),
 (P, 'bad', 'switched back to none', [(D, """    if (orig_tz == NULL) {
        my_unsetenv("TZ");
    }
    else {""", """    if (orig_tz == NULL || *orig_tz != '\\0') {
        my_unsetenv("TZ");
    }
    else {""")]),
 (P, 'good', 'switch compares with the zone at startup', [(D, '    char *current_tz = getenv("TZ");\n', '    const char *current_tz = orig_tz;\n')]),
 (P, 'good', 'switch says always switched', [(D, """        return 1;
    }
    else
        return 0;
}

void
switch_back""", """        return 1;
    }
    else
        return dest_tz != NULL;
}

void
switch_back""")]),
 (P, 'bad', 'no TZ is never switched', [(D, '(current_tz == NULL || strcmp(dest_tz, current_tz) != 0)', '(current_tz != NULL && strcmp(dest_tz, current_tz) != 0)')]),
 (P, 'bad', 'setenv does not overwrite', [('subs.c', 'if (setenv(name, value, 1) != 0)', 'if (setenv(name, value, 0) != 0)')]),
 (P, 'bad', 'tzdiff added in set_next_exe', [(D, 'time_t basetime_tz = basetime - (line', 'time_t basetime_tz = basetime + (line')]),
 (P, 'bad', 'tzdiff not put back', [(D, 'line->cl_nextexe = nextexe + (line->cl_file->cf_tzdiff * 3600);', 'line->cl_nextexe = nextexe;')]),
 (P, 'bad', 'tzdiff in minutes on the way back', [(D, 'line->cl_nextexe = nextexe + (line->cl_file->cf_tzdiff * 3600);', 'line->cl_nextexe = nextexe + (line->cl_file->cf_tzdiff * 60);')]),
 (P, 'bad', 'strict until without tzdiff', [(D, '            mktime_no_dst(&ftime) + (line->cl_file->cf_tzdiff * 3600);\n\n        if ((line', '            mktime_no_dst(&ftime);\n\n        if ((line')]),
 (P, 'bad', 'strict base without tzdiff', [(D, 'begin_of_cur_int = line->cl_nextexe - (line->cl_file->cf_tzdiff * 3600);', 'begin_of_cur_int = line->cl_nextexe;')]),
 (P, 'bad', 'strict switch back too soon', [(D, """        move_time_to(END_OF_INTERVAL, line, &ftime);

        end_of""", """        move_time_to(END_OF_INTERVAL, line, &ftime);
        if (tz_changed > 0) {
            switch_back_timezone(orig_tz_envvar);
            tz_changed = 0;
        }

        end_of""")]),
 (P, 'bad', 'notrun returns early', [(D, """    if (context == SYSDOWN_RUNATREBOOT)
        line->cl_nextexe = now;
    else""", """    if (context == SYSDOWN_RUNATREBOOT) {
        line->cl_nextexe = now;
        return;
    }
    else""")]),
 (P, 'bad', 'notrun switches after', [(D, """    tz_changed = switch_timezone(orig_tz_envvar, line->cl_tz);

    if (context == SYSDOWN ||""", """    if (context == SYSDOWN ||"""), (D, """    ftime.tm_sec = 0;
    move_time_to(BEGIN""", """    tz_changed = switch_timezone(orig_tz_envvar, line->cl_tz);
    ftime.tm_sec = 0;
    move_time_to(BEGIN""")]),
 (P, 'bad', 'mail child without zone', [(D, """    switch_timezone(orig_tz_envvar, line->cl_tz);

    if (context == QUEUE_FULL)""", """    if (context == QUEUE_FULL)""")]),
 (P, 'bad', 'mail parent switches', [(D, """    exe_t *e = NULL;

    switch (pid = fork()) {
    case -1:
        error_e("Fork error : could not mail""", """    exe_t *e = NULL;

    switch_timezone(orig_tz_envvar, line->cl_tz);
    switch (pid = fork()) {
    case -1:
        error_e("Fork error : could not mail""")]),
 (P, 'bad', 'mail time_t no switch back', [(D, """    mail_notrun(line, SYSDOWN, &since);

    if (tz_changed > 0)""", """    mail_notrun(line, SYSDOWN, &since);

    if (tz_changed < 0)""")]),
 (P, 'bad', 'zone at startup not kept', [(F, '    orig_tz_envvar = strdup2(getenv("TZ"));', '    if (debug_opt)\n        orig_tz_envvar = strdup2(getenv("TZ"));')]),
 (P, 'bad', 'zone at startup kept after', [(F, '    orig_tz_envvar = strdup2(getenv("TZ"));', '    my_unsetenv("TZ");\n    orig_tz_envvar = strdup2(getenv("TZ"));')]),
 (P, 'good', 'switch only when it differs, by hand', [(D, """    if (dest_tz != NULL &&
        (current_tz == NULL || strcmp(dest_tz, current_tz) != 0)) {
        my_setenv_overwrite("TZ", dest_tz);
        return 1;
    }
    else
        return 0;""", """    if (dest_tz == NULL)
        return 0;
    if (current_tz != NULL && strcmp(current_tz, dest_tz) == 0)
        return 0;
    my_setenv_overwrite("TZ", dest_tz);
    return 1;""")]),
 (P, 'good', 'helper for the time of the job', [(D, """void
mail_notrun_time_t(cl_t *line""", """static time_t
to_local(cl_t *l, time_t t)
{
    return t - (l->cl_file->cf_tzdiff * 3600);
}

void
mail_notrun_time_t(cl_t *line"""), (D, """int
switch_timezone(const""", """static time_t to_local(cl_t *l, time_t t);

int
switch_timezone(const"""), (D, 'time_t basetime_tz = basetime - (line->cl_file->cf_tzdiff * 3600);', 'time_t basetime_tz = to_local(line, basetime);'), (D, 'begin_of_cur_int = line->cl_nextexe - (line->cl_file->cf_tzdiff * 3600);', 'begin_of_cur_int = to_local(line, line->cl_nextexe);')]),
 (P, 'good', 'original zone kept through strdup', [(F, '    orig_tz_envvar = strdup2(getenv("TZ"));', '    {\n        const char *z = getenv("TZ");\n        orig_tz_envvar = (z != NULL) ? strdup(z) : NULL;\n    }')]),
 (P, 'good', 'switch in the td branch only', [(D, """    tz_changed = switch_timezone(orig_tz_envvar, line->cl_tz);

    if (is_td(line->cl_option)) {
""", """    if (is_td(line->cl_option)) {
        const int sw = tz_changed = switch_timezone(orig_tz_envvar, line->cl_tz);
""")]),
 (P, 'good', 'helper for both ends', [(D, """    insert_nextexe(line);

    if (tz_changed > 0)
        switch_back_timezone(orig_tz_envvar);

}""", """    if (tz_changed != 0)
        switch_back_timezone(orig_tz_envvar);

    insert_nextexe(line);
}""")]),
 (['P19'], 'bad', 'tzdiff change in minutes', [('conf.c', 'old_l->cl_file->cf_tzdiff) * 3600 : 0;', 'old_l->cl_file->cf_tzdiff) * 60 : 0;')]),
 (['P19'], 'bad', 'tzdiff change moves @ lines', [('conf.c', 'tzdiff_change = (is_td(new_l->cl_option)) ?', 'tzdiff_change = (is_td(new_l->cl_option) || is_freq(new_l->cl_option)) ?')]),
 (['P19'], 'bad', 'tzdiff change only forward', [('conf.c', 'if (tzdiff_change != 0', 'if (tzdiff_change > 0')]),
]
