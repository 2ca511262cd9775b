SEEDS = [
dict(id='reboot-job-leaves-its-zone', prop='P38', needs='a job with options timezone and runatreboot whose time passed while the system was down', breaks='the daemon stays in the time zone of that job: every job without a time zone which is scheduled afterwards runs at the wrong hour',
 edits=[('database.c', "    if (context == SYSDOWN_RUNATREBOOT)\n        line->cl_nextexe = now;\n    else\n        set_next_exe(line, set_next_exe_opt, -1);\n", "    if (context == SYSDOWN_RUNATREBOOT) {\n        line->cl_nextexe = now;\n        if (line->cl_nextexe < next_period)\n            /* nothing was missed */\n            return;\n    }\n    else\n        set_next_exe(line, set_next_exe_opt, -1);\n")],
 demo=r'''#include "h.h"
/* WRAP: fork */
pid_t __wrap_fork(void) { return -1; }
int main(void) {
    unsetenv("TZ"); setup(); orig_tz_envvar = NULL; cf_t *f = mkfile("root"); cl_t *l = mkline(f, "true");
    set_td(l->cl_option); l->cl_runfreq = 1; l->cl_tz = strdup("XYZ-9");
    bit_nset(l->cl_mins, 0, 59); bit_clear(l->cl_mins, (now / 60 + 10) % 60); bit_nset(l->cl_hrs, 0, 23); bit_nset(l->cl_days, 0, 31); bit_nset(l->cl_mons, 0, 11); bit_nset(l->cl_dow, 0, 7);
    l->cl_nextexe = now;
    set_next_exe_notrun(l, SYSDOWN_RUNATREBOOT);
    CHECK(l->cl_nextexe == now); CHECK(getenv("TZ") == NULL);
    puts("ok"); return 0; }
'''),
dict(id='strict-interval-without-tzdiff', prop='P38', needs='a strict job waiting for the load average in a crontab with tzdiff', breaks='the end of the interval is tzdiff hours off: the job is dropped too early or run outside its interval',
 edits=[('database.c', "        end_of_cur_int =\n            mktime_no_dst(&ftime) + (line->cl_file->cf_tzdiff * 3600);", "        end_of_cur_int = mktime_no_dst(&ftime);")],
 demo=r'''#include "h.h"
int main(void) {
    setenv("TZ", "UTC0", 1); setup(); orig_tz_envvar = "UTC0"; cf_t *f = mkfile("root"); cl_t *l = mkline(f, "true"); lavg_t *e; int i;
    f->cf_tzdiff = 2; time_t day = now - now % 86400;
    set_td(l->cl_option); set_strict(l->cl_option); l->cl_runfreq = 1; l->cl_until = 0; set_lavg(l->cl_option);
    bit_nset(l->cl_mins, 0, 59); bit_nset(l->cl_hrs, 0, 11); bit_nset(l->cl_days, 0, 31); bit_nset(l->cl_mons, 0, 11); bit_nset(l->cl_dow, 0, 7);
    l->cl_nextexe = day + 5 * 3600;
    add_lavg_job(l, -1);
    e = (lavg_t *)u_list_first(lavg_list); CHECK(e != NULL);
    CHECK(e->l_until > day + 13 * 3600 && e->l_until < day + 15 * 3600);
    puts("ok"); return 0; }
'''),
]
