SEEDS = [
dict(id='lavg-serial-slot-leak', prop='P06', needs='a job with both serial and lavg options terminates', breaks='the count of running lavg serial jobs never goes down: after a few such jobs no lavg serial job runs any more',
 edits=[('database.c', "else if (is_lavg(line->cl_option)\n                             && is_serial(line->cl_option))\n                        lavg_serial_running--;", "else if (is_serial_once(line->cl_option)\n                             && is_lavg(line->cl_option))\n                        lavg_serial_running--;")],
 demo=r'''#include "h.h"
/* WRAP: waitpid */
static pid_t q[4]; static int qn;
pid_t __wrap_waitpid(pid_t p, int *st, int o) { return qn ? q[--qn] : 0; }
int main(void) {
    setup(); cf_t *f = mkfile("root"); cl_t *l = mkline(f, "true");
    set_lavg(l->cl_option); set_serial(l->cl_option);
    running(l, 4242); lavg_serial_running = 1; q[qn++] = 4242;
    wait_chld();
    CHECK(l->cl_numexe == 0); CHECK(f->cf_running == 0); CHECK(lavg_serial_running == 0); CHECK(serial_running == 0);
    puts("ok"); return 0; }
'''),
dict(id='one-child-per-signal', prop='P04', needs='two jobs end before the daemon handles SIGCHLD', breaks='only one ended job is collected per SIGCHLD: the other one keeps its slot and stays a zombie',
 edits=[('database.c', "    while ((pid = waitpid(-1, NULL, WNOHANG)) > 0) {\n\n        for", "    if ((pid = waitpid(-1, NULL, WNOHANG)) > 0) {\n\n        for")],
 demo=r'''#include "h.h"
/* WRAP: waitpid */
static pid_t q[4]; static int qn;
pid_t __wrap_waitpid(pid_t p, int *st, int o) { return qn ? q[--qn] : 0; }
int main(void) {
    setup(); cf_t *f = mkfile("root"); cl_t *l = mkline(f, "true"), *m = mkline(f, "false");
    running(l, 4242); running(m, 4343); q[qn++] = 4242; q[qn++] = 4343;
    wait_chld();
    CHECK(l->cl_numexe == 0); CHECK(m->cl_numexe == 0); CHECK(f->cf_running == 0);
    puts("ok"); return 0; }
'''),
dict(id='reload-saves-before-waiting', prop='P05', needs='reload of all crontabs (SIGUSR1) while a job is running', breaks='the state written to disk is the one before the job ended; it is then dropped from memory, so the reloaded crontab believes that the job is still running',
 edits=[('conf.c', "        if (f->cf_running > 0)\n            wait_all(&f->cf_running);\n        save_file(f);\n        delete_file(f->cf_user);", "        save_file(f);\n        if (f->cf_running > 0)\n            wait_all(&f->cf_running);\n        delete_file(f->cf_user);")],
 demo=r'''#include "h.h"
/* WRAP: waitpid save_file_safe */
static pid_t q[4]; static int qn; static int saved_numexe = -1;
pid_t __wrap_waitpid(pid_t p, int *st, int o) { return qn ? q[--qn] : -1; }
int __wrap_save_file_safe(cf_t *f, char *p, char *n, uid_t u, gid_t g, time_t t) { saved_numexe = f->cf_line_base->cl_numexe; return OK; }
int main(void) {
    setup(); cf_t *f = mkfile("root"); cl_t *l = mkline(f, "true");
    running(l, 4242); q[qn++] = 4242;
    reload_all(".");
    CHECK(saved_numexe == 0);
    puts("ok"); return 0; }
'''),
dict(id='wake-time-before-lavg', prop='P07', needs='a load average job whose until is exceeded is rescheduled earlier than everything else in the queue', breaks='the daemon sleeps until the next save although a job is due earlier',
 edits=[('database.c', "    time_t nwt = now;\n    lavg_t *l = NULL;\n", "    time_t nwt = next_wake_time(lim);\n    lavg_t *l = NULL;\n"), ('database.c', "    /* we do this set here as the nextexe of lavg line may change before */\n    nwt = next_wake_time(lim);\n\n", "")],
 demo=r'''#include "h.h"
/* WRAP: waitpid */
pid_t __wrap_waitpid(pid_t p, int *st, int o) { return -1; }
int main(void) {
    setup(); cf_t *f = mkfile("root"); cl_t *l = mkline(f, "true");
    set_freq(l->cl_option); set_lavg(l->cl_option); clear_run_if_late(l->cl_option); clear_notice_notrun(l->cl_option);
    l->cl_timefreq = 30; l->cl_until = 5; l->cl_nextexe = now + 86400; l->cl_numexe = 1;
    insert_nextexe(l);
    lavg_t *e = lavg_list_add_line(lavg_list, l); e->l_until = now - 10;
    time_t w = check_lavg(now + 1800);
    CHECK(lavg_list->num_entries == 0);
    CHECK(l->cl_nextexe <= now + 31);
    CHECK(w <= l->cl_nextexe);
    puts("ok"); return 0; }
'''),
]
