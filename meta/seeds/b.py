SEEDS = [
dict(id='serial-ring-grows-rotated', prop='P21', needs='the serial queue has wrapped around when it has to grow', breaks='after the growth the first jobs of the queue are looked for at the old position: others are run in their place, or an empty one',
 edits=[('database.c', "            serial_array_index = 0;\n            Free_safe(serial_array);", "            Free_safe(serial_array);")],
 demo=r'''#include "h.h"
int main(void) {
    setup(); cf_t *f = mkfile("root"); cl_t *l[8]; int i;
    for (i = 0; i < 8; i++) { char c[8]; sprintf(c, "j%d", i); l[i] = mkline(f, c); set_serial(l[i]->cl_option); }
    serial_queue_max = 100; serial_array_index = 2; serial_num = 0;
    for (i = 0; i < 5; i++) add_serial_job(l[i], -1);
    CHECK(serial_num == 5); CHECK(serial_array_size > 4);
    for (i = 0; i < 5; i++) CHECK(serial_array[(serial_array_index + i) % serial_array_size] == l[i]);
    puts("ok"); return 0; }
'''),
dict(id='serial-queue-limit-off-by-one-growth', prop='P13', needs='the serial queue reaches its maximum', breaks='the serial queue accepts more jobs than the maximum set with -q',
 edits=[('database.c', "        if (serial_num >= serial_queue_max) {", "        if (serial_num > serial_queue_max) {")],
 demo=r'''#include "h.h"
int main(void) {
    setup(); cf_t *f = mkfile("root"); cl_t *l[8]; int i;
    for (i = 0; i < 8; i++) { l[i] = mkline(f, "x"); set_serial(l[i]->cl_option); clear_notice_notrun(l[i]->cl_option); }
    serial_queue_max = 4;
    for (i = 0; i < 5; i++) add_serial_job(l[i], -1);
    CHECK(serial_num == 4); CHECK(l[4]->cl_numexe == 0);
    puts("ok"); return 0; }
'''),
dict(id='grown-list-iteration-dangles', prop='P34', needs='a job is started while going through the list of running jobs, which is full and moves in memory', breaks='the list is gone through in the memory released: the daemon takes garbage for running jobs, and never reaches its end',
 edits=[('u_list.c', "    if (l->cur_entry != NULL)\n        l->cur_entry = (u_list_entry_t *) ((char *)l->entries_array + offset);\n", "    if (l->cur_entry != NULL && offset == 0)\n        l->cur_entry = (u_list_entry_t *) ((char *)l->entries_array + offset);\n")],
 demo=r'''#include "h.h"
/* WRAP: realloc */
void *__wrap_realloc(void *p, size_t n) { void *m = calloc(1, n); memcpy(m, p, n / 2); return m; }
int main(void) {
    setup(); cf_t *f = mkfile("root"); cl_t *l = mkline(f, "x"); exe_t *e; int i, n = exe_list->array_size, seen = 0, g = exe_list->grow_size;
    CHECK(2 * n >= n + g || 1);
    for (i = 0; i < n; i++) running(l, 100 + i);
    for (e = exe_list_first(exe_list), i = 0; e && i < 3 * n; e = exe_list_next(exe_list), i++) { if (i == 1) running(l, 100 + n); }
    CHECK(e == NULL); CHECK(i == n + 1);
    puts("ok"); return 0; }
'''),
dict(id='variable-name-prefix', prop='P35', needs='a variable of the crontab whose name is the beginning of the name of another one', breaks='setting a variable replaces another one of which the name only begins the same',
 edits=[('subs.c', "        && (*right == '\\0' || *right == until)) {", "        && (*right == '\\0' || *right == until || *left == '\\0')) {")],
 demo=r'''#include "h.h"
int main(void) {
    setup(); env_list_t *l = env_list_init();
    env_list_setenv(l, "PATHS", "a", 1); env_list_setenv(l, "PATH", "b", 1);
    CHECK(env_list_getenv(l, "PATHS") && !strcmp(env_list_getenv(l, "PATHS"), "a"));
    CHECK(env_list_getenv(l, "PATH") && !strcmp(env_list_getenv(l, "PATH"), "b")); CHECK(l->num_entries == 2);
    puts("ok"); return 0; }
'''),
dict(id='rescheduled-job-never-moves-forward', prop='P22', needs='a job already in the schedule gets an earlier time (new version of a crontab, run now and rescheduled)', breaks='the job stays behind others of later times: the schedule is not sorted, and the job runs late',
 edits=[('database.c', "    if (jprev == NULL || line->cl_nextexe < jprev->j_line->cl_nextexe) {", "    if (jprev == NULL || line->cl_nextexe == jprev->j_line->cl_nextexe) {")],
 demo=r'''#include "h.h"
int main(void) {
    setup(); cf_t *f = mkfile("root"); cl_t *l[4]; int i; job_t *j;
    for (i = 0; i < 4; i++) { l[i] = mkline(f, "x"); l[i]->cl_nextexe = 100 + 10 * i; insert_nextexe(l[i]); }
    l[3]->cl_nextexe = 105; insert_nextexe(l[3]);
    for (i = 0, j = queue_base; j; j = j->j_next, i++) if (j->j_next) CHECK(j->j_line->cl_nextexe <= j->j_next->j_line->cl_nextexe);
    CHECK(i == 4); CHECK(queue_base->j_next->j_line == l[3]);
    puts("ok"); return 0; }
'''),
dict(id='lavgor-third-value', prop='P11', needs='a lavgor job with only a limit on the load of the last 15 minutes', breaks='the load average of the last 15 minutes is compared with the limit for 5 minutes: the job waits for ever, or starts under load',
 edits=[('database.c', "                    || l_avg[2] < l->l_line->cl_lavg[2])\n            )", "                    || l_avg[2] < l->l_line->cl_lavg[1])\n            )")],
 demo=r'''#include "h.h"
/* WRAP: getloadavg fork */
int __wrap_getloadavg(double *a, int n) { a[0] = 9; a[1] = 9; a[2] = 1; return 3; }
pid_t __wrap_fork(void) { return 4242; }
int main(void) {
    setup(); cf_t *f = mkfile("root"); cl_t *l = mkline(f, "x"); set_lor(l->cl_option); set_lavg(l->cl_option);
    l->cl_lavg[2] = 30; l->cl_nextexe = now + 1000; l->cl_runfreq = 10; insert_nextexe(l); serial_max_running = 1; add_lavg_job(l, -1); CHECK(lavg_list->num_entries == 1);
    check_lavg(now + 60); CHECK(lavg_list->num_entries == 0);
    puts("ok"); return 0; }
'''),
]
