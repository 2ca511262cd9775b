/* common part of the demonstrations: an in-memory schedule, no daemon */
#include "global.h"
#include "fcron.h"
#include "database.h"
#include "conf.h"
#include "job.h"
#include "save.h"
#include "exe_list.h"
#include "lavg_list.h"
#include "env_list.h"
#include "option.h"
#include "cl.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define CHECK(c) do { if (!(c)) { printf("CHECK failed line %d: %s\n", __LINE__, #c); fflush(stdout); _exit(3); } } while (0)
static cf_t *mkfile(const char *user) {
    cf_t *f = calloc(1, sizeof(*f)); f->cf_user = strdup(user); f->cf_env_list = env_list_init();
    f->cf_next = file_base; file_base = f; return f;
}
static cl_t *mkline(cf_t *f, const char *cmd) {
    cl_t *l = calloc(1, sizeof(*l)); set_default_opt(l->cl_option);
    l->cl_shell = strdup(cmd); l->cl_runas = strdup(f->cf_user); l->cl_mailto = strdup(f->cf_user); l->cl_file = f;
    l->cl_next = f->cf_line_base; f->cf_line_base = l; l->cl_nextexe = 0; return l;
}
static void setup(void) {
    now = time(NULL); exe_list = exe_list_init(); lavg_list = lavg_list_init();
    serial_array_size = 4; serial_array = calloc(4, sizeof(cl_t *)); lavg_list->max_entries = 100;
    extern char foreground; foreground = 1; dosyslog = 0;
}
static exe_t *running(cl_t *l, pid_t pid) {
    exe_t e; memset(&e, 0, sizeof(e)); e.e_line = l; e.e_ctrl_pid = pid; e.e_job_pid = 0;
    l->cl_numexe++; l->cl_file->cf_running++; return exe_list_add(exe_list, &e);
}
