SEEDS = [
dict(id='damaged-crontab-stays-open', prop='P36', needs='a damaged crontab in the spool directory', breaks='each time the damaged crontab is refused, a file of the daemon stays open, until it can open no more',
 edits=[('conf.c', " err:\n    if (ff != NULL)\n        xfclose_check(&ff, file_name);", " err:\n    if (ff != NULL && ferror(ff))\n        xfclose_check(&ff, file_name);")],
 demo=r'''#include "h.h"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
extern int read_file(const char *, cf_t *, int);
static int nfds(void) { int n = 0, i; for (i = 0; i < 200; i++) { struct stat s; if (fstat(i, &s) == 0) n++; } return n; }
int main(void) {
    setup(); FILE *f = fopen("root", "w"); fputs("not a crontab at all", f); fclose(f); chmod("root", 0600);
    extern uid_t rootuid; rootuid = getuid();
    int i, n; cf_t *c;
    c = calloc(1, sizeof(*c)); read_file("root", c, 0); n = nfds();
    for (i = 0; i < 5; i++) { c = calloc(1, sizeof(*c)); CHECK(read_file("root", c, 0) != 0); }
    CHECK(nfds() == n); puts("ok"); return 0; }
'''),
dict(id='second-daemon-allowed', prop='P37', needs='a second daemon is started while the first one runs', breaks='both daemons hold the lock and run each job',
 edits=[('fcron.c', "    if (flock(fd, LOCK_EX | LOCK_NB) != 0)\n#else                           /* HAVE_FLOCK */\n    if (lockf(fileno(daemon_lockfp), F_TLOCK, 0) != 0)", "    if (flock(fd, (foreground ? LOCK_EX : LOCK_SH) | LOCK_NB) != 0)\n#else                           /* HAVE_FLOCK */\n    if (lockf(fileno(daemon_lockfp), F_TLOCK, 0) != 0)")],
 demo=r'''#include "h.h"
#include <sys/wait.h>
#include <unistd.h>
extern void get_lock(void);
int main(void) {
    extern char *pidfile; extern char foreground; int st = 0; pid_t p, q; int t[2]; char c;
    setup(); foreground = 0; pidfile = "fcron.pid"; CHECK(pipe(t) == 0);
    if ((p = fork()) == 0) { get_lock(); write(t[1], "x", 1); sleep(20); _exit(0); }
    CHECK(read(t[0], &c, 1) == 1);
    if ((q = fork()) == 0) { get_lock(); _exit(77); }
    CHECK(waitpid(q, &st, 0) == q); kill(p, 9); waitpid(p, NULL, 0);
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 77)); puts("ok"); return 0; }
'''),
]
