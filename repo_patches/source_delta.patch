From 4a416e83eda7f2900fe962235baf6c9d3910f933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 01/59] fix: reset the signal flags before handling the signals

A signal received while the previous one of the same kind was being handled
was forgotten because the flag was cleared after the work was done.
---
 fcron.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fcron.c b/fcron.c
index 0be2604..77cd50a 100644
--- a/fcron.c
+++ b/fcron.c
@@ -779,8 +779,10 @@ check_signal()
     /* Action any received signals. */
 {
     if (sig_chld == true) {
-        wait_chld();
+        /* reset the flag first: a signal received while we handle this one
+         * must not be lost */
         sig_chld = false;
+        wait_chld();
         reinstall_signal_handler(SIGCHLD, sigchld_handler);
     }
 
@@ -793,22 +795,22 @@ check_signal()
 
     if (sig_hup == true) {
         /* update configuration */
-        synchronize_dir(".", 0);
         sig_hup = false;
+        synchronize_dir(".", 0);
         reinstall_signal_handler(SIGHUP, sighup_handler);
     }
     if (sig_usr1 == true) {
         /* reload all configuration */
-        reload_all(".");
         sig_usr1 = false;
+        reload_all(".");
         reinstall_signal_handler(SIGUSR1, sigusr1_handler);
     }
 
     if (sig_usr2 == true) {
+        sig_usr2 = false;
         print_schedule();
         debug_opt = (debug_opt > 0) ? 0 : 1;
         explain("debug_opt = %d", debug_opt);
-        sig_usr2 = false;
         reinstall_signal_handler(SIGUSR2, sigusr2_handler);
     }
 
-- 
2.43.0


From fef69d66108c8a836fba5e24be0beef7249eec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 02/59] fix: don't count a job as running when it could not be
 forked

If fork() failed the job's execution count (and the serial or lavg serial count)
was still incremented and nothing would ever decrement it: the job would be
skipped as 'already running' and the serial queue would lose a slot forever.
---
 database.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/database.c b/database.c
index 1762e61..9177b8f 100644
--- a/database.c
+++ b/database.c
@@ -38,7 +38,7 @@ void move_time_to(int where, cl_t * line, struct tm *ftime);
 #define END_OF_INTERVAL 12      /* move_time_to()'s where possible value */
 void run_serial_job(void);
 void run_lavg_job(lavg_t * l);
-void run_queue_job(cl_t * line);
+int run_queue_job(cl_t * line);
 int is_loop_in_queue(void);
 
 
@@ -181,8 +181,12 @@ run_normal_job(cl_t *line, int info_fd)
     if (line->cl_numexe <= 0 ||
         (is_exe_sev(line->cl_option) && line->cl_numexe < UCHAR_MAX)) {
         line->cl_numexe += 1;
-        run_queue_job(line);
-        send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
+        if (run_queue_job(line) == OK)
+            send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
+        else {
+            line->cl_numexe -= 1;
+            error_fd(info_fd, "Job '%s' could not be started.", line->cl_shell);
+        }
     }
     else {
         warn_fd(info_fd,
@@ -196,7 +200,11 @@ void
 run_lavg_job(lavg_t *l)
 {
 
-    run_queue_job(l->l_line);
+    if (run_queue_job(l->l_line) != OK) {
+        /* the job is not running: it only leaves the lavg queue */
+        l->l_line->cl_numexe -= 1;
+        return;
+    }
 
     if (is_serial(l->l_line->cl_option))
         lavg_serial_running++;
@@ -215,10 +223,17 @@ run_serial_job(void)
     debug("num: %d running:%d  index:%d", serial_num, serial_running,
           serial_array_index);
     if (serial_num != 0) {
-        run_queue_job(serial_array[serial_array_index]);
+        cl_t *line = serial_array[serial_array_index];
+
+        if (run_queue_job(line) == OK)
+            serial_running++;
+        else {
+            /* the job is not running: it only leaves the serial queue */
+            line->cl_numexe -= 1;
+            clear_serial_once(line->cl_option);
+        }
         serial_array[serial_array_index] = NULL;
 
-        serial_running++;
         if (++serial_array_index >= serial_array_size)
             serial_array_index -= serial_array_size;
         serial_num--;
@@ -227,9 +242,9 @@ run_serial_job(void)
 }
 
 
-void
+int
 run_queue_job(cl_t *line)
-    /* run a job */
+    /* run a job: return OK if it has been started, ERR otherwise */
 {
 
     exe_t e = { NULL, 0, 0 };
@@ -245,8 +260,11 @@ run_queue_job(cl_t *line)
         /* append job to the list of executed job */
         exe_list_add(exe_list, &e);
         line->cl_file->cf_running += 1;
+        return OK;
     }
 
+    return ERR;
+
 }
 
 int
-- 
2.43.0


From dcfbf9cfb285fdee8c1f0b1496401e71ee7c1862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 03/59] fix: wait_all() must release the serial slots of the
 jobs it collects

Otherwise reloading the configuration (SIGUSR1) while serial jobs are running
leaves serial_running too high, and eventually no serial job is run any more.
---
 database.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 9177b8f..2a86bba 100644
--- a/database.c
+++ b/database.c
@@ -642,8 +642,16 @@ wait_all(int *counter)
                     e->e_line->cl_numexe -= 1;
                     e->e_line->cl_file->cf_running -= 1;
 
-                    if (is_serial_once(e->e_line->cl_option))
+                    if (is_serial_once(e->e_line->cl_option)) {
                         clear_serial_once(e->e_line->cl_option);
+                        serial_running--;
+                    }
+                    else if (is_serial(e->e_line->cl_option)
+                             && !is_lavg(e->e_line->cl_option))
+                        serial_running--;
+                    else if (is_lavg(e->e_line->cl_option)
+                             && is_serial(e->e_line->cl_option))
+                        lavg_serial_running--;
 
                 }
 
-- 
2.43.0


From c6ca3d29ad75c7756b00e9f5f4fdf6d85c7cacbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 04/59] fix: reset the execution count of runatreboot jobs at
 startup

The number of running instances is saved to disk: if a runatreboot job was running
when fcron was killed then it was considered as still running after the restart, and
so was never run again.
---
 database.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/database.c b/database.c
index 2a86bba..12478ca 100644
--- a/database.c
+++ b/database.c
@@ -1476,11 +1476,14 @@ set_next_exe_startup(struct cl_t *cl, const int context,
      * - runatreboot has higher priority than jobs that were still running
      *   when fcron stopped, because the former will get run quicker as they are not
      *   put into the serial queue. runatreboot jobs will be handled later on. */
-    if (context != CONTEXT_RESUME && cl->cl_numexe > 0
-        && !is_runatreboot(cl->cl_option)) {
+    if (context != CONTEXT_RESUME && cl->cl_numexe > 0) {
 
         cl->cl_numexe = 0;
-        if (is_lavg(cl->cl_option)) {
+        if (is_runatreboot(cl->cl_option)) {
+            /* handled below */
+            ;
+        }
+        else if (is_lavg(cl->cl_option)) {
             if (!is_strict(cl->cl_option))
                 add_lavg_job(cl, -1);
         }
-- 
2.43.0


From 96f78deae20daab807ee53fe524f73de630ecfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 05/59] fix: record the pid of the mailer in exe_list

wait_chld() finds the entry to remove by pid: without it the entries created by
mail_notrun() stayed in the list forever.
---
 database.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 12478ca..0fc9885 100644
--- a/database.c
+++ b/database.c
@@ -1696,6 +1696,7 @@ mail_notrun(cl_t *line, char context, struct tm *since)
     FILE *mailf = 0;
     struct tm *time2 = NULL, time;
     char **sendmailenv = NULL;
+    exe_t *e = NULL;
 
     switch (pid = fork()) {
     case -1:
@@ -1714,7 +1715,9 @@ mail_notrun(cl_t *line, char context, struct tm *since)
 
         /* create an entry in exe_list */
         /* set line to NULL as this is not a line ... */
-        exe_list_add_line(exe_list, NULL);
+        e = exe_list_add_line(exe_list, NULL);
+        if (e != NULL)
+            e->e_ctrl_pid = pid;
         return;
     }
 
-- 
2.43.0


From 2458a11527a5c6f2119ba416da79b74fa6d8f1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 06/59] fix: keep the order of the serial queue when it is
 resized

The two parts of the ring buffer were rotated the wrong way.
---
 database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 0fc9885..bf8071a 100644
--- a/database.c
+++ b/database.c
@@ -435,9 +435,9 @@ add_serial_job(cl_t *line, int info_fd)
                 alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
 
             /* copy lines in order to have the first line at the index 0 */
-            memcpy(ptr + serial_array_index, serial_array,
+            memcpy(ptr, serial_array + serial_array_index,
                    (sizeof(cl_t *) * (old_size - serial_array_index)));
-            memcpy(ptr, serial_array + (old_size - serial_array_index),
+            memcpy(ptr + (old_size - serial_array_index), serial_array,
                    (sizeof(cl_t *) * serial_array_index));
             serial_array_index = 0;
             Free_safe(serial_array);
-- 
2.43.0


From 3a7eeb7bec9a52ef310f3b8778e2809fed1f5d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 07/59] fix: mail_notrun_time_t() ignored its 'since' argument

The mail gave the next execution time (in the daemon's timezone) as the date since
which the job has not run.
---
 database.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/database.c b/database.c
index bf8071a..c65ee01 100644
--- a/database.c
+++ b/database.c
@@ -1676,11 +1676,11 @@ mail_notrun_time_t(cl_t *line, char context, time_t since_time_t)
     struct tm since;
     int tz_changed = 0;
 
-    since2 = localtime(&line->cl_nextexe);
-    memcpy(&since, since2, sizeof(since));
-
     tz_changed = switch_timezone(orig_tz_envvar, line->cl_tz);
 
+    since2 = localtime(&since_time_t);
+    memcpy(&since, since2, sizeof(since));
+
     mail_notrun(line, SYSDOWN, &since);
 
     if (tz_changed > 0)
-- 
2.43.0


From b7a6e28a7f50d9cef113974f8471c0eb663ec978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 08/59] fix: give the full year to get_nb_mdays()

The other callers do, and years such as 2000 or 2400 were not seen as leap years.
---
 database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.c b/database.c
index c65ee01..63038b4 100644
--- a/database.c
+++ b/database.c
@@ -751,7 +751,7 @@ goto_beginning_next_period_periodical(cl_t *line, struct tm *ftime)
 
 
     /* number of days in ftime's month */
-    max = get_nb_mdays(ftime->tm_year, ftime->tm_mon);
+    max = get_nb_mdays((ftime->tm_year + 1900), ftime->tm_mon);
 
     /* STEP 1: find the beginning of the next period without ensuring
      * there is no overflow (min>=60, hour>=24, etc) */
-- 
2.43.0


From 87db029ec8b3b79ded38ad7886b3b2fc87e98229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 09/59] fix: save all files after having waited for jobs on
 exit

wait_all() collects every child that terminates, not only the jobs of the
file it waits for: the state of the jobs of other files was not saved, so
they were run again after a restart.
---
 fcron.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index 77cd50a..5717e1a 100644
--- a/fcron.c
+++ b/fcron.c
@@ -219,7 +219,8 @@ xexit(int exit_value)
             debug("waiting jobs for %s ...", f->cf_user);
             /* */
             wait_all(&f->cf_running);
-            save_file(f);
+            /* jobs of other files may have terminated in the meantime */
+            save_file(NULL);
         }
         delete_file(f->cf_user);
 
-- 
2.43.0


From 1ef3dc2038ade2ad85639925aa5699fa0d884f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 10/59] fix: don't sleep on a stale wake time or with runnable
 serial jobs

The commands received through fcrondyn and the signals handled at the end of
the main loop may change the time queue and the serial queue, but the wake
time had already been computed and the serial queue already been checked.
---
 fcron.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fcron.c b/fcron.c
index 5717e1a..3c33d8c 100644
--- a/fcron.c
+++ b/fcron.c
@@ -957,12 +957,18 @@ main_loop()
         fcrondyn_socket_check(&main_select);
 #endif
 
+        /* this may change the queues, so do it before we compute the next
+         * wake time and go to sleep */
+        check_signal();
+
+        while (serial_num > 0 && serial_running < serial_max_running) {
+            run_serial_job();
+        }
+
         nwt = check_lavg(save);
         debug_print_tstamp("    after check_lavg");
         debug("next wake time : %s", ctime(&nwt));
 
-        check_signal();
-
     }
 
 }
-- 
2.43.0


From e102e8176e074b476cc56f967540ca759434217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 11/59] fix: jobs without 'until' must wait for the load
 average

l_until is 0 when a line has no limit (e.g. a %-line with strict(false)):
such a job was run at once, whatever the system load average was.
---
 database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 63038b4..b08d205 100644
--- a/database.c
+++ b/database.c
@@ -1819,7 +1819,7 @@ check_lavg(time_t lim)
     for (l = lavg_list_first(lavg_list); l != NULL;
          l = lavg_list_next(lavg_list))
         if ((l->l_line->cl_until > 0 || l->l_line->cl_runfreq == 1)
-            && l->l_until < now) {
+            && l->l_until > 0 && l->l_until < now) {
             if (!is_run_if_late(l->l_line->cl_option)) {
                 if (!is_nolog(l->l_line->cl_option))
                     explain("Interval of execution exceeded : '%s' (not run)",
-- 
2.43.0


From 58643baa42ff2447a0e7ee9fecca3848be8427e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 12/59] fix: remove the jobs of a file which could not be
 loaded completely

The lines read before the error stayed in the queue, without being in any
file, because the test was made after cl had been set to NULL.
---
 conf.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/conf.c b/conf.c
index 4b09624..e18663e 100644
--- a/conf.c
+++ b/conf.c
@@ -797,17 +797,14 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     if (ff != NULL)
         xfclose_check(&ff, file_name);
 
-    if (cl != NULL && cl->cl_next == NULL) {
+    if (cl != NULL) {
         /* line is not yet in the line list of the file : free it */
-        Free_safe(cl->cl_shell);
-        Free_safe(cl->cl_runas);
-        Free_safe(cl->cl_mailfrom);
-        Free_safe(cl->cl_mailto);
-        Free_safe(cl);
+        free_line(cl);
+        cl = NULL;
     }
 
     /* check if we have started to read the lines and env var */
-    if (cl != NULL) {
+    if (cf->cf_line_base != NULL || cf->cf_env_list != NULL) {
         /* insert the line in the file list in order to be able to free
          * the memory using delete_file() */
 
-- 
2.43.0


From 3a8d0e8d56ab73f55ff22d6c9f70a2e354696b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 13/59] fix: check the size of the fields read from a binary
 fcrontab

The size of each field comes from the file: it must fit in the object the
field is read into.
---
 conf.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conf.c b/conf.c
index e18663e..7f5d6dc 100644
--- a/conf.c
+++ b/conf.c
@@ -386,7 +386,8 @@ int
 read_strn(int fd, char **str, short int size)
 /* read a "size"-length string in a binary fcrontab file */
 {
-    if ((*str = calloc(size + 1, sizeof(char))) == NULL)
+    *str = NULL;
+    if (size < 0 || (*str = calloc(size + 1, sizeof(char))) == NULL)
         goto err;
 
     if (read(fd, *str, size) < size)
@@ -421,7 +422,8 @@ read_type(int fd, short int *type, short int *size)
 /* read "size" bytes from file "ff", put them in "to", and check for errors */
 #define Read(TO, SIZE, ERR_STR) \
         { \
-          if ( read(fileno(ff), &(TO), SIZE) < SIZE ) { \
+          if ( SIZE < 0 || (size_t)SIZE > sizeof(TO) \
+               || read(fileno(ff), &(TO), SIZE) < SIZE ) { \
             error_e(ERR_STR); \
 	    goto err; \
 	  } \
@@ -578,6 +580,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
      * a file using a depreciated format generated by an old fcrontab,
      * if the syntax has changed */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_HEADER_T ||
+        size < 0 || (size_t) size > sizeof(bufi) ||
         read(fileno(ff), &bufi, size) < size || bufi != S_FILEVERSION) {
         error("File %s is not valid: ignored.", file_name);
         error("This file may have been generated by an old version of fcron.");
@@ -608,6 +611,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     /* get the time & date of the saving */
     /* a new file generated by fcrontab has t_save set to 0 */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_TIMEDATE_T
+        || size < 0 || (size_t) size > sizeof(t_save)
         || read(fileno(ff), &t_save, size) < size) {
         error("could not get time and date of saving");
         goto err;
-- 
2.43.0


From b743443834c3587a89bf6aa9899f595b65cf9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 14/59] fix: skip the unknown fields of a binary fcrontab
 correctly

getc() fills the buffer of the stream, so everything which followed the
unknown field was lost to the read() calls on the file descriptor.
---
 conf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conf.c b/conf.c
index 7f5d6dc..fd48975 100644
--- a/conf.c
+++ b/conf.c
@@ -776,10 +776,12 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
             /* skip the data corresponding to the unknown field */
             {
                 /* we avoid using fseek(), as it seems not to work correctly
-                 * on some systems when we use read() on the FILE stream */
+                 * on some systems when we use read() on the FILE stream.
+                 * For the same reason, we must not use the buffered stream. */
                 int i;
+                char c;
                 for (i = 0; i < size; i++)
-                    if (getc(ff) == EOF)
+                    if (read(fileno(ff), &c, sizeof(c)) < (ssize_t) sizeof(c))
                         goto err;
             }
         }
-- 
2.43.0


From ab53b275c2fb8e35054a2931fff287244aff7e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 15/59] fix: don't overflow the write buffer with a long string

The buffer was flushed when there was not enough room, but a string may be
longer than the whole buffer (a line can have as many characters as the
buffer).
---
 save.c | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/save.c b/save.c
index 36a082e..395c72d 100644
--- a/save.c
+++ b/save.c
@@ -29,6 +29,7 @@ extern char debug_opt;
 
 int write_buf_to_disk(int fd, char *write_buf, int *buf_used);
 int save_type(int fd, short int type, char *write_buf, int *buf_used);
+int save_data(int fd, char *data, int len, char *write_buf, int *buf_used);
 int save_str(int fd, short int type, char *str, char *write_buf, int *buf_used);
 int save_strn(int fd, short int type, char *str, short int size,
               char *write_buf, int *buf_used);
@@ -58,13 +59,44 @@ save_type(int fd, short int type, char *write_buf, int *buf_used)
 
 }
 
+int
+save_data(int fd, char *data, int len, char *write_buf, int *buf_used)
+/* append data to the buffer, which is written to the disk each time it's full:
+ * there may be more data than what the buffer can hold */
+{
+    int chunk = 0;
+
+    while (len > 0) {
+        chunk = WRITE_BUF_LEN - *buf_used;
+        if (chunk <= 0) {
+            if (write_buf_to_disk(fd, write_buf, buf_used) == ERR)
+                return ERR;
+            continue;
+        }
+        if (chunk > len)
+            chunk = len;
+        memcpy((write_buf + *buf_used), data, chunk);
+        *buf_used += chunk;
+        data += chunk;
+        len -= chunk;
+    }
+
+    return OK;
+}
+
 int
 save_str(int fd, short int type, char *str, char *write_buf, int *buf_used)
 /* save a string of type "type" in a binary fcrontab file */
 {
-    short int size = (str != NULL) ? strlen(str) : 0;
+    size_t len = (str != NULL) ? strlen(str) : 0;
+    short int size = (short int)len;
     int write_len = sizeof(type) + sizeof(size) + size;
 
+    if (len > SHRT_MAX) {
+        error("string is too long (%ld bytes) to be saved.", (long int)len);
+        return ERR;
+    }
+
     if (write_len > WRITE_BUF_LEN - *buf_used)
         if (write_buf_to_disk(fd, write_buf, buf_used) == ERR)
             return ERR;
@@ -73,10 +105,8 @@ save_str(int fd, short int type, char *str, char *write_buf, int *buf_used)
     *buf_used += sizeof(type);
     memcpy((write_buf + *buf_used), &size, sizeof(size));
     *buf_used += sizeof(size);
-    memcpy((write_buf + *buf_used), str, size);
-    *buf_used += size;
 
-    return OK;
+    return save_data(fd, str, size, write_buf, buf_used);
 }
 
 int
@@ -94,10 +124,8 @@ save_strn(int fd, short int type, char *str, short int size, char *write_buf,
     *buf_used += sizeof(type);
     memcpy((write_buf + *buf_used), &size, sizeof(size));
     *buf_used += sizeof(size);
-    memcpy((write_buf + *buf_used), str, size);
-    *buf_used += size;
 
-    return OK;
+    return save_data(fd, str, size, write_buf, buf_used);
 }
 
 int
-- 
2.43.0


From 8774ec213b655ca1c36fbf44b083a79c867f0e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 16/59] fix: detect read() errors when reading the type and
 size of a field

---
 conf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conf.c b/conf.c
index fd48975..065a623 100644
--- a/conf.c
+++ b/conf.c
@@ -405,9 +405,9 @@ int
 read_type(int fd, short int *type, short int *size)
 /* read the type and size of the next field in a binary fcrontab file */
 {
-    if (read(fd, type, sizeof(short int)) < sizeof(short int))
+    if (read(fd, type, sizeof(short int)) < (ssize_t) sizeof(short int))
         goto err;
-    if (read(fd, size, sizeof(short int)) < sizeof(short int))
+    if (read(fd, size, sizeof(short int)) < (ssize_t) sizeof(short int))
         goto err;
 
     return OK;
-- 
2.43.0


From e473ed22d2f97082e92c68e96ec3f293514759c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 17/59] fix: keep a new fcrontab file until its content has
 been saved

---
 conf.c | 28 +++++++++++++++-------------
 conf.h |  2 +-
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/conf.c b/conf.c
index 065a623..62cdcf2 100644
--- a/conf.c
+++ b/conf.c
@@ -329,11 +329,9 @@ synchronize_file(char *file_name, int is_system_startup)
             cur_f->cf_next = file_base;
             file_base = cur_f;
 
-            /* save final file */
-            save_file(cur_f);
-
-            /* delete new.user file */
-            if (remove(file_name) != 0)
+            /* save final file, and then delete new.user file:
+             * if it could not be saved then new.user is the only valid copy */
+            if (save_file(cur_f) == OK && remove(file_name) != 0)
                 error_e("could not remove %s", file_name);
 
         }
@@ -353,11 +351,9 @@ synchronize_file(char *file_name, int is_system_startup)
             cur_f->cf_next = file_base;
             file_base = cur_f;
 
-            /* save as a normal file */
-            save_file(cur_f);
-
-            /* delete new.user file */
-            if (remove(file_name) != 0)
+            /* save as a normal file, and then delete new.user file:
+             * if it could not be saved then new.user is the only valid copy */
+            if (save_file(cur_f) == OK && remove(file_name) != 0)
                 error_e("could not remove %s", file_name);
         }
 
@@ -1012,13 +1008,15 @@ delete_file(const char *user_name)
 }
 
 
-void
+int
 save_file(cf_t *arg_file)
 /* Store the informations relatives to the executions
- * of tasks at a defined frequency of system's running time */
+ * of tasks at a defined frequency of system's running time.
+ * Return OK if everything has been saved, ERR otherwise */
 {
     cf_t *file = NULL;
     cf_t *start_file = NULL;
+    int rc = OK;
 
     if (arg_file != NULL)
         start_file = arg_file;
@@ -1033,10 +1031,14 @@ save_file(cf_t *arg_file)
         /* save the file safely : save it to a temporary name, then rename() it */
         /* chown the file to root:root : this file should only be read and
          * modified by fcron (not fcrontab) */
-        save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now);
+        if (save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now)
+            != OK)
+            rc = ERR;
 
         if (arg_file != NULL)
             /* we have to save only a single file */
             break;
     }
+
+    return rc;
 }
diff --git a/conf.h b/conf.h
index 6036ff3..011c4c6 100644
--- a/conf.h
+++ b/conf.h
@@ -29,6 +29,6 @@
 extern void reload_all(const char *dir_name);
 extern void synchronize_dir(const char *dir_name, int is_system_startup);
 extern void delete_file(const char *user_name);
-extern void save_file(struct cf_t *file_name);
+extern int save_file(struct cf_t *file_name);
 
 #endif                          /* __CONF_H__ */
-- 
2.43.0


From 7bcd9196760f32ccb61ba75e7ecf0428b021c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 18/59] fix: don't install a truncated fcrontab source on a
 read error

---
 fcrontab.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcrontab.c b/fcrontab.c
index 042584e..d29746a 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -245,6 +245,11 @@ copy_src(int from, const char *dest)
                     " Aborting : old source file kept");
             goto exiterr;
         }
+    if (nb == -1) {
+        error_e("Error while reading the file to copy."
+                " Aborting : old source file kept");
+        goto exiterr;
+    }
 
     xclose_check(&to_fd, dest);
 
-- 
2.43.0


From 42baebb634f881b3b90c144f6771c782d34bcb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 19/59] fix: keep the previous fcrontab if the new source could
 not be copied

---
 fcrontab.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index d29746a..008d262 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -318,12 +318,6 @@ write_file(int fd)
 {
     int return_val = OK;
 
-    if (ignore_prev == 1)
-        /* if user wants to ignore previous version, we remove it *
-         * ( fcron daemon remove files no longer wanted before
-         *   adding new ones ) */
-        remove_fcrontab(0);
-
     /* copy original file to fcrontabs dir */
     snprintf(buf, sizeof(buf), "%s.orig", user);
     if (copy_src(fd, buf) == ERR) {
@@ -331,6 +325,12 @@ write_file(int fd)
     }
     else {
 
+        if (ignore_prev == 1)
+            /* if user wants to ignore previous version, we remove it *
+             * ( fcron daemon remove files no longer wanted before
+             *   adding new ones ) */
+            remove_fcrontab(0);
+
         if (file_base->cf_line_base == NULL) {
             /* no entries */
             explain("%s's fcrontab contains no entries : removed.", user);
-- 
2.43.0


From b312350f564255ace2a3cdb78ac442e88ea833cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 20/59] fix: check for errors when copying the fcrontab to
 install or edit

---
 fcrontab.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 008d262..b5cfda9 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -471,15 +471,18 @@ edit_file(const char *fcron_orig)
                 goto exiterr;
             }
         }
+        if (ferror(f)) {
+            error_e("could not read file %s", fcron_orig);
+            goto exiterr;
+        }
         xfclose_check(&f, fcron_orig);
-
-        if (ferror(fi))
-            error_e("Error while writing new fcrontab to %s");
     }
 
     /* Don't close fi, because we still need the file descriptor 'file' */
-    if (fflush(fi) != 0)
-        die_e("Could not fflush(%s)", fi);
+    if (fflush(fi) != 0) {
+        error_e("Could not fflush(%s)", tmp_str);
+        goto exiterr;
+    }
     fi = NULL;
 
     do {
@@ -655,13 +658,22 @@ install_stdin(void)
         die_e("Could not fdopen file %s", tmp_str);
 
     while ((c = getc(stdin)) != EOF)
-        putc(c, tmp_file);
+        if (putc(c, tmp_file) == EOF) {
+            error_e("could not write to file %s", tmp_str);
+            goto exiterr;
+        }
+    if (ferror(stdin)) {
+        error_e("could not read the fcrontab to install");
+        goto exiterr;
+    }
     /* // */
     debug("Copied stdin to %s, about to parse file %s...", tmp_str, tmp_str);
 
     /* don't closes tmp_fd as it will be used for make_file(): */
-    if (fflush(tmp_file) != 0)
-        die_e("Could not fflush(%s)", tmp_file);
+    if (fflush(tmp_file) != 0) {
+        error_e("Could not fflush(%s)", tmp_str);
+        goto exiterr;
+    }
 
     if (make_file(tmp_str, tmp_fd) == ERR)
         goto exiterr;
-- 
2.43.0


From 8210e1a2219eae9e8173c9d587e976ab6e036fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 21/59] fix: don't loop forever on end-of-file when asking what
 to do with errors

---
 fcrontab.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index b5cfda9..dea2912 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -581,9 +581,12 @@ edit_file(const char *fcron_orig)
             case 2:
                 fprintf(stderr, "\nFile contains some errors. "
                         "Ignore [i] or Correct [c] ? ");
-                while ((c = getchar())) {
+                while ((c = getchar()) != EOF) {
+                    int d = c;
+
                     /* consume the rest of the line, e.g. the newline char (\n) */
-                    while (c != '\n' && (getchar() != '\n')) ;
+                    while (d != '\n' && d != EOF)
+                        d = getchar();
 
                     if (c == 'i') {
                         break;
@@ -600,6 +603,9 @@ edit_file(const char *fcron_orig)
                                 "or i to ignore: ");
                     }
                 }
+                if (c == EOF)
+                    /* no answer: fcrontab is unchanged */
+                    goto exiterr;
                 break;
             default:
                 break;
-- 
2.43.0


From ef5fc4e0af36e95a71ce1a9afc41ea1c6f8daeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 22/59] fix: don't use the result of a failed fstat() in
 open_as_user()

---
 subs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subs.c b/subs.c
index 9a0a00b..dc2dee4 100644
--- a/subs.c
+++ b/subs.c
@@ -136,7 +136,7 @@ open_as_user(const char *pathname, uid_t openuid, gid_t opengid, int flags, ...)
             fd = -1;
         }
 
-        if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {
+        else if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {
             error_e("open_as_user(): file %s is not a regular file", pathname);
             if (xclose(&fd) < 0)
                 error_e("open_as_user: could not xclose() %s", pathname);
-- 
2.43.0


From 3678964b90a3236a05c362de988b1f0b920f34f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 23/59] fix: don't read before the start of a blank string in
 remove_blanks()

---
 subs.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/subs.c b/subs.c
index dc2dee4..1a2c67e 100644
--- a/subs.c
+++ b/subs.c
@@ -329,13 +329,9 @@ remove_blanks(char *str)
     }
     while (c >= str && isspace((int)*c));
 
-    /* if last char is a '\n', we remove it */
-    if (*c == '\n')
-        *c = '\0';
-    else
-        /* one character beyond where we stopped above is where the null
-         * goes. */
-        *++c = '\0';
+    /* one character beyond where we stopped above is where the null
+     * goes. */
+    *++c = '\0';
 
     /* return the new length */
     return (c - str);
-- 
2.43.0


From cd317492df32105871f61ff5772a47b1b708d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 24/59] fix: select: keep watching the highest descriptors
 after one is removed

---
 select.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/select.c b/select.c
index e62fef0..018cc46 100644
--- a/select.c
+++ b/select.c
@@ -61,8 +61,9 @@ select_rm_read(select_instance *si, int fd)
         int i;
         for (i = fd; i >= 0; i--) {
             if (FD_ISSET(i, &si->__readfds_master))
-                si->__fd_max = i;
+                break;
         }
+        si->__fd_max = i;
     }
     debug("select: removed fd %d (fd_max=%d)", fd, si->__fd_max);
 }
-- 
2.43.0


From cbfd61b6df9a96ca62c0958e04a91dd325972fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 25/59] fix: fcrondyn: refuse authentications until AUTH_WAIT
 is over

The counter of failures was reset at the first refusal, so that the next
passwords were checked again at once.
---
 fcrondyn_svr.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 2599254..c65b5a9 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -318,7 +318,6 @@ auth_client_password(struct fcrondyn_cl *client)
     if (auth_fail >= MAX_AUTH_FAIL) {
         error("Too many authentication failures : try to connect later.");
         send(client->fcl_sock_fd, "0", sizeof("0"), 0);
-        auth_fail = auth_nofail_since = 0;
         return;
     }
 
-- 
2.43.0


From e73351e0b4928aedf7ec31f631bba5caf8d2ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 26/59] fix: fcrondyn: send a single end-of-data marker per
 command

The second one was taken for the end of the answer to the next command.
---
 fcrondyn_svr.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index c65b5a9..6519b2e 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -668,7 +668,7 @@ cmd_on_exeq(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
 
                 warn(err_str, client->fcl_user, cmd[1], cmd[2],
                      client->fcl_user);
-                Send_err_msg_end(fd, err_job_nfound_str);
+                Send_err_msg(fd, err_job_nfound_str);
             }
             else {
                 /* request is valid : do it */
@@ -720,7 +720,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
         || (int)cmd[1] > 20 || (int)cmd[1] < -20) {
         warn("renice: invalid args : pid: %d nice_value: %d user: %s.",
              e->e_job_pid, (int)cmd[1], client->fcl_user);
-        Send_err_msg_end(fd, err_invalid_args_str);
+        Send_err_msg(fd, err_invalid_args_str);
         return;
     }
 
@@ -728,7 +728,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
     if (setpriority(PRIO_PROCESS, e->e_job_pid, (int)cmd[1]) != 0) {
         error_e("could not setpriority(PRIO_PROCESS, %d, %d)",
                 e->e_job_pid, (int)cmd[1]);
-        Send_err_msg_end(fd, err_unknown_str);
+        Send_err_msg(fd, err_unknown_str);
         return;
     }
     else {
@@ -739,7 +739,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
 
 #else                           /* HAVE_SETPRIORITY */
     warn("System has no setpriority() : cannot renice. pid: %d nice_value: %d user: %s.", e->e_job_pid, (int)cmd[1], client->fcl_user);
-    Send_err_msg_end(fd, err_cmd_unknown_str);
+    Send_err_msg(fd, err_cmd_unknown_str);
 
 #endif                          /* HAVE_SETPRIORITY */
 }
@@ -752,14 +752,14 @@ cmd_send_signal(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e)
     if (e->e_job_pid <= 0 || (int)cmd[1] <= 0) {
         warn("send_signal: invalid args : pid: %d signal: %d user: %s",
              e->e_job_pid, (int)cmd[1], client->fcl_user);
-        Send_err_msg_end(fd, err_invalid_args_str);
+        Send_err_msg(fd, err_invalid_args_str);
         return;
     }
 
     /* ok, now kill() the job */
     if (kill(e->e_job_pid, (int)cmd[1]) != 0) {
         error_e("could not kill(%d, %d)", e->e_job_pid, (int)cmd[1]);
-        Send_err_msg_end(fd, err_unknown_str);
+        Send_err_msg(fd, err_unknown_str);
         return;
     }
     else {
-- 
2.43.0


From d2977d1b338653b1e4a9c24d71c0b11f800657b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 27/59] fix: fcrondyn: do not use data beyond the end of a
 message

A short or unterminated message was read past its end: leftovers of another
client's message were taken for arguments, or the read went out of the buffer.
---
 fcrondyn_svr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 6519b2e..de11e89 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -880,7 +880,8 @@ fcrondyn_socket_check(select_instance *si)
     int fd = -1, avoid_fd = -1;
     socklen_t addr_len = sizeof(struct sockaddr_un);
     struct sockaddr_un client_addr;
-    long int buf_int[SOCKET_MSG_LEN];
+    /* one more, always null: terminates the strings of the message */
+    long int buf_int[SOCKET_MSG_LEN + 1];
     int read_len = 0;
     struct fcrondyn_cl *client = NULL, *prev_client = NULL;
 
@@ -960,8 +961,10 @@ fcrondyn_socket_check(select_instance *si)
             continue;
         }
 
+        memset(buf_int, 0, sizeof(buf_int));
         if ((read_len =
-             recv(client->fcl_sock_fd, buf_int, sizeof(buf_int), 0)) <= 0) {
+             recv(client->fcl_sock_fd, buf_int,
+                  sizeof(buf_int) - sizeof(buf_int[0]), 0)) <= 0) {
             if (read_len == 0) {
                 /* connection closed by client */
                 remove_connection(&client, prev_client, si);
-- 
2.43.0


From eb290a202a496b37f082b4237540b6e2aa825564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:07 +0000
Subject: [PATCH 28/59] fix: fcrondyn: list the jobs of systab only for root

---
 fcrondyn_svr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index de11e89..69ce522 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -563,8 +563,15 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
             struct passwd *pass;
 
 #ifdef SYSFCRONTAB
-            if (cmd[1] == SYSFCRONTAB_UID)
+            if (cmd[1] == SYSFCRONTAB_UID) {
+                if (!is_root) {
+                    warn("%s is not allowed to see %s's jobs.",
+                         client->fcl_user, SYSFCRONTAB);
+                    Send_err_msg_end(fd, err_others_nallowed_str);
+                    return;
+                }
                 user = SYSFCRONTAB;
+            }
             else {
 #endif
                 if ((pass = getpwuid((uid_t) cmd[1])) == NULL) {
-- 
2.43.0


From 9438479bb3507b4c914896bae8194ec78e3c9ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 29/59] fix: fcrondyn: missing argument of a log message

---
 fcrondyn_svr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 69ce522..b5c6c2f 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -580,7 +580,7 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
                     return;
                 }
                 if (!is_root && strcmp(pass->pw_name, client->fcl_user) != 0) {
-                    warn_e("%s is not allowed to see %s's jobs. %ld",
+                    warn_e("%s is not allowed to see %s's jobs.",
                            client->fcl_user, pass->pw_name);
                     Send_err_msg_end(fd, err_others_nallowed_str);
                     return;
-- 
2.43.0


From c2629e06c2b8f4babe3633802119f00b518d9694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:09 +0000
Subject: [PATCH 30/59] fix: fcrondyn: stop watching a connection before
 closing it

close sets the descriptor to -1, which is not a valid index of the set.
---
 fcrondyn_svr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index b5c6c2f..8166e4b 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -1016,10 +1016,10 @@ fcrondyn_socket_close(select_instance *si)
         client = fcrondyn_cl_base;
         while (client != NULL) {
             shutdown(client->fcl_sock_fd, SHUT_RDWR);
-            xclose_check(&(client->fcl_sock_fd), "client fd");
             if (si != NULL) {
                 select_rm_read(si, client->fcl_sock_fd);
             }
+            xclose_check(&(client->fcl_sock_fd), "client fd");
 
             client_buf = client->fcl_next;
             Free_safe(client);
-- 
2.43.0


From 997133eca07184cdc07b96a5bf1475731be99ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 31/59] fix: log: appending the error text could overflow the
 message by two bytes

---
 log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.c b/log.c
index f8ab322..6034ff9 100644
--- a/log.c
+++ b/log.c
@@ -148,7 +148,7 @@ make_msg(const char *append, char *fmt, va_list args)
     if (append != NULL) {
         size_t size_to_cat = ((MAX_MSG - len) > 0) ? (MAX_MSG - len) : 0;
         strncat(msg, ": ", size_to_cat);
-        strncat(msg, append, size_to_cat);
+        strncat(msg, append, (size_to_cat > 2) ? size_to_cat - 2 : 0);
         len += 2 + strlen(append);
     }
     if (len >= MAX_MSG)
-- 
2.43.0


From 11dcc90a0817897226e91046d425f082fd38606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 32/59] fix: missing or wrong arguments of log messages

---
 database.c     | 9 ++++++---
 fcrondyn_svr.c | 4 ++--
 fileconf.c     | 4 ++--
 suspend.c      | 3 ++-
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/database.c b/database.c
index b08d205..2c10a52 100644
--- a/database.c
+++ b/database.c
@@ -798,7 +798,8 @@ goto_beginning_next_period_periodical(cl_t *line, struct tm *ftime)
                          * so as we don't return a time in the past */
                         ftime->tm_min++;
                         warn("Line %s doesn't seem correct: consider "
-                             "reinstalling the corresponding fcrontab");
+                             "reinstalling the corresponding fcrontab",
+                             line->cl_shell);
                     }
                 }
             }
@@ -1322,7 +1323,8 @@ set_next_exe(cl_t *line, char option, int info_fd)
         if (line->cl_nextexe <= now) {
             error("BUG ??? Fcron thinks the next exe time of '%s' is %ld, "
                   "hence before now (%ld). To avoid infinite loop, nextexe"
-                  " will be set at now+5s.", line->cl_shell, line->cl_nextexe);
+                  " will be set at now+5s.", line->cl_shell, line->cl_nextexe,
+                  now);
             line->cl_nextexe = now + 5;
         }
 
@@ -1778,7 +1780,8 @@ mail_notrun(cl_t *line, char context, struct tm *since)
         fprintf(mailf, "Note that job '%s' has not run.\n", line->cl_shell);
         break;
     default:
-        error("mail_notrun() called with unkown context '%c'. Ignoring.");
+        error("mail_notrun() called with unkown context '%c'. Ignoring.",
+              context);
     }
 
     /* become user (for security reasons) */
diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 8166e4b..4647214 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -670,8 +670,8 @@ cmd_on_exeq(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
                     err_str = "%s tried to send signal %ld to id %ld for %s : "
                         "not allowed.";
                 else
-                    err_str = "cannot run unknown cmd with arg %ld on job id "
-                        "%ld for %s : not allowed.";
+                    err_str = "%s: cannot run unknown cmd with arg %ld on job "
+                        "id %ld for %s : not allowed.";
 
                 warn(err_str, client->fcl_user, cmd[1], cmd[2],
                      client->fcl_user);
diff --git a/fileconf.c b/fileconf.c
index f6855a3..4773edd 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -279,12 +279,12 @@ read_file(char *filename, int fd)
 
     if (entries == max_entries) {
         error("%s:%d: maximum number of entries (%d) has been reached by %s",
-              file_name, line, user);
+              file_name, line, max_entries, user);
         fprintf(stderr, "Anything after this line will be ignored\n");
     }
     else if (line == max_lines)
         error("%s:%d: maximum number of lines (%d) has been reached by %s",
-              file_name, line, user);
+              file_name, line, max_lines, user);
 
     cf->cf_next = file_base;
     file_base = cf;
diff --git a/suspend.c b/suspend.c
index 6ec3858..16401af 100644
--- a/suspend.c
+++ b/suspend.c
@@ -174,7 +174,8 @@ read_suspend_duration(time_t slept_from)
         goto unlink_cleanup_return;
     }
     else if (suspend_duration < 0) {
-        warn("Read negative suspend_duration (%ld): ignoring.");
+        warn("Read negative suspend_duration (%ld): ignoring.",
+             suspend_duration);
         suspend_duration = 0;
         goto unlink_cleanup_return;
     }
-- 
2.43.0


From 144f0a9e7a684b46ee8f79f71069ea3ff21899fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 33/59] fix: do not use a message holding a user name as a
 format

---
 job.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/job.c b/job.c
index ef8b653..2d0e0b5 100644
--- a/job.c
+++ b/job.c
@@ -64,7 +64,7 @@ die_mail_pame(cl_t *cl, int pamerrno, struct passwd *pas, char *str,
             die_e("dup2() error");      /* dup2 also clears close-on-exec flag */
 
         foreground = 1;
-        error_pame(pamh, pamerrno, buf, cl->cl_shell);
+        error_pame(pamh, pamerrno, "%s", buf);
         error("Job '%s' has *not* run.", cl->cl_shell);
         foreground = 0;
 
@@ -76,7 +76,7 @@ die_mail_pame(cl_t *cl, int pamerrno, struct passwd *pas, char *str,
         /* launch_mailer() does not return : we never get here */
     }
     else
-        die_pame(pamh, pamerrno, buf, cl->cl_shell);
+        die_pame(pamh, pamerrno, "%s", buf);
 }
 #endif
 
-- 
2.43.0


From b5100521f6a957dd3bc67d1ec237de22a44cf439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:02 +0000
Subject: [PATCH 34/59] fix: fcronsighup: missing argument of an error message

---
 fcronsighup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcronsighup.c b/fcronsighup.c
index dc14df3..003cd5f 100644
--- a/fcronsighup.c
+++ b/fcronsighup.c
@@ -184,7 +184,7 @@ sig_daemon(void)
         fd = -1;
 
         if (remove(sigfile) < 0)
-            error_e("Could not remove %s");
+            error_e("Could not remove %s", sigfile);
     }
     else
         /* we are root, or config MAX_FCRONTAB_RELOAD_DELAY_SECONDS=0 is set */
-- 
2.43.0


From 23167db2854af84286e13e9de5a4ca3503249576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 35/59] fix: option until(0) was refused although documented

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 4773edd..d3d9df7 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -864,7 +864,7 @@ read_opt(char *ptr, cl_t *cl)
 
         else if (strcmp(opt_name, "u") == 0 || strcmp(opt_name, "until") == 0) {
             if (!in_brackets
-                || (ptr = get_time(ptr, &(cl->cl_until), 0)) == NULL)
+                || (ptr = get_time(ptr, &(cl->cl_until), 1)) == NULL)
                 Handle_err;
             if (debug_opt)
                 fprintf(stderr, "  Opt : \"%s\" %ld\n", opt_name,
-- 
2.43.0


From ec930bb8e24d4bda0356726d78133dfb7292a393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:12 +0000
Subject: [PATCH 36/59] fix: an invalid mailto left the entries without mail
 address

---
 fileconf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index d3d9df7..51c823a 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -447,11 +447,10 @@ assign_option_string(char **var, char *value)
     char end = '\0';
     size_t len = 0;
 
-    Free_safe(*var);
-
     len = option_strlen(value);
 
     if (len <= 0) {
+        Free_safe(*var);
         return len;
     }
 
@@ -463,6 +462,7 @@ assign_option_string(char **var, char *value)
         return -1;
     }
 
+    Free_safe(*var);
     *var = strndup2(value, len);
 
     return len;
-- 
2.43.0


From f6bfc01f13950d468e0c7cf6e72318c82713cbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:13 +0000
Subject: [PATCH 37/59] fix: an unknown option of a %-line was silently ignored

---
 fileconf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 51c823a..e9e8d25 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1195,6 +1195,11 @@ read_opt(char *ptr, cl_t *cl)
                 if (debug_opt)
                     fprintf(stderr, "  Opt : \"%s\"\n", opt_name);
             }
+            else {
+                fprintf(stderr, "%s:%d: Option \"%s\" unknown: "
+                        "skipping option.\n", file_name, line, opt_name);
+                need_correction = 1;
+            }
         }
 
         else {
-- 
2.43.0


From ee08a14e742c866e5316fc1a25e87ef959f66db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 38/59] fix: option runas was silently ignored after any error
 in the fcrontab

---
 fileconf.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index e9e8d25..f9d8f78 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1032,6 +1032,7 @@ read_opt(char *ptr, cl_t *cl)
         else if (strcmp(opt_name, "runas") == 0) {
             int len = -1;
             char *runas = NULL;
+            char runas_refused = 0;
             struct passwd *pas;
 
             if (!in_brackets) {
@@ -1049,20 +1050,21 @@ read_opt(char *ptr, cl_t *cl)
             if (getuid() != rootuid) {
                 fprintf(stderr, "must be privileged to use option runas: "
                         "skipping option\n");
-                need_correction = 1;
+                runas_refused = 1;
             }
             else if (len > USER_NAME_LEN) {
                 fprintf(stderr, "runas: user name \"%s\" longer than %d"
                         "characters: skipping option\n", runas, USER_NAME_LEN);
-                need_correction = 1;
+                runas_refused = 1;
             }
             else if ((pas = getpwnam(runas)) == NULL) {
                 fprintf(stderr, "runas: \"%s\" is not in passwd file : "
                         "ignored", runas);
-                need_correction = 1;
+                runas_refused = 1;
             }
 
-            if (need_correction) {
+            if (runas_refused) {
+                need_correction = 1;
                 Free_safe(runas);
             }
             else {
-- 
2.43.0


From 92246684331a37c9d4c921a3633653be0a6884cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 39/59] fix: the name of an option was not terminated when too
 long

---
 fileconf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index f9d8f78..54e24f9 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -533,7 +533,7 @@ read_opt(char *ptr, cl_t *cl)
         i = 0;
         bzero(opt_name, sizeof(opt_name));
 
-        while (isalnum((int)*ptr) && i < sizeof(opt_name))
+        while (isalnum((int)*ptr) && i < sizeof(opt_name) - 1)
             opt_name[i++] = *ptr++;
 
         i = 1;
@@ -1326,7 +1326,7 @@ read_word(char *ptr, char *buf, size_t buf_size)
 
     bzero(buf, buf_size);
 
-    while (isalnum((int)*ptr) && i < buf_size)
+    while (isalnum((int)*ptr) && i < buf_size - 1)
         buf[i++] = *ptr++;
 
     return ptr;
-- 
2.43.0


From cf34492747ada8fc22d63b3adbf3363a8c99917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:21 +0000
Subject: [PATCH 40/59] fix: names of months were one month early and "jan" or
 0 was written before the month table

---
 fileconf.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 54e24f9..d1cf206 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1840,7 +1840,8 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
         for (i = 0; names[i]; ++i)
             if (strncmp(ptr, names[i], strlen(names[i])) == 0) {
-                *num = i;
+                /* months are numbered from 1 */
+                *num = (max == 12) ? i + 1 : i;
                 ptr += strlen(names[i]);
                 return ptr;
                 break;
@@ -1924,6 +1925,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                  * user set it from 1 to 12, but we manage it internally
                  * as a number from 0 to 11 : we remove 1 to start */
                 start -= 1;
+            if (start < 0) {
+                need_correction = 1;
+                return NULL;
+            }
 
             if (*ptr == ',' || *ptr == ' ' || *ptr == '\t') {
                 /* this is a single number : set up array and continue */
@@ -1945,6 +1950,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                      * user set it from 1 to 12, but we manage it internally
                      * as a number from 0 to 11 : we remove 1 to stop */
                     stop -= 1;
+                if (stop < 0) {
+                    need_correction = 1;
+                    return NULL;
+                }
             }
             else {
                 /* syntax error */
@@ -1991,6 +2000,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                  * user set it from 1 to 12, but we manage it internally
                  * as a number from 0 to 11 : we remove 1 to rm */
                 rm -= 1;
+            if (rm < 0) {
+                need_correction = 1;
+                return NULL;
+            }
 
             if (debug_opt)
                 fprintf(stderr, " ~%d", rm);
-- 
2.43.0


From 106fe7a7fc2dd97cd297cad1e4a189bdd31abed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:23 +0000
Subject: [PATCH 41/59] fix: numbers of fcrontabs: bad decimals were read past
 the end, and could exceed the maximum

---
 fileconf.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index d1cf206..0da7ee4 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1856,8 +1856,13 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
         while (isdigit((int)*ptr) || *ptr == '.') {
 
-            if (*ptr == '.' && ptr++ && i++ > 0)
-                return NULL;
+            if (*ptr == '.') {
+                ptr++;
+                if (i++ > 0 || !isdigit((int)*ptr)) {
+                    need_correction = 1;
+                    return NULL;
+                }
+            }
             if (i > 0 && --decimal < 0) {
                 /* the decimal number is exceeded : we round off,
                  * skip the other decimals and return */
@@ -1883,6 +1888,11 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
         if (decimal > 0)
             *num *= 10 * decimal;
 
+        if (*num > max) {
+            need_correction = 1;
+            return NULL;
+        }
+
     }
 
     return ptr;
-- 
2.43.0


From 84ab193d30bdac8d124fc0c3b85f1288578b6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:24 +0000
Subject: [PATCH 42/59] fix: a line with a wrong field was skipped without
 asking for a correction

---
 fileconf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 0da7ee4..535a191 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1577,7 +1577,8 @@ read_freq(char *ptr, cf_t *cf)
           fprintf(stderr, "\n"); \
       fprintf(stderr, "%s:%d: Error while reading " DESCRP " field: " \
              "skipping line.\n", file_name, line); \
-      Free_safe(cl); \
+      need_correction = 1; \
+      free_line(cl); \
       return; \
   }
 
-- 
2.43.0


From e337c79e6f8d855e729be9ebbd3f9ff555bd2732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 43/59] fix: day 32 of a %-line was written out of the table of
 days

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 535a191..d17979e 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1722,7 +1722,7 @@ read_period(char *ptr, cf_t *cf)
     if (remain-- > 0) {
     R_field(ptr, cl->cl_days, 31, NULL, "days")}
     else
-        bit_nset(cl->cl_days, 1, 32);
+        bit_nset(cl->cl_days, 1, 31);
     /* month are defined by user from 1 to 12 : max is 12 */
     if (remain-- > 0) {
     R_field(ptr, cl->cl_mons, 12, mons_ary, "months")}
-- 
2.43.0


From 502b8b83e2cb80816062152f04cf1da46251b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:27 +0000
Subject: [PATCH 44/59] fix: a %-line with option reset was no longer
 periodical

---
 fileconf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fileconf.c b/fileconf.c
index d17979e..ecd5f2a 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1692,6 +1692,7 @@ read_period(char *ptr, cf_t *cf)
     Skip_blanks(ptr);
 
     /* we set this here, because it may be unset by read_opt (reset option) */
+    cl->cl_remain = cl->cl_runfreq = 1;
     set_td(cl->cl_option);
 
     if (debug_opt)
-- 
2.43.0


From f15cc85fff474e94dcdbfe4116af8f30a2ecd34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 45/59] fix: option tzdiff of an entry dereferenced a NULL
 pointer

---
 fileconf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index ecd5f2a..4075bef 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1343,6 +1343,7 @@ read_shortcut(char *ptr, cf_t *cf)
     char *ptr_orig = ptr;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* skip the @ */
     ptr++;
@@ -1490,6 +1491,7 @@ read_freq(char *ptr, cf_t *cf)
     cl_t *cl = NULL;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     cl->cl_first = -1;          /* 0 is a valid value, so we have to use -1 to detect unset */
 
@@ -1591,6 +1593,7 @@ read_arys(char *ptr, cf_t *cf)
     int i = 0;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* set cl_remain if not specified */
     if (*ptr == '&') {
@@ -1677,6 +1680,7 @@ read_period(char *ptr, cf_t *cf)
     short int remain = 8;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* skip the % */
     ptr++;
-- 
2.43.0


From 93fa67e2ea67a1cfb471185e5996dcd8567f4c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 46/59] fix: a range of a single value selected the whole field

With "5-5", start is not lower than stop: the field was filled as one which
wraps around, that is to say completely.
---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 4075bef..ce77066 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1992,7 +1992,7 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
         if (debug_opt)
             fprintf(stderr, " %d-%d/%d", start, stop, step);
 
-        if (start < stop)
+        if (start <= stop)
             for (i = start; i <= stop; i += step)
                 bit_set(ary, i);
         else {
-- 
2.43.0


From 7b3674f8d0835ccfca3a3909618bfcc02d220239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 47/59] fix: missing numbers were silently read as 0

Fields like "5-", "1,,2" or "1-20~" and options like jitter() were accepted,
as if a 0 had been written.
---
 fileconf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index ce77066..bbca6ad 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1860,6 +1860,12 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
     }
     else {
 
+        if (!isdigit((int)*ptr) && *ptr != '.') {
+            /* no number at all */
+            need_correction = 1;
+            return NULL;
+        }
+
         while (isdigit((int)*ptr) || *ptr == '.') {
 
             if (*ptr == '.') {
-- 
2.43.0


From 55e0a6ce03da151e334b8658f579863d6c313097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:01 +0000
Subject: [PATCH 48/59] fix: reading a name at the end of a line wrote past its
 end

get_num() put as many characters in lower case as the first name has, even
if the text is shorter.
---
 fileconf.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index bbca6ad..da1ccbf 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1840,12 +1840,8 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
             return NULL;
         }
 
-        /* set string to lower case */
-        for (i = 0; i < strlen(names[0]); i++)
-            *(ptr + i) = tolower(*(ptr + i));
-
         for (i = 0; names[i]; ++i)
-            if (strncmp(ptr, names[i], strlen(names[i])) == 0) {
+            if (strncasecmp(ptr, names[i], strlen(names[i])) == 0) {
                 /* months are numbered from 1 */
                 *num = (max == 12) ? i + 1 : i;
                 ptr += strlen(names[i]);
-- 
2.43.0


From ef93dbee579878854b6c20437e2c58224719a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:22 +0000
Subject: [PATCH 49/59] fix: option reset of an @-line made the job run at once

0 is a valid delay before the first execution: reset must leave it unset,
as read_freq() does, so that the frequency is used.
---
 fileconf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fileconf.c b/fileconf.c
index da1ccbf..86cd895 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -168,6 +168,7 @@ init_default_line(cl_t *cl, cf_t *cf)
     Set(cl->cl_mailto, runas);
     Free_safe(cl->cl_tz);
     set_default_opt(cl->cl_option);
+    cl->cl_first = -1;          /* 0 is a valid value, so we use -1 for unset */
     cl->cl_file = cf;
 }
 
-- 
2.43.0


From c6095edefd7bcbc4194fd050d7038e6739f633aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:24 +0000
Subject: [PATCH 50/59] fix: lines beyond the maximum were silently ignored

---
 fileconf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 86cd895..6b6fd62 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -184,7 +184,7 @@ read_file(char *filename, int fd)
     int max_entries = MAXENTRIES;
     int entries = 0;
     char *ptr = NULL;
-    int ret;
+    int ret = OK;
 
     bzero(buf, sizeof(buf));
     need_correction = 0;
@@ -283,7 +283,7 @@ read_file(char *filename, int fd)
               file_name, line, max_entries, user);
         fprintf(stderr, "Anything after this line will be ignored\n");
     }
-    else if (line == max_lines)
+    else if (line > max_lines && ret == OK)
         error("%s:%d: maximum number of lines (%d) has been reached by %s",
               file_name, line, max_lines, user);
 
-- 
2.43.0


From fb12e455f66a82fd91e16c34e46e4b2b47bf6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:00 +0000
Subject: [PATCH 51/59] fix: job with long mail headers always reported as
 having had output

The end of the headers was stored in a short: with more than 32767 bytes
of them (X-Cron-Env) it wrapped, so that the mail seemed to have a body.
---
 job.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/job.c b/job.c
index 2d0e0b5..3a682a3 100644
--- a/job.c
+++ b/job.c
@@ -30,7 +30,7 @@
 
 
 void sig_dfl(void);
-void end_job(cl_t * line, int status, FILE * mailf, short mailpos,
+void end_job(cl_t * line, int status, FILE * mailf, long mailpos,
              char **sendmailenv);
 void end_mailer(cl_t * line, int status);
 #ifdef HAVE_LIBPAM
@@ -573,7 +573,7 @@ run_job(struct exe_t *exeent)
             int status = 0;
             int to_stdout = foreground && is_stdout(line->cl_option);
             int pipe_fd[2];
-            short int mailpos = 0;      /* 'empty mail file' size */
+            long int mailpos = 0;       /* 'empty mail file' size */
 #ifdef WITH_SELINUX
             int flask_enabled = is_selinux_enabled();
 #endif
@@ -785,7 +785,7 @@ run_job(struct exe_t *exeent)
 }
 
 void
-end_job(cl_t *line, int status, FILE *mailf, short mailpos, char **sendmailenv)
+end_job(cl_t *line, int status, FILE *mailf, long mailpos, char **sendmailenv)
     /* if task have made some output, mail it to user */
 {
 
-- 
2.43.0


From 5d5a08c2a0082c35d75557b1a3210978e8aaa4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:01 +0000
Subject: [PATCH 52/59] fix: a connection whose descriptor does not fit in the
 fd_set is refused

select_add_read() would have written out of the set of descriptors: any
local user may open that many connections when the limit on open files
is more than FD_SETSIZE.
---
 fcrondyn_svr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 4647214..768ed32 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -906,6 +906,11 @@ fcrondyn_socket_check(select_instance *si)
                 ("could not accept new connection : isset(listen_fd = %d) = %d",
                  listen_fd, FD_ISSET(listen_fd, &si->readfds));
         }
+        else if (fd >= FD_SETSIZE) {
+            error("Too many connections : connection rejected.");
+            shutdown(fd, SHUT_RDWR);
+            xclose_check(&fd, "client fd");
+        }
         else {
             fcntl(fd, F_SETFD, 1);
             /* set fd to O_NONBLOCK : we do not want fcron to be stopped on error, etc */
-- 
2.43.0


From e9a5d7f13b0127c22b7d739a9f995d8b10d9bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:48 +0000
Subject: [PATCH 53/59] fix: save: end the iteration over the environment when
 a variable can't be written

---
 save.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/save.c b/save.c
index 395c72d..b68465b 100644
--- a/save.c
+++ b/save.c
@@ -260,7 +260,14 @@ write_file_to_disk(int fd, struct cf_t *file, time_t time_date)
     /*   env variables, */
     for (env = env_list_first(file->cf_env_list);
          env != NULL; env = env_list_next(file->cf_env_list)) {
-        Save_str(fd, S_ENVVAR_T, env->e_envvar, write_buf, &write_buf_used);
+        if (save_str(fd, S_ENVVAR_T, env->e_envvar, write_buf,
+                     &write_buf_used) != OK) {
+            error_e("Could not write env var : file %s has not been saved.",
+                    file->cf_user);
+            /* otherwise we would die at the next use of that list */
+            env_list_end_iteration(file->cf_env_list);
+            return ERR;
+        }
     }
 
     /*   then, lines. */
-- 
2.43.0


From 81fd31df57d8f1d999b267d37cdf309483eaa11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 54/59] fix: job: fall back to the user's shell when SHELL is
 invalid and no shell is set in fcron.conf

---
 job.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/job.c b/job.c
index 3a682a3..29e6b1e 100644
--- a/job.c
+++ b/job.c
@@ -125,6 +125,8 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
     env_t *e = NULL;
     char *path = NULL;
     char *myshell = NULL;
+    /* used when SHELL is not set, or not valid */
+    char *default_shell = NULL;
 #ifdef HAVE_LIBPAM
     int retcode = 0;
     char **env;
@@ -148,10 +150,11 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
      * in /etc/passwd by default, but the default value from fcron.conf instead: */
     if (shell != NULL && shell[0] != '\0')
         /* default: use value from fcron.conf */
-        env_list_setenv(env_list, "SHELL", shell, 1);
+        default_shell = shell;
     else
         /* shell is empty, ie. not defined: fail back to /etc/passwd's value */
-        env_list_setenv(env_list, "SHELL", pas->pw_shell, 1);
+        default_shell = pas->pw_shell;
+    env_list_setenv(env_list, "SHELL", default_shell, 1);
 
 #if ( ! defined(RUN_NON_PRIVILEGED)) && defined(HAVE_LIBPAM)
     /* Open PAM session for the user and obtain any security
@@ -213,21 +216,24 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
         /* check that SHELL is valid */
         myshell = env_list_getenv(env_list, "SHELL");
         if (myshell == NULL || myshell[0] == '\0') {
-            myshell = shell;
+            myshell = default_shell;
         }
         else if (access(myshell, X_OK) != 0) {
             if (errno == ENOENT)
                 error("shell \"%s\" : no file or directory. SHELL set to %s",
-                      myshell, shell);
+                      myshell, default_shell);
             else
                 error_e("shell \"%s\" not valid : SHELL set to %s", myshell,
-                        shell);
+                        default_shell);
 
-            myshell = shell;
+            myshell = default_shell;
         }
+        /* myshell may be part of the variable we are about to overwrite */
+        myshell = strdup2(myshell);
         env_list_setenv(env_list, "SHELL", myshell, 1);
         if (curshell != NULL)
             *curshell = strdup2(myshell);
+        Free_safe(myshell);
 
         *jobenv = env_list_export_envp(env_list);
 
-- 
2.43.0


From 9998b85abe488ef013bb2d555808270524ae1c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:13 +0000
Subject: [PATCH 55/59] fix: close the pipe of a job which could not be forked

---
 job.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/job.c b/job.c
index 29e6b1e..8356838 100644
--- a/job.c
+++ b/job.c
@@ -562,6 +562,10 @@ run_job(struct exe_t *exeent)
     switch (pid = fork()) {
     case -1:
         error_e("Fork error : could not exec '%s'", line->cl_shell);
+        if (pipe_pid_fd[0] != -1) {
+            xclose_check(&(pipe_pid_fd[0]), "unused pipe_pid_fd[0]");
+            xclose_check(&(pipe_pid_fd[1]), "unused pipe_pid_fd[1]");
+        }
         return ERR;
         break;
 
-- 
2.43.0


From cbe36d88156a7aa0f8be609a85175ac51491fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:14 +0000
Subject: [PATCH 56/59] fix: close the suspend file when it cannot be removed

---
 suspend.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/suspend.c b/suspend.c
index 16401af..0375f50 100644
--- a/suspend.c
+++ b/suspend.c
@@ -199,7 +199,7 @@ read_suspend_duration(time_t slept_from)
  unlink_cleanup_return:
     if (unlink(suspendfile) < 0) {
         warn_e("Could not remove suspend file '%s'", suspendfile);
-        return 0;
+        suspend_duration = 0;
     }
 
  cleanup_return:
-- 
2.43.0


From 1b8f0efd006a62dc7c6fc88110da23962c32bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:57 +0000
Subject: [PATCH 57/59] fix: change of tzdiff applied in hours, to & and %
 lines only, when a crontab is read again

---
 conf.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/conf.c b/conf.c
index 62cdcf2..5b317df 100644
--- a/conf.c
+++ b/conf.c
@@ -233,6 +233,7 @@ synchronize_file(char *file_name, int is_system_startup)
             cf_t *old = NULL;
             cl_t *old_l = NULL;
             cl_t *new_l = NULL;
+            time_t tzdiff_change = 0;
             /* size used when comparing two line :
              * it's the size of all time table (mins, days ...) */
             const size_t size = (bitstr_size(60) + bitstr_size(24) +
@@ -279,14 +280,15 @@ synchronize_file(char *file_name, int is_system_startup)
 
                         if (new_l->cl_runfreq == old_l->cl_runfreq)
                             new_l->cl_remain = old_l->cl_remain;
-                        /* check if there is a change about the tz diff */
-                        if ((new_l->cl_file->cf_tzdiff !=
-                             old_l->cl_file->cf_tzdiff) &&
-                            (old_l->cl_nextexe - old_l->cl_file->cf_tzdiff
-                             + new_l->cl_file->cf_tzdiff > now))
-                            new_l->cl_nextexe = old_l->cl_nextexe
-                                - old_l->cl_file->cf_tzdiff +
-                                new_l->cl_file->cf_tzdiff;
+                        /* check if there is a change about the tz diff
+                         * (in hours, and for &- and %-lines only) */
+                        tzdiff_change = (is_td(new_l->cl_option)) ?
+                            (new_l->cl_file->cf_tzdiff -
+                             old_l->cl_file->cf_tzdiff) * 3600 : 0;
+                        if (tzdiff_change != 0
+                            && old_l->cl_nextexe + tzdiff_change > now)
+                            new_l->cl_nextexe =
+                                old_l->cl_nextexe + tzdiff_change;
                         else
                             new_l->cl_nextexe = old_l->cl_nextexe;
 
-- 
2.43.0


From 11bb4f9983a9984f128ded4654c14684bedfdd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:22 +0000
Subject: [PATCH 58/59] fix: dayor lines no longer run on a day after the end
 of a month

---
 database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 2c10a52..837569c 100644
--- a/database.c
+++ b/database.c
@@ -1196,8 +1196,8 @@ set_next_exe(cl_t *line, char option, int info_fd)
 
             j = ftime.tm_wday;
             i = ftime.tm_mday;
-            while ((bit_test(line->cl_days, i) == 0) &&
-                   (bit_test(line->cl_dow, j) == 0)) {
+            while (i > max || ((bit_test(line->cl_days, i) == 0) &&
+                               (bit_test(line->cl_dow, j) == 0))) {
                 if (i > max) {
                     ftime.tm_mon++;
                     if (has_changed < 2) {
-- 
2.43.0


From 22ca2fb90353f526fa8b3e01f2f56945443ec9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:15 +0000
Subject: [PATCH 59/59] fix: % lines run in the last minute of an hour no
 longer run again in the same interval

---
 database.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/database.c b/database.c
index 837569c..1b28f25 100644
--- a/database.c
+++ b/database.c
@@ -932,6 +932,26 @@ move_time_to(int where, cl_t *line, struct tm *ftime)
 
     }
 
+    /* fix the overflow of tm_min, if any: the tests below need valid values */
+    if (ftime->tm_min >= 60) {
+        ftime->tm_min = 0;
+        ftime->tm_hour++;
+    }
+    if (ftime->tm_hour >= 24) {
+        ftime->tm_hour = 0;
+        ftime->tm_mday++;
+        if (ftime->tm_mday >
+            get_nb_mdays((ftime->tm_year + 1900), ftime->tm_mon)) {
+            ftime->tm_mday = 1;
+            ftime->tm_mon++;
+        }
+        if (ftime->tm_mon >= 12) {
+            ftime->tm_mon = 0;
+            ftime->tm_year++;
+        }
+        set_wday(ftime);
+    }
+
     timet_ftime = mktime_no_dst(ftime);
 
     if (where == BEGIN_NEXT_PERIOD) {
-- 
2.43.0

