TS = 'path-sensitive typestate dataflow over LLVM IR'
BASE = 'Decided for every path of the code compiled from the current tree (all calls into the C library may succeed or fail independently), under the build configuration of /opt/vp/build.sh. Trusted: clang\'s translation to IR, the listed models of library calls, and that memory is only reached through the types the program declares.'
def P(id, title, st, over, q, why, files, mech, tech=TS, note=BASE, **k):
    return dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, tech=tech, note=note, **k)
PROPS = [
P('P01', 'Jobs and mailers run only under their run-as account',
  'Whenever the daemon executes the command of a job or a mailer for a job, the process has, by successful system calls, taken the uid, the primary gid and the supplementary groups of the account named in the run-as field of that very job. If any of these steps fails, or they are done in an order that cannot work, the program is not executed.',
  'inputs fault_sequences configurations', 'every job, every kind of execution (job, mailer of the output, "not run" mailer) and every combination of failing system calls',
  'The tests never start a job as root with a failing setgid/initgroups/setuid, and no test can enumerate the error paths.',
  'job.c database.c', [('change_user / change_user_setup', 'job.c'), ('run_job, launch_mailer', 'job.c'), ('mail_notrun', 'database.c')]),
P('P02', 'Jobs run only after the PAM checks of their run-as account passed',
  'The daemon executes the command of a job only on paths where PAM start, authentication, account check, credential establishment and session opening all succeeded for the run-as account of that job. If any of them fails the command is not executed.',
  'inputs fault_sequences', 'every job and every combination of PAM results',
  'The tests do not go through PAM at all; the failing combinations cannot be sampled.', 'job.c', [('run_job', 'job.c'), ('die_mail_pame', 'job.c')]),
P('P03', 'The mailer never gets environment variables set by a crontab',
  'Each time the daemon executes the mailer it passes an explicit environment, and that environment contains no variable defined in a crontab: variables set by the user go to the job command only.',
  'inputs programs', 'every crontab, every path leading to the execution of the mailer',
  'Needs the data flow of the environment on every path to an exec; the tests only cover the formatting of mail headers.', 'job.c env_list.c database.c', [('setup_user_and_env', 'job.c'), ('launch_mailer', 'job.c')]),
P('P04', 'No signal sent to the daemon is lost and handlers stay trivial',
  'SIGHUP, SIGUSR1, SIGUSR2, SIGTERM, SIGCHLD and SIGCONT each have one handler which does nothing but raise a flag of its own, and SIGPIPE is ignored. On every path the flag is lowered before, never after, the work it asks for begins (collecting the ended children until none is left without blocking, reading new crontabs, reloading all of them, printing the schedule, terminating with the state saved), and the work follows. The daemon looks at the flags between any two sleeps.',
  'schedules', 'every moment at which a signal can arrive, any number of signals', 'No test sends a signal to the daemon; losing one needs a particular interleaving.',
  'fcron.c database.c', [('sig*_handler, check_signal, main', 'fcron.c'), ('wait_chld', 'database.c')]),
P('P05', 'The daemon never forgets a crontab whose jobs\' state is not on disk',
  'When the daemon terminates or reloads everything, each crontab is removed from memory only after its state was saved, and after the last time the daemon collected ended jobs; on termination all states are also saved before it starts waiting for running jobs. Saving everything goes through every crontab, even when saving one of them fails. The running daemon never goes back to sleep when the saving date is reached without having saved everything.',
  'histories crash_points fault_sequences', 'every set of crontabs, running jobs and save results, every turn of the main loop',
  'Needs several crontabs with jobs ending during the shutdown; the tests never run the daemon.', 'fcron.c conf.c', [('xexit, main_loop', 'fcron.c'), ('reload_all, save_file, delete_file', 'conf.c')]),
P('P06', 'Counts of pending and running jobs always match queues and processes',
  'Over every start, queueing, removal and termination of a job, and whichever of its steps fails, the per-job count of pending or running executions, the per-crontab count of running jobs, the number of running serial and load-average-serial jobs and the length of the serial queue change exactly as the queues and the list of running processes change. Every forked process of a job or of a mailer is put in the list of running processes. A due job goes to the load average queue if it has load average limits, else to the serial queue if it is serial, else it is run at once; a job waiting on the load average is never marked to run serially once.',
  'histories fault_sequences', 'every combination of the serial, serial-once and load average options, every path of the functions that start, queue, remove, collect jobs', 
  'A leaked count only shows after a failing fork/pipe or a reload at a particular time, as a job or a whole queue that never runs again.', 'database.c conf.c', [('run_queue_job, run_serial_job, add_serial_job, add_lavg_job, wait_chld, wait_all', 'database.c'), ('delete_file', 'conf.c')]),
P('P07', 'The daemon sleeps on a current wake time and with no runnable serial job',
  'Each time the main loop of the daemon goes back to sleep, the wake time was computed after the last change of the schedule (by jobs, signals, commands received or the load average queue), and the queue of serial jobs is empty or the maximum number of serial jobs is running.',
  'histories schedules', 'every turn of the main loop and every combination of signals, commands and due jobs handled in it', 
  'Depends on what arrives during one turn of the main loop; the tests never run it.', 'fcron.c database.c', [('main_loop', 'fcron.c'), ('check_lavg, next_wake_time, run_serial_job', 'database.c')]),
P('P08', 'A process forked for a job never acts as the daemon',
  'From the fork() for a job, for its mailer or for a "not run" message, the new process never returns into the code of the daemon, whatever fails: it ends or executes a program. It never saves the state of jobs, loads crontabs, serves fcrondyn clients, performs the orderly termination of the daemon, or removes the lock file.',
  'fault_sequences inputs', 'every fork of the daemon and every path of the forked processes',
  'A forked process only misbehaves when fork, exec, pipe or a later step fails; the outcome is a second daemon running the same jobs.', 'job.c database.c', [('run_job', 'job.c'), ('mail_notrun', 'database.c'), ('xexit', 'fcron.c')]),
P('P09', 'A job starts with default signals, original umask, its directory and nice',
  'Whenever the daemon executes the command of a job, the process has reset every signal the daemon ignores, restored the umask the daemon was started with, successfully changed to a working directory, and applied the nice value of the line unless that value is 0.',
  'inputs fault_sequences configurations', 'every job, every nice value, every option and every failing system call on the way',
  'The tests never execute a job; the combinations of options and failures cannot be sampled.', 'job.c', [('run_job, become_user, sig_dfl, run_job_grand_child_setup_nice', 'job.c')]),
P('P10', 'Output of a job is collected and mailed exactly as its options say',
  'If option mail is set the standard output and error of a job go to the collecting pipe before the job is executed and the end of the job is handled with what was collected; with option stdout and fcron in foreground they are left alone; otherwise, in foreground, they go to /dev/null. A mail is sent exactly when something was collected for, and mailzerolength is set, or mail is set and either the job failed (non-zero status or signal) or it wrote output and erroronlymail is not set. All output is read to its end and put into the mail before the end of the job is handled, output is told apart from the headers by their real length, and the mailer reads the complete mail from its start on its standard input, with the mail address of the job as last argument.',
  'inputs configurations', 'all combinations of mail, stdout, mailzerolength, erroronlymail, foreground, output, exit status',
  'The decision depends on six independent conditions in two processes; the tests cover only the formatting of headers.', 'job.c', [('run_job, run_job_grand_child_setup_stderr_stdout, end_job', 'job.c')]),
P('P11', 'A job waiting on the load average is started or dropped as documented',
  'For each job in the load average queue, at each look at the queue, and for every combination of load, thresholds, and/or option, serial option, room for a serial job, waiting limit and run-when-late option: the job is started iff its load condition holds (and, if serial, fewer serial jobs than the maximum run) or its waiting limit has passed and it runs when late. If its waiting limit has passed and it does not run when late it is rescheduled instead (with a notice for a time based line which asks for one), otherwise it stays in the queue. It leaves the queue exactly when it was started or rescheduled, and the number of running serial jobs is looked at again for each job.',
  'inputs configurations', 'all truth values of the conditions the decision depends on, every path of the function serving the queue',
  'About 800 combinations of nine conditions; the tests never call it.', 'database.c', [('check_lavg', 'database.c')], note=BASE + ' The load and thresholds are represented by one value on each side of every comparison.'),
P('P12', 'A due job is started or queued exactly when documented, then rescheduled',
  'When the daemon looks for jobs to run: a job whose next execution is in the future is left alone, every due job counts one run down, and exactly when the count of runs to skip is used up it is marked as having run, its count is set back and it is handed to the load average queue, the serial queue or an immediate start, whichever its options say. It is then rescheduled, or, if it runs only once and has run, removed from the schedule.',
  'inputs configurations', 'all combinations of due time, count of runs to skip, lavg, serial, runonce and already-run, every path', 'The tests never run the scheduling loop.', 'database.c', [('test_jobs', 'database.c')]),
P('P13', 'A job is accepted by a queue or started only within its documented limits',
  'A job with no execution pending or running is accepted by an immediate start, by the serial queue and by the load average queue; one with executions pending is accepted only if the option of that mode allowing several is set and fewer than 255 are pending. A full serial or load average queue refuses the job, with a notice if the job asks for one, and an accepted job counts one more pending execution. The waiting limit given to a job accepted in the load average queue is the configured waiting time or, for a strict line run at each interval, the end of the interval if that comes first.',
  'inputs configurations histories', 'all combinations of pending executions, several options, room in the queues, notice option, waiting time, strict and skip count, every path',
  'The limits only show with many executions of a job pending at the same time; the tests never queue a job.', 'database.c', [('run_normal_job, add_serial_job, add_lavg_job', 'database.c')]),
P('P14', 'Saving and loading a crontab give back the same jobs',
  'Every attribute of a crontab and of each of its jobs which is kept on disk is written whole, under a tag of its own, and left out exactly when it has its default value; version, owner and saving date come first, the time zone and the environment variables come before the jobs they apply to, and each job is closed by an end mark. The loader puts each tag back in the very attribute it was written from, without truncating it.',
  'inputs', 'every crontab and every value of each attribute, every path of the writer and of the reader',
  'A tag written from one attribute and read in another, or a field written with another size than it is read with, only shows for the values which differ; the tests save no job.',
  'save.c conf.c', [('write_file_to_disk, save_one_file', 'save.c'), ('read_file, read_type, read_strn', 'conf.c')]),
P('P15', 'A damaged binary crontab is refused as a whole, and alone',
  'While a binary crontab is loaded every read is bounded by the place it goes to; the version of the format and the order of the first fields are enforced, and a field is used only if its type, size and content were read completely. If a field cannot be read the load fails, everything loaded from that file is removed from the daemon, and nothing else is.',
  'inputs fault_sequences', 'every content of the file, every short or failing read',
  'The malformed contents and the places where a read can fail cannot be enumerated by tests; they never load a binary file.', 'conf.c', [('read_file, read_type, read_strn, read_field size checks', 'conf.c')]),
P('P16', 'The daemon admits a crontab and its jobs only for their rightful owner',
  'The rights of a crontab are taken from the owner of the file actually opened: a new crontab not owned by root binds the crontab and all of its jobs to the user owning it, any other file must belong to root or is refused. Jobs which lack a command, a run-as account or a recipient are refused and do not enter the schedule; variables USER and LOGNAME set by a crontab are ignored. Unsafe mail addresses are replaced and periods below one second are corrected before a job is scheduled.',
  'inputs configurations', 'every content and owner of the file, every path of the loader',
  'Privilege escalation through a crafted file is what an attacker searches for; the tests never load one.', 'conf.c', [('read_file, add_line_to_file', 'conf.c')]),
P('P17', 'A saved crontab replaces the old one atomically or not at all',
  'A crontab is written to a temporary file, each write is checked and a partial write continued where it stopped, the data are flushed to disk, and only then is the temporary file renamed over the destination. The destination is written directly only after the rename failed, with the complete copy kept until that succeeded. Success is reported iff the complete content is in place, and an incomplete temporary file is removed.',
  'fault_sequences crash_points', 'every combination of failing or partial system calls, every point at which the machine may stop',
  'Needs a full disk, an interrupted write or a crash at a particular point.', 'save.c', [('save_file_safe, write_buf_to_disk, save_data', 'save.c')]),
P('P18', 'A new crontab is adopted as a whole, or the current one is left alone',
  'When the daemon finds a new version of a crontab, the current version is removed from memory only if the new one was loaded completely, and exactly once; the new one is then added and those of the other users are kept. The new version is saved as the current one and the file it came from is removed if and only if this save succeeded. If it cannot be loaded nothing is changed.',
  'fault_sequences histories', 'every result of load, save and removal; the old version absent, first or not first in memory', 
  'The tests never install a crontab in a daemon, and never make a step fail.', 'conf.c', [('synchronize_file', 'conf.c')]),
P('P19', 'Jobs left unchanged by a new version of a crontab keep their schedule',
  'When a new version of a crontab replaces the current one, a job of the new version takes the next execution time, the remaining count of runs to skip and the run-once state of a job of the current version exactly when both have the same command and the same schedule (kind, period or time fields, and count); for a job with time fields, the next execution is moved by the change of tzdiff (in hours) of the crontab if it still lies in the future. Any other job is scheduled as a new one.',
  'inputs configurations histories', 'all combinations of kind, schedule equality, command equality, time zone change and run-once options of the two jobs', 
  'The tests never replace a crontab; the decision has a dozen independent conditions.', 'conf.c', [('synchronize_file', 'conf.c')]),
P('P20', 'Removing a crontab leaves no trace of its jobs and spares all others',
  'After a crontab was removed from the daemon, the schedule, the serial queue, the load average queue and the list of running processes refer to none of its jobs: each was taken out of them before being released, and is released exactly once. The entries which belong to other crontabs stay where they are, in the same order, and only the first crontab with the given name leaves the list of crontabs.',
  'histories', 'its place among the crontabs, its jobs and those of others in any arrangement in the queues and among the running processes, every path',
  'A reference left behind is a use after free which only shows when a job ends or is due later; the tests never remove a crontab.', 'conf.c', [('delete_file', 'conf.c')],
  note=BASE + ' Arrangements are exhaustive for up to 3 crontabs, 2 running processes, 2 load average entries and a serial queue of 3 cells (4 in the thorough tier).'),
P('P21', 'Serial jobs are started in the order in which they were queued',
  'The serial queue is first in, first out: queueing a job puts it behind all others, starting takes the one queued first, and neither growing the queue nor its wrapping around changes the order, loses or duplicates a job, or accesses memory outside of it. Cells not in use are empty.',
  'histories', 'every position and filling of the queue, full or not, growing or not',
  'Needs a queue which wrapped around before it grows, with several jobs in it.', 'database.c', [('add_serial_job, run_serial_job', 'database.c')],
  note=BASE + ' Exhaustive for queues of 1 to 3 cells before growing (4 in the thorough tier).'),
P('P22', 'The schedule is always sorted and holds each job exactly once',
  'Putting a job in the schedule, whether it is there already or not, leaves each other job in place, this job exactly once, and all of them sorted by next execution time; removing a job leaves the others in order. Each time the daemon changes the next execution time of a scheduled job it then puts the job at its new place or takes it out of the schedule.',
  'histories', 'every schedule, every place and new time of the job, every path of the functions which reschedule a job',
  'The daemon only looks at the head of the schedule: a job out of place is late or lost, depending on all others.', 'database.c', [('insert_nextexe, job_queue_remove', 'database.c'), ('set_next_exe*, synchronize_file', 'database.c conf.c')],
  note=BASE + ' Exhaustive for all relative times of one job and up to 3 others.'),
P('P23', 'Missed, interrupted and reboot jobs are handled as documented at startup',
  'When the daemon starts at boot, restarts, loads a changed fcrontab or resumes from a suspend, each job gets the next execution its options ask for: bootrun, runatreboot, runatresume, runonce, rebootreset, first, runfreq, volatile and the time saved in the file decide whether it runs now, after a delay, or at its next period. A job interrupted by the previous stop goes back once to the serial or load-average queue, and never on a resume or when it runs at each reboot. Missed runs are reported by a notice exactly for the jobs which ask for it.',
  'inputs', 'every combination of startup context, job options, saved time and interruption state, every path of the startup handling',
  'A job run twice, or never, after a crash, a reboot or a laptop resume is only seen with the right combination of options and history.', 'database.c', [('set_next_exe_startup', 'database.c'), ('mail_notrun_time_t', 'database.c')],
  note=BASE + ' Times are taken relative to the current time (before, now, after); calendar arithmetic is a leaf.'),
P('P24', 'fcrontab installs exactly what was asked, completely or not at all',
  'fcrontab saves a new table only after the complete source was read, copied and accepted (from a file, the standard input, the editor or the current source), and this source becomes the one kept for the user by the rename of a complete copy. The previous one is dropped only after that, with -n or when the new table is empty, or when asked to remove it. The exit status is success, and the daemon is signalled, if and only if what was asked is in place.',
  'inputs fault_sequences', 'every mode (stdin, file, edit, reinstall, remove) with and without -n, empty or not, and every failing call',
  'The interesting paths are errors while reading, copying, saving, renaming, or an editor which is killed; the tests do none.', 'fcrontab.c', [('install_file, install_stdin, edit_file, reinstall, make_file, copy_src, remove_fcrontab, xexit', 'fcrontab.c')]),
P('P25', 'fcrontab acts only for permitted users, with the rights of the caller',
  'fcrontab lists, edits, installs or removes a table only once the caller was checked: only root may name another user or the system table, the user must be allowed by fcron.allow and fcron.deny as documented, and every PAM check passed. It reads its configuration and the files named by the caller with the caller\'s ids. Listing changes nothing.',
  'inputs fault_sequences configurations', 'every combination of caller, options, contents of the allow and deny files, and results of PAM and of the system calls',
  'A missing check on one combination of options is a privilege escalation in a set-uid program, and no test runs it that way.', 'fcrontab.c allow.c', [('main, parseopt', 'fcrontab.c'), ('is_allowed, in_file', 'allow.c')],
  note=BASE + ' The contents of the allow and deny files are abstracted to the lines that matter (the name, "all", blank, comment, another name).'),
P('P26', 'Files touched for somebody else: with his ids, restored, and regular only',
  'Opening, removing or renaming a file as a user is done with exactly the effective uid and gid asked for and exactly the arguments given, and the ids of the caller are back on every return. A file is opened so only if it is regular and has a single link; one which is refused is closed, the reason stays in errno, and the result is a failure. fcrontab opens and renames files in no other way.',
  'inputs fault_sequences', 'every combination of ids, flags, file types and failing calls', 'Needs set-uid execution, hard links and failing system calls.', 'subs.c fcrontab.c', [('open_as_user, remove_as_user, rename_as_user', 'subs.c')]),
P('P27', 'fcrondyn does what is asked only on the jobs of the client, or for root',
  'A request of fcrondyn lists, starts, reschedules, signals or renices exactly the jobs it names among those which belong to the client, or among all of them if the client is root; lists of everything, negative nice values and jobs of removed crontabs are for root only. A signal or a priority only ever goes to the process of the job (never to pid 0 or less). Whatever the request, the answer goes to the client who asked and ends with exactly one end marker.',
  'inputs histories', 'every command and class of argument, client (root, owner, other), and state of the queues and running jobs; failing system calls',
  'The tests never talk to the daemon; a missing check on one command gives control over the jobs of others.', 'fcrondyn_svr.c', [('exe_cmd, cmd_ls, cmd_run, cmd_on_exeq, cmd_renice, cmd_send_signal', 'fcrondyn_svr.c')],
  note=BASE + ' Queues hold 3 jobs of 3 owners, 4 running processes; values of arguments are the boundaries of each class.'),
P('P28', 'fcrondyn clients are who they claim, and are judged by their own message',
  'A client is given a name only if the kernel tells it is this user, or if it gave the right password of exactly this user; wrong passwords are counted, and once there are too many every password is refused until the delay is over. A request is done only for a client who has a name, and only from the bytes of the message just received from this very client, which is always terminated.',
  'inputs histories', 'every outcome of each check, every number and age of failures, every message length', 'Needs forged or truncated messages, several clients at once and many failed passwords.', 'fcrondyn_svr.c', [('auth_client_*, fcrondyn_socket_check', 'fcrondyn_svr.c')]),
P('P29', 'Each fcrondyn connection is watched, served in its turn and closed once',
  'Each connection stays watched until it ends: adding or removing one never makes another unwatched. Each client who sent something is served once, without keeping others from being served; a connection which was closed, idle or not authenticated for too long is taken off the watched set, closed and released exactly once, and no other is affected. A new connection can neither block the daemon nor be inherited by a job, and is refused if its descriptor does not fit in the watched set.',
  'histories inputs', 'every set of watched descriptors, every combination of states of the clients', 'Needs several clients connecting and leaving in particular orders.', 'select.c fcrondyn_svr.c', [('select_add_read, select_rm_read, select_call', 'select.c'), ('fcrondyn_socket_check, remove_connection, fcrondyn_socket_close', 'fcrondyn_svr.c')],
  note=BASE + ' Exhaustive for sets within 5 descriptors (7 in the thorough tier) and up to 3 clients.'),
P('P30', 'What is formatted is bounded, and only by formats of the programs themselves',
  'Each message the programs format, for the log, a user, a mail or a file, is formatted by a string of the program, never by one which comes from a user, a file or a client, and gets at least the arguments this string converts, of the size and kind it reads. A string read by a format is bounded. A log message stays within its buffer and is terminated, whatever its length and the length of the error text appended.',
  'inputs', 'every formatting call of every program and each format it can get; all lengths around the size of the buffer',
  'Error messages are formatted on paths no test takes; a wrong one crashes the daemon, or lets a user choose a format.', 'log.c', [('make_msg, xlog', 'log.c'), ('calls of error, error_e, die, die_e, warn, explain, debug, printf, snprintf, send_msg_fd...', 'all files')]),
P('P31', 'Each option of an entry does what is documented, or is refused',
  'Each documented option of a crontab entry, with each form of argument documented, sets exactly the setting of the entry that is documented, to the value documented, and changes nothing else; undocumented names, wrong or missing arguments and numbers out of range are refused, and the user is asked for a correction. Options of a line of options apply to the entries which follow, and options of an entry to this one only.',
  'inputs', 'every option name, with every form of argument (none, yes/no words, numbers around the limits, times with each unit), on a line of options or in an entry, for root or another user',
  'There are about 40 options with several forms each, and a wrong one is a job which runs at the wrong time, as the wrong user, or mails the wrong person; the tests try none.', 'fileconf.c option.h', [('read_opt, get_bool, get_time, get_num, assign_option_string', 'fileconf.c')],
  note=BASE + ' Arguments are the representatives of each class (words, boundaries of numbers).'),
P('P32', 'Time fields select exactly what is documented, or are refused',
  'A time field of an entry (minutes, hours, days, months, days of week) selects exactly the values its text denotes as documented: numbers, names, ranges (also wrapping around), steps, removed values, lists and "*"; anything else is refused. Each field of an entry goes to its own table with its own limits. Whatever the text, nothing is read or written out of the text and the tables.',
  'inputs', 'every field and every form of its grammar with numbers at the boundaries of every class; any text for memory bounds',
  'The grammar combines ranges, wrap-around, steps and exclusions with different limits per field; the tests try none, and a wrong bit is a job which does not run or runs too often.', 'fileconf.c', [('read_field, get_num', 'fileconf.c'), ('read_arys, read_period', 'fileconf.c')],
  note=BASE + ' Numbers are representatives of each class; steps of wrapping ranges of days are not specified.'),
P('P33', 'Each line of a crontab becomes exactly one entry, or asks for correction',
  'Each line of a crontab is read once, as what its first characters say: comment, options, variable, shortcut or entry of one of the three kinds, and the last line counts even without an end. A line with anything wrong in it (any part refused, no command, no interval) adds nothing and makes fcrontab ask for a correction; any other line adds exactly one entry, with the default options of its place in the file and the kind, times, counts and options its text denotes. A variable goes to the jobs of the crontab, except those which are options (MAILTO, MAILFROM) or not allowed (USER, LOGNAME).',
  'inputs', 'every kind of line, every way each part of it can be read or refused, every choice of options and restricted fields; all short lines, ends of file and continued lines around the size of the buffer',
  'The combinations of kinds of lines, options and errors are many, and each wrong one silently loses or changes a job; the tests install no crontab.', 'fileconf.c', [('read_file, get_line, read_env', 'fileconf.c'), ('read_freq, read_arys, read_period, read_shortcut, init_default_line', 'fileconf.c')],
  note=BASE + ' The parts of a line (options, fields, times, names) are read as P31 and P32 say; get_line is decided for a buffer of 6 characters; limits of number of lines and entries are not covered.'),
P('P34', 'Lists keep every entry, and are never left or used half way through',
  'The lists the programs keep (running processes, jobs waiting on the load average, environment variables) hold exactly what was put in them and not removed, whatever their size and however often they grow; going through a list visits each entry once, also when entries are added or removed meanwhile. No function leaves a list half way through when it returns, even on an error, nor goes through a list while it already is being gone through: this would end the daemon at once or at the next use of this list.',
  'histories inputs fault_sequences', 'every operation at each position of lists of 0 to 4 entries (6 in the thorough tier), full or not, limited or not; every path of every function which goes through a list',
  'A list left half way through by an error path ends the daemon much later, at an unrelated use; the tests of lists do not fail the writes.', 'u_list.c', [('u_list_add, u_list_next, u_list_remove_cur, u_list_resize_array', 'u_list.c'), ('wait_chld, check_lavg, cmd_on_exeq, cmd_ls, delete_file, write_file_to_disk', 'database.c fcrondyn_svr.c conf.c save.c')],
  note=BASE),
P('P35', 'Jobs and mailers get exactly the documented environment, shell and directory',
  'The mailer gets USER, LOGNAME, HOME of the account which runs the job, the PATH of the daemon, the time zone of the job, the documented SHELL and what PAM defines. The job gets the same with the default PATH, over which come all the variables of the crontab. The shell executed, and SHELL, are the first executable one of the crontab, fcron.conf and the password file; the directory is HOME. Setting a variable replaces the one with exactly this name, and no other.',
  'inputs configurations', 'every way each variable can be defined by fcron.conf, the account, PAM, the option timezone and the crontab; lists of 0 to 3 variables; all short names',
  'A wrong order of layers or a name compared by its beginning only shows with particular variables, and runs the job with the wrong programs or files.', 'job.c', [('setup_user_and_env', 'job.c'), ('env_list_setenv, env_list_putenv, env_list_getenv, env_list_export_envp', 'env_list.c'), ('strcmp_until', 'subs.c')],
  note=BASE + ' Values are representatives.'),
P('P36', 'What the daemon opens for a while is closed, once, on every way out',
  'Each file, directory, pipe end and socket the daemon opens for a while is closed on every way out of the function which opened it (or to which it was handed), also when anything in between fails, or is kept where it is closed later; the ends of the pipe of a job which could not be started included. Nothing, in the daemon, fcrontab or fcrondyn, is closed twice, or used after it was closed.',
  'fault_sequences inputs', 'every function which opens something or gets something opened, and every path through it, each call failing or not',
  'A descriptor lost on an error path only shows after months, when the daemon can no longer open a crontab or start a job; no test makes these calls fail.', 'job.c', [('run_job', 'job.c'), ('read_file, synchronize_dir, read_suspend_duration, fcrondyn_socket_check', 'conf.c suspend.c fcrondyn_svr.c'), ('open_as_user, temp_file, xclose, xfclose', 'subs.c temp_file.c filesubs.c')],
  note=BASE + ' What is kept in a variable of the program or in a structure is followed to there only; what a process still holds when it ends is given back by the system.'),
P('P37', 'Only one daemon works, and its pid file names it',
  'The daemon reads the crontabs and starts jobs only while it holds the exclusive lock on its pid file, which it never gives up before it ends; a second daemon with the same pid file ends at once, without waiting. When it starts to work, the pid file holds the pid of the process which does the work, also when it went to the background, and the process it was started from ends. fcronsighup signals only the process the pid file names, with SIGHUP only.',
  'schedules configurations fault_sequences', 'every path from the start of the daemon to its main loop, in the foreground or not, each call failing or not; every path of fcronsighup',
  'Two daemons would run every job twice, and a wrong pid signals a foreign process; the tests start no daemon.', 'fcron.c', [('main, get_lock', 'fcron.c'), ('read_pid, sig_daemon', 'fcronsighup.c')],
  note=BASE + ' That the lock excludes other processes is what flock() and lockf() promise.'),
P('P38', 'The dates of a job are those of its own time zone, and of no other job',
  'Each date of a job (next execution, end of its interval, notice of a missed run) is worked out with TZ set to the time zone of the job, or to the one the daemon was started in if the job has none, from the time of the system less the tzdiff of its crontab; the tzdiff is added back to the date kept. When this is done, TZ is again what the daemon was started with (unset if it was), for every combination of zones, also when one computation starts another and when no date is found; what the daemon was started with is remembered before its work begins.',
  'inputs configurations histories', 'every path of each function which changes TZ for a job, with the daemon without TZ or with one, the job without, with the same or with another zone',
  'One early return that leaves the zone of a job in force moves the dates of every later job of every user; the tests have no time zones.', 'database.c', [('switch_timezone, switch_back_timezone', 'database.c'), ('set_next_exe, set_next_exe_notrun, add_lavg_job, mail_notrun, mail_notrun_time_t', 'database.c'), ('main', 'fcron.c')],
  note=BASE + ' What localtime() and mktime() make of TZ, and changes of daylight saving time, are taken as the C library gives them.'),
P('P39', 'A job with time fields runs next at the first date they allow',
  'The next execution of a job with time fields is the first minute after the current one whose month, hour and minute, and whose day of month and day of week (both, or either with option dayor) are all among the ones of its fields; days which do not exist in a month are never used, whatever the length of months and years passed. A job which is to run once per interval or per period (%-lines) runs next in the first interval or period after the one it has run in: neither twice in one, nor leaving one out.',
  'inputs configurations histories', 'the search of the next execution with 31 contents of the fields and 104 contents and options of lines to be run once per interval or period, from dates at the edges of hours, days, weeks, months and years',
  'This is what the daemon is for, and whether the search is right at an edge depends on the calendar; the tests schedule nothing.', 'database.c', [('set_next_exe, move_time_to, goto_beginning_next_period_periodical', 'database.c'), ('get_nb_mdays, set_wday, is_leap_year', 'database.c')],
  note=BASE + ' Values of fields and dates are representatives; what mktime() makes of a date which exists twice or not at all, when daylight saving time changes, is left to the C library. A case whose values cannot be followed to one date (a table looked up at a computed place) is listed as not decided, not reported. A known finding: a midhourly %-line run in minute 29 leaves out a period.'),
]
NA = [
]
