F='fcron.c'
C="""        sig_chld = false;
        wait_chld();
        reinstall_signal_handler(SIGCHLD, sigchld_handler);
"""
CASES=[
 (['P04'],'bad','chld flag reset after work',[(F,C,"        wait_chld();\n        sig_chld = false;\n")]),
 (['P04'],'bad','hup flag reset after work',[(F,"        sig_hup = false;\n        synchronize_dir(\".\", 0);\n","        synchronize_dir(\".\", 0);\n        sig_hup = false;\n")]),
 (['P04'],'bad','chld one wait',[('database.c',"while ((pid = waitpid(-1, NULL, WNOHANG)) > 0)","if ((pid = waitpid(-1, NULL, WNOHANG)) > 0)")]),
 (['P04'],'bad','handlers swapped',[(F,"    sig_hup = true;","    sig_usr1 = true;")]),
 (['P04'],'bad','usr1 not reset',[(F,"        sig_usr1 = false;\n","")]),
 (['P04'],'bad','hup only when idle',[(F,"    if (sig_hup == true) {","    if (sig_hup == true && serial_running == 0) {")]),
 (['P04'],'bad','handler logs',[(F,"    sig_hup = true;","    sig_hup = true;\n    explain(\"HUP\");")]),
 (['P04'],'bad','sigpipe not ignored',[(F,"    install_signal_handler(SIGPIPE, SIG_IGN);\n","")]),
 (['P04'],'good','helper for hup',[(F,"void\ncheck_signal()","static void\ndo_hup(void)\n{\n    sig_hup = false;\n    synchronize_dir(\".\", 0);\n}\n\nvoid\ncheck_signal()"),(F,"        sig_hup = false;\n        synchronize_dir(\".\", 0);\n        reinstall","        do_hup();\n        reinstall")]),
 (['P04'],'good','early return order',[(F,"    if (sig_chld == true) {\n        /* reset","    if (sig_chld) {\n        /* reset")]),
]
