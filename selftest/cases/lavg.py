D='database.c'
LAND="""             && (l_avg[0] < l->l_line->cl_lavg[0] || l->l_line->cl_lavg[0] == 0)
             && (l_avg[1] < l->l_line->cl_lavg[1] || l->l_line->cl_lavg[1] == 0)
             && (l_avg[2] < l->l_line->cl_lavg[2] || l->l_line->cl_lavg[2] == 0)
"""
TH=open('/repo/database.c').read()
a=TH.index("        if ((is_land(l->l_line->cl_option)\n"); b=TH.index("            debug(\"lavg '%s' %s"); COND=TH[a:b]
HELP="""static int
light(lavg_t *l, double *avg)
{
    int i, below, any = 0, all = 1;
    for (i = 0; i < 3; i++) {
        below = avg[i] < l->l_line->cl_lavg[i];
        if (below)
            any = 1;
        else if (l->l_line->cl_lavg[i] != 0)
            all = 0;
    }
    return is_land(l->l_line->cl_option) ? all : any;
}

time_t
check_lavg(time_t lim)"""
CASES=[
 (['P11'],'bad','land third ignored',[(D,LAND,LAND.replace("             && (l_avg[2] < l->l_line->cl_lavg[2] || l->l_line->cl_lavg[2] == 0)\n",""))]),
 (['P11'],'bad','land zero means never',[(D,LAND,LAND.replace(" || l->l_line->cl_lavg[1] == 0",""))]),
 (['P11'],'bad','land index swap',[(D,LAND,LAND.replace("l_avg[1] < ","l_avg[0] < "))]),
 (['P11'],'bad','no scaling of one',[(D,"    l_avg[2] *= 10;\n","")]),
 (['P11'],'bad','limit ignores serial',[(D,"        if (lavg_serial_running >= serial_max_running &&\n            is_serial(l->l_line->cl_option)) {","        if (lavg_serial_running > serial_max_running &&\n            is_serial(l->l_line->cl_option)) {")]),
 (['P11'],'bad','limit blocks all',[(D,"        if (lavg_serial_running >= serial_max_running &&\n            is_serial(l->l_line->cl_option)) {","        if (lavg_serial_running >= serial_max_running) {")]),
 (['P11'],'bad','limit cached',[(D,"        if (lavg_serial_running >= serial_max_running &&\n            is_serial(l->l_line->cl_option)) {","        if (busy &&\n            is_serial(l->l_line->cl_option)) {"),(D,"    l_avg[2] *= 10;\n","    l_avg[2] *= 10;\n    int busy = lavg_serial_running >= serial_max_running;\n")]),
 (['P11'],'bad','late not removed',[(D,"                run_lavg_job(l);\n                lavg_list_remove_cur(lavg_list);\n            }\n        }\n\n    /* we do","                run_lavg_job(l);\n            }\n        }\n\n    /* we do")]),
 (['P11'],'bad','late inverted',[(D,"            if (!is_run_if_late(l->l_line->cl_option)) {","            if (is_run_if_late(l->l_line->cl_option)) {")]),
 (['P11'],'bad','until guard',[(D,"            && l->l_until > 0 && l->l_until < now) {","            && l->l_until < now) {")]),
 (['P11'],'bad','until needs cl_until',[(D,"        if ((l->l_line->cl_until > 0 || l->l_line->cl_runfreq == 1)\n","        if (l->l_line->cl_until > 0\n")]),
 (['P11'],'bad','no reschedule',[(D,"                    set_next_exe(l->l_line, NO_GOTO_LOG, -1);\n\n                /* remove","                    debug(\"x\");\n\n                /* remove")]),
 (['P11'],'good','helper loop',[(D,COND,"        if (light(l, l_avg)) {\n"),(D,"time_t\ncheck_lavg(time_t lim)",HELP)]),
 (['P11'],'good','expired helper',[(D,"time_t\ncheck_lavg(time_t lim)","static int\nexpired(lavg_t *l)\n{\n    if (l->l_until == 0)\n        return 0;\n    return now > l->l_until;\n}\n\ntime_t\ncheck_lavg(time_t lim)"),(D,"        if ((l->l_line->cl_until > 0 || l->l_line->cl_runfreq == 1)\n            && l->l_until > 0 && l->l_until < now) {","        if (expired(l)) {")]),
]
CASES += [
 (['P12'],'bad','remain one early',[(D,"--(j->j_line->cl_remain) > 0) {","--(j->j_line->cl_remain) > 1) {")]),
 (['P12'],'bad','remain not reset',[(D,"            j->j_line->cl_remain = j->j_line->cl_runfreq;\n","            if (j->j_line->cl_remain > 0)\n                j->j_line->cl_remain = j->j_line->cl_runfreq;\n")]),
 (['P12'],'bad','hasrun not set for lavg',[(D,"            set_hasrun(j->j_line->cl_option);\n        }\n\n        if (is_runonce","            if (!is_lavg(j->j_line->cl_option))\n                set_hasrun(j->j_line->cl_option);\n        }\n\n        if (is_runonce")]),
 (['P12'],'bad','serial before lavg',[(D,"            if (is_lavg(j->j_line->cl_option))\n                add_lavg_job(j->j_line, -1);\n            else if (is_serial(j->j_line->cl_option))\n                add_serial_job(j->j_line, -1);","            if (is_serial(j->j_line->cl_option))\n                add_serial_job(j->j_line, -1);\n            else if (is_lavg(j->j_line->cl_option))\n                add_lavg_job(j->j_line, -1);")]),
 (['P12'],'bad','due strictly',[(D,"(j = queue_base) && j->j_line->cl_nextexe <= now","(j = queue_base) && j->j_line->cl_nextexe < now")]),
 (['P12'],'bad','runonce rescheduled after first',[(D,"        if (is_runonce(j->j_line->cl_option) && is_hasrun(j->j_line->cl_option)) {\n            explain","        if (is_runonce(j->j_line->cl_option) && is_hasrun(j->j_line->cl_option) && j->j_line->cl_runfreq > 1) {\n            explain")]),
 (['P12'],'bad','resched before run',[(D,"            j->j_line->cl_remain = j->j_line->cl_runfreq;\n","            j->j_line->cl_remain = j->j_line->cl_runfreq;\n            if (is_strict(j->j_line->cl_option)) set_next_exe(j->j_line, STD, -1);\n")]),
 (['P12'],'good','for loop and helper',[(D,"void\ntest_jobs(void)","static void\nstart_job(cl_t *l)\n{\n    l->cl_remain = l->cl_runfreq;\n    set_hasrun(l->cl_option);\n    if (!is_lavg(l->cl_option)) {\n        if (!is_serial(l->cl_option))\n            run_normal_job(l, -1);\n        else\n            add_serial_job(l, -1);\n        return;\n    }\n    add_lavg_job(l, -1);\n}\n\nvoid\ntest_jobs(void)"),
   (D,"            j->j_line->cl_remain = j->j_line->cl_runfreq;\n\n            if (is_lavg(j->j_line->cl_option))\n                add_lavg_job(j->j_line, -1);\n            else if (is_serial(j->j_line->cl_option))\n                add_serial_job(j->j_line, -1);\n            else\n                run_normal_job(j->j_line, -1);\n\n            set_hasrun(j->j_line->cl_option);\n","            start_job(j->j_line);\n")]),
 (['P13'],'bad','exesev wraps',[(D,"is_exe_sev(line->cl_option) && line->cl_numexe < UCHAR_MAX)","is_exe_sev(line->cl_option))")]),
 (['P13'],'bad','serial several inverted',[(D,"        (!is_serial_sev(line->cl_option) && line->cl_numexe > 0)) {","        (is_serial_sev(line->cl_option) && line->cl_numexe > 0)) {")]),
 (['P13'],'bad','lavg uses serial_sev',[(D,"        (!is_lavg_sev(line->cl_option) && line->cl_numexe > 0)) {","        (!is_serial_sev(line->cl_option) && line->cl_numexe > 0)) {")]),
 (['P13'],'bad','queue bound',[(D,"        if (serial_num >= serial_queue_max) {","        if (serial_num > serial_queue_max) {")]),
 (['P13'],'bad','full not reported',[(D,"                mail_notrun(line, QUEUE_FULL, NULL);\n            return;\n        }\n        else {","                debug(\"full\");\n            return;\n        }\n        else {")]),
 (['P13'],'bad','run_if_late not cleared',[(D,"            lavg_entry->l_until = end_of_cur_int;\n            clear_run_if_late(line->cl_option);\n","            lavg_entry->l_until = end_of_cur_int;\n")]),
 (['P13'],'bad','strict ignores until',[(D,"        if ((line->cl_until > 0) && (line->cl_until + now < end_of_cur_int))","        if ((line->cl_until > 0) && (line->cl_until < end_of_cur_int))")]),
 (['P13'],'good','guard helper',[(D,"void\nadd_serial_job(cl_t *line, int info_fd)","static int\nbusy(int several, int n)\n{\n    if (several)\n        return n >= UCHAR_MAX;\n    return n != 0;\n}\n\nvoid\nadd_serial_job(cl_t *line, int info_fd)"),(D,"    if ((is_serial_sev(line->cl_option) && line->cl_numexe >= UCHAR_MAX) ||\n        (!is_serial_sev(line->cl_option) && line->cl_numexe > 0)) {","    if (busy(is_serial_sev(line->cl_option), line->cl_numexe)) {")]),
]
