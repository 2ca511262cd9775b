L='log.c'
CASES=[
 (['P30'],'bad','too few arguments',[('fcronsighup.c','error_e("Could not remove %s", sigfile);','error_e("Could not remove %s");')]),
 (['P30'],'bad','integer for string',[('fcronsighup.c','error_e("Could not remove %s", sigfile);','error_e("Could not remove %s", errno);')]),
 (['P30'],'bad','int for long',[('fcronsighup.c','error_e("Could not remove %s", sigfile);','error_e("Could not remove %ld", errno);')]),
 (['P30'],'bad','variable format',[('fcronsighup.c','error_e("Could not remove %s", sigfile);','error_e(sigfile);')]),
 (['P30'],'bad','log string as format',[(L,'syslog(priority, "%s", msg);','syslog(priority, msg);')]),
 (['P30'],'bad','one byte short',[(L,'calloc(1, MAX_MSG + 1)','calloc(1, MAX_MSG)')]),
 (['P30'],'bad','overflow by two',[(L,'(size_to_cat > 2) ? size_to_cat - 2 : 0','size_to_cat')]),
 (['P30'],'bad','negative size',[(L,'((MAX_MSG - len) > 0) ? (MAX_MSG - len) : 0','MAX_MSG - len')]),
 (['P30'],'good','helper with a format',[('fcronsighup.c','error_e("Could not remove %s", sigfile);','rm_failed("Could not remove %s");'),('fcronsighup.c','void\nsig_daemon(void)\n','static void\nrm_failed(char *f)\n{\n    error_e(f, "x");\n}\n\nvoid\nsig_daemon(void)\n')]),
 (['P30'],'good','chosen format',[('fcronsighup.c','error_e("Could not remove %s", sigfile);','error_e(fd ? "Could not remove %s" : "cannot remove %s", sigfile);')]),
 (['P30'],'good','size in variable',[(L,'calloc(1, MAX_MSG + 1)','malloc(MAX_MSG + 8)'),(L,'vsnprintf(msg, MAX_MSG + 1, fmt','vsnprintf(msg, MAX_MSG + 3, fmt')]),
 (['P30'],'good','snprintf tail',[(L,'strcpy(msg + (MAX_MSG - 1) - sizeof(truncated), truncated);','memcpy(msg + (MAX_MSG - 1) - sizeof(truncated), truncated, sizeof(truncated));')]),
]
