D = 'database.c'; P = ['P39']
CASES = [
 (P, 'bad', 'search accepts day after the month', [(D, 'while (i > max || ((bit_test(line->cl_days, i) == 0) &&\n                               (bit_test(line->cl_dow, j) == 0))) {', 'while ((bit_test(line->cl_days, i) == 0) &&\n                   (bit_test(line->cl_dow, j) == 0)) {')]),
 (P, 'bad', 'leap years', [(D, 'if (is_leap_year(year))', 'if (year % 4 == 1)')]),
 (P, 'bad', 'months from august', [(D, '    else if (mon <= 6)', '    else if (mon <= 7)')]),
 (P, 'bad', 'weekday anchor', [(D, 'date->tm_wday = (nod % 7) + 6;', 'date->tm_wday = (nod % 7) + 5;')]),
 (P, 'bad', 'minutes kept after hour change', [(D, '        if (ftime.tm_hour != i) {\n            ftime.tm_hour = i;\n            ftime.tm_min = 0;', '        if (ftime.tm_hour != i) {\n            ftime.tm_hour = i;')]),
 (P, 'bad', 'hour kept after weekday', [(D, '                ftime.tm_mday++;\n                ftime.tm_hour = 0;\n                ftime.tm_min = 0;\n                goto setDay;', '                ftime.tm_mday++;\n                ftime.tm_min = 0;\n                goto setDay;')]),
 (P, 'bad', 'weekly on Sunday', [(D, '(ftime->tm_wday == 0) ? 1 : 8 - ftime->tm_wday;', '8 - ftime->tm_wday;')]),
 (P, 'bad', 'midweekly', [(D, '(ftime->tm_wday >= 4) ? 11 - ftime->tm_wday', '(ftime->tm_wday > 4) ? 11 - ftime->tm_wday')]),
 (P, 'bad', 'nightly', [(D, 'if (ftime->tm_hour >= 12)\n                    ftime->tm_mday++;', 'if (ftime->tm_hour > 12)\n                    ftime->tm_mday++;')]),
 (P, 'bad', 'overflow of the hour of a period', [(D, '    if (ftime->tm_hour >= 24) {\n        ftime->tm_hour = 0;\n        ftime->tm_mday++;\n    }\n    /* the month', '    if (ftime->tm_hour > 24) {\n        ftime->tm_hour = 0;\n        ftime->tm_mday++;\n    }\n    /* the month')]),
 (P, 'bad', 'dayor taken as dayand', [(D, '        if (is_dayand(line->cl_option)) {\n            for (i', '        if (is_dayand(line->cl_option) || is_dayor(line->cl_option)) {\n            for (i')]),
 (P, 'bad', 'move over the day of week', [(D, '                if (ignore_days && ignore_hrs && ignore_mins && ignore_dow)', '                if (ignore_hrs && ignore_mins)')]),
 (P, 'good', 'table of month lengths', [(D, '    else if (mon <= 6)\n        if (mon % 2 == 0)\n            return 31;\n        else\n            return 30;\n    else if (mon % 2 == 0)\n        return 30;\n    else\n        return 31;', '    else {\n        static const int t[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };\n        return t[mon % 12];\n    }')]),
 (P, 'good', 'while for for', [(D, '        for (i = ftime.tm_hour; (bit_test(line->cl_hrs, i) == 0) && (i < 24);\n             i++) ;', '        i = ftime.tm_hour;\n        while (i < 24 && bit_test(line->cl_hrs, i) == 0)\n            i++;')]),
 (P, 'good', 'helper to restart the day', [(D, '                ftime.tm_mday++;\n                ftime.tm_hour = 0;\n                ftime.tm_min = 0;\n                goto setDay;', '                ftime.tm_mday++;\n                vp_day(&ftime);\n                goto setDay;'), (D, 'void\nset_wday(struct tm *date)', 'static void\nvp_day(struct tm *d)\n{\n    d->tm_hour = d->tm_min = 0;\n}\n\nvoid\nset_wday(struct tm *date)')]),
 (P, 'good', 'struct assignment of the date', [(D, '        memcpy(&ftime, ft, sizeof(struct tm));\n\n        /* creates a bug', '        ftime = *ft;\n\n        /* creates a bug')]),
 (P, 'good', 'localtime_r', [(D, '        ft = localtime(&basetime_tz);\n', '        ft = localtime_r(&basetime_tz, &ftime);\n')]),
]
