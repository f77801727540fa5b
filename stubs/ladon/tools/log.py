CALLS = []


def set_loglevel(n): CALLS.append(('level', n))
def set_logfile(n): CALLS.append(('file', n))
def set_log_backup_count(n): CALLS.append(('count', n))
def set_log_maxsize(n): CALLS.append(('size', n))
