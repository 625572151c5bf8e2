"""Stand-in for the log of the web layer."""
SET = {}


def set_loglevel(level):
    SET['level'] = level


def set_logfile(path):
    SET['file'] = path


def set_log_backup_count(n):
    SET['backups'] = n


def set_log_maxsize(n):
    SET['size'] = n
