class LadonType(object):
    pass
