"""Stand-in for the Ladon web service framework, which is not installed here: services are called directly."""


def ladonize(*def_args, **def_kw):
    def decorate(f):
        return f
    return decorate
