class ServiceFault(Exception):
    def __init__(self, faultstring, detail=None, mod=None, lineno=None, *rest):
        Exception.__init__(self, faultstring)
        self.faultstring, self.detail = faultstring, detail


class ClientFault(ServiceFault):
    pass


class ServerFault(ServiceFault):
    pass
