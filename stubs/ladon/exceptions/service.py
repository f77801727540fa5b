class ServiceFault(Exception):
    def __init__(self, faultcode, faultstring, detail=None, lineno=None):
        self.faultcode, self.faultstring, self.detail, self.lineno = faultcode, faultstring, detail, lineno
        super().__init__(faultstring)


class ServerFault(ServiceFault):
    def __init__(self, faultstring, detail=None, lineno=None):
        super().__init__('service', faultstring, detail, lineno)


class ClientFault(ServiceFault):
    def __init__(self, faultstring, detail=None, lineno=None):
        super().__init__('client', faultstring, detail, lineno)
