class attachment(object):
    def __init__(self, bufferobj, headers=None, streaming_size=None, charset=None):
        self.bufferobj = bufferobj
        self.headers = headers or {}

    def read(self, size=None):
        return self.bufferobj.read() if size is None else self.bufferobj.read(size)

    def seek(self, *a):
        return self.bufferobj.seek(*a)

    def tell(self):
        return self.bufferobj.tell()

    def close(self):
        return self.bufferobj.close()
