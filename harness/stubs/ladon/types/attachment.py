class attachment(object):
    def __init__(self, bufferobj=None, content_type=None, charset=None, headers=None):
        self.bufferobj = bufferobj

    def read(self, size=None):
        return self.bufferobj.read() if size is None else self.bufferobj.read(size)

    def seek(self, *a):
        return self.bufferobj.seek(*a)

    def close(self):
        return self.bufferobj.close()
