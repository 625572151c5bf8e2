"""Scripted client: every call is recorded and answered by the script of the running scenario."""
CALLS = []
REPLY = [None]


class Response(object):
    def __init__(self, status, response_dict):
        self.status, self.response_dict = status, response_dict


class JSONWSPClient(object):
    def __init__(self, description):
        CALLS.append(('open', description))
        self.description = description

    def __getattr__(self, method):
        if method.startswith('__'):
            raise AttributeError(method)

        def call(**kw):
            CALLS.append((method, self.description, kw))
            return REPLY[0](method, kw)
        return call
