"""Stand-in for the web layer: records what it is told to serve."""
APPS = []


class LadonWSGIApplication(object):
    def __init__(self, service_list, path_list=None, catalog_name=None, catalog_desc=None, logging=0, **kw):
        self.services, self.path = list(service_list), path_list
        APPS.append(self)

    def __call__(self, environ, start_response):
        raise NotImplementedError
