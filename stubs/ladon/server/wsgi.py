class LadonWSGIApplication(object):
    MADE = []

    def __init__(self, service_list, path_list=None, catalog_name=None, catalog_desc=None, *a, **kw):
        self.service_list, self.path_list = service_list, path_list
        self.catalog_name, self.catalog_desc, self.kw = catalog_name, catalog_desc, kw
        LadonWSGIApplication.MADE.append(self)

    def __call__(self, environ, start_response):
        import json
        import os
        start_response('200 OK', [('Content-Type', 'application/json')])
        return [json.dumps([os.environ.get('RV_NONCE'), sorted(self.service_list), environ['REQUEST_METHOD'],
                            environ['PATH_INFO'], environ['wsgi.input'].read(int(environ.get('CONTENT_LENGTH') or 0)).decode('ascii')]).encode()]
