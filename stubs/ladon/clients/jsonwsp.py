class JSONWSPClient(object):
    """TRANSPORT(url, method, kwargs) answers the calls; LOG records the clients made."""
    TRANSPORT = None
    MADE = []
    REFUSE = ()         # descriptions that cannot be fetched

    def __init__(self, description=None, url=None, *a, **kw):
        if description in JSONWSPClient.REFUSE:
            raise OSError('cannot reach %s' % description)
        self.description = description
        JSONWSPClient.MADE.append(description)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda **kw: JSONWSPClient.TRANSPORT(self.description, name, kw)
