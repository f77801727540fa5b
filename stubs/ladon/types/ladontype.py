class LadonType(object):
    """Fields without a value read as None, as they do on a request or response object that was not given them."""

    def __init__(self, prime_dict=None, *a, **kw):
        for cls in reversed(type(self).__mro__):
            for name, spec in vars(cls).items():
                if name.startswith('_') or callable(spec) and not isinstance(spec, type):
                    continue
                setattr(self, name, None)
        for k, v in (prime_dict or {}).items():
            setattr(self, k, v)
