import functools


def ladonize(*def_args, **def_kw):
    def deco(fn):
        @functools.wraps(fn)
        def call(*args, **kw):
            return fn(*args, **kw)
        call.ladon_args = def_args
        call.ladon_rtype = def_kw.get('rtype')
        return call
    return deco
