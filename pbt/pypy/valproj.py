"""Persistent classes for generated values; generated functions are added from outside."""
import fbuild.db
from fbuild.record import Record  # noqa

SERIAL = 0
RUNS = []


def ran(name, **args):
    global SERIAL
    SERIAL += 1
    RUNS.append(name)
    return SERIAL


class A(fbuild.db.PersistentObject):
    def __init__(self, ctx, x=None):
        super().__init__(ctx)
        ran(type(self).__name__)
        self.x = x

    @fbuild.db.cachemethod
    def m(self, v, w=7):
        return [ran(type(self).__name__ + '.m'), self, v, w]

    @fbuild.db.cacheproperty
    def p(self):
        return (ran(type(self).__name__ + '.p'), self)


class B(A):
    pass


class C(A):
    def __init__(self, ctx, x, y=None):
        super().__init__(ctx, x)
        if y is not None:
            self.y = y


class E(fbuild.db.PersistentObject):
    def __init__(self, ctx, *items, **opts):
        super().__init__(ctx)
        ran('E')
        self.items = items
        for k, v in opts.items():
            setattr(self, k, v)

    @fbuild.db.cachemethod
    def m(self, *rest, w=7, **opts):
        return {'serial': ran('E.m'), 'self': self, 'rest': rest, 'w': w, 'opts': opts}

    @fbuild.db.cacheproperty
    def p(self):
        return Record(serial=ran('E.p'), me=self)
