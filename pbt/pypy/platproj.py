"""Functions and builders with platform options (C20)."""
import fbuild.db
from fbuild.builders.platform import auto_platform_options

RUNS = []


class Tool(fbuild.db.PersistentObject):
    def __init__(self, ctx):
        super().__init__(ctx)

    @fbuild.db.cachemethod
    @auto_platform_options()
    def make(self, src, **kw):
        RUNS.append(src)
        return [src, kw]

    @fbuild.db.cachemethod
    @auto_platform_options(pass_platform=True)
    def passed(self, src, **kw):
        RUNS.append(src)
        return [src, {k: v for k, v in kw.items() if k != 'platform'}]

    @auto_platform_options()
    def plain(self, src, **kw):
        RUNS.append(src)
        return [src, kw]


@fbuild.db.caches
@auto_platform_options()
def function(ctx, src, **kw):
    RUNS.append(src)
    return [src, kw]
