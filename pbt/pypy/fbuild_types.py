try:
    from fbuild.path import Path
    from fbuild.record import Record
except ImportError:
    # The driver has no fbuild: paths are plain strings there.
    class Path(str):
        pass

    class Record(dict):
        pass


def other(v, enc):
    d = getattr(v, '__dict__', None)
    if d is not None and type(v).__module__ in ('fbproj', 'valproj'):
        return ['O', type(v).__name__] + sorted(
            ([k, enc(x)] for k, x in d.items() if k != 'ctx'), key=repr)
    return None
