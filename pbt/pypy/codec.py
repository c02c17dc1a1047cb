"""Typed JSON encoding of the values that cross between driver and worker."""


class Tok:
    pass


def enc(v):
    import fbuild_types as ft
    if v is None or isinstance(v, (bool,)):
        return v
    t = type(v)
    if t is int or t is float:
        return v
    if t is str:
        return v
    if t is list:
        return ['L'] + [enc(x) for x in v]
    if t is tuple:
        return ['T'] + [enc(x) for x in v]
    if t is dict:
        return ['D'] + sorted(([enc(k), enc(x)] for k, x in v.items()), key=repr)
    if t is set:
        return ['S'] + sorted((enc(x) for x in v), key=repr)
    if t is frozenset:
        return ['F'] + sorted((enc(x) for x in v), key=repr)
    if t is bytes:
        return ['B', v.hex()]
    if ft.Path is not None and t is ft.Path:
        return ['P', str(v)]
    if ft.Record is not None and t is ft.Record:
        return ['R'] + sorted(([enc(k), enc(x)] for k, x in v.items()), key=repr)
    r = ft.other(v, enc)
    if r is not None:
        return r
    return ['?', t.__name__, repr(v)]


def dec(v):
    import fbuild_types as ft
    if not isinstance(v, list):
        return v
    tag = v[0]
    if tag == 'L':
        return [dec(x) for x in v[1:]]
    if tag == 'T':
        return tuple(dec(x) for x in v[1:])
    if tag == 'D':
        return {dec(k): dec(x) for k, x in v[1:]}
    if tag == 'S':
        return {dec(x) for x in v[1:]}
    if tag == 'F':
        return frozenset(dec(x) for x in v[1:])
    if tag == 'B':
        return bytes.fromhex(v[1])
    if tag == 'P':
        return ft.Path(v[1])
    if tag == 'R':
        return ft.Record({dec(k): dec(x) for k, x in v[1:]})
    raise ValueError(v)
