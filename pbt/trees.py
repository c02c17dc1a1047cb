"""Generated directory trees."""
import os

from hypothesis import strategies as st

NAMES = ['a', 'b', 'ab', 'a.c', 'b.c', 'aa', 'A', '.a', '.b.c', 'c', 'bb.h', '.ab']
ODD = ['a[b', 'a{b', '{a,b}', '*', '**', 'a*', '?', '[a]', 'a b', 'x,y', '}', ']', '!a', '~', 'a\nb', '\xe9', '#',
       '...', '.*', '$a', "a'b", 'a\\b', '-a', '%s', '{', '[']


@st.composite
def trees(draw, names=None, depth=3, links=True, width=4):
    """A list of [path, kind, data]: kind d, f (data: content), l (data: link target)."""
    names = names or st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), st.sampled_from(NAMES),
                               st.sampled_from(ODD))
    out = []
    dirs = [('', 0)]
    files = []
    for _ in range(draw(st.integers(0, 3 * width))):
        d, n = draw(st.sampled_from(dirs))
        name = draw(names)
        p = d + name
        if any(e[0] == p for e in out):
            continue
        k = draw(st.integers(0, 9))
        if k <= 3 and n < depth:
            out.append([p, 'd', None])
            dirs.append((p + '/', n + 1))
        elif k == 4 and links:
            # links point to what exists at this moment and never to a directory above
            t = draw(st.sampled_from(['gone'] + files + [
                e[0] for e in out if e[1] == 'd' and not p.startswith(e[0] + '/')]))
            if any(e[1] == 'd' and e[0] == t for e in out):
                # nothing is added to it any more, so there are no loops
                dirs = [x for x in dirs if not (x[0].startswith(t + '/'))] or [('', 0)]
            out.append([p, 'l', os.path.relpath(t, d or '.')])
        else:
            out.append([p, 'f', draw(st.sampled_from(['', 'x', 'y']))])
            files.append(p)
    return out


def make(root, tree):
    for p, kind, data in tree:
        full = os.path.join(root, p)
        if kind == 'd':
            os.makedirs(full, exist_ok=True)
        elif kind == 'l':
            os.symlink(data, full)
        else:
            with open(full, 'w', newline='') as f:
                f.write(data)


def everything(root, rel=''):
    """[components, is directory] of every path below root, through links to directories."""
    out = []
    for n in sorted(os.listdir(os.path.join(root, rel) if rel else root)):
        p = os.path.join(rel, n)
        isdir = os.path.isdir(os.path.join(root, p))
        out.append([p.split('/'), isdir])
        if isdir:
            out += everything(root, p)
    return out
