"""Reference matcher for file name patterns, and generators of patterns and names."""
from hypothesis import strategies as st


def parse(pat):
    """A list of items: ('c', char) ('*',) ('?',) ('s', negated, [(lo, hi)]) ('alt', [list, ...])."""
    # stack of [alternatives so far]; the last list of the last alternative is being filled
    stack = [[[]]]
    i, n = 0, len(pat)
    while i < n:
        c = pat[i]
        i += 1
        cur = stack[-1][-1]
        if c == '*':
            cur.append(('*',))
        elif c == '?':
            cur.append(('?',))
        elif c == '[':
            j = i
            if pat[j:j + 1] == '!':
                j += 1
            j = pat.find(']', j + 1)
            if j < 0:
                cur.append(('c', '['))
            else:
                body = pat[i:j]
                i = j + 1
                neg = body.startswith('!')
                cur.append(('s', neg, ranges(body[1:] if neg else body)))
        elif c == '{':
            stack.append([[]])
        elif c == ',' and len(stack) > 1:
            stack[-1].append([])
        elif c == '}' and len(stack) > 1:
            alts = stack.pop()
            stack[-1][-1].append(('alt', alts))
        else:
            cur.append(('c', c))
    while len(stack) > 1:
        alts = stack.pop()
        flat = [('c', '{')] + alts[0]
        for a in alts[1:]:
            flat += [('c', ',')] + a
        stack[-1][-1].extend(flat)
    return stack[0][0]


def ranges(body):
    out, i = [], 0
    while i < len(body):
        if i + 2 < len(body) and body[i + 1] == '-':
            out.append((body[i], body[i + 2]))
            i += 3
        else:
            out.append((body[i], body[i]))
            i += 1
    return out


def ends(items, s, starts):
    """All positions where a match of the items that begins at one of the starts can end."""
    cur = set(starts)
    for it in items:
        if not cur:
            break
        if it[0] == 'c':
            cur = {i + 1 for i in cur if s[i:i + 1] == it[1]}
        elif it[0] == '?':
            cur = {i + 1 for i in cur if i < len(s)}
        elif it[0] == '*':
            cur = set(range(min(cur), len(s) + 1))
        elif it[0] == 's':
            cur = {i + 1 for i in cur if i < len(s) and
                   any(lo <= s[i] <= hi for lo, hi in it[2]) != it[1]}
        else:
            nxt = set()
            for a in it[1]:
                nxt |= ends(a, s, cur)
            cur = nxt
    return cur


def match(name, pat):
    return len(name) in ends(parse(pat), name, {0})


def sample(items, draw, chars):
    """A name the items match, usually."""
    out = ''
    for it in items:
        if it[0] == 'c':
            out += it[1]
        elif it[0] == '?':
            out += draw(st.sampled_from(chars))
        elif it[0] == '*':
            out += draw(st.text(chars, max_size=3))
        elif it[0] == 's':
            if it[1]:
                out += draw(st.sampled_from(chars))
            else:
                lo, hi = draw(st.sampled_from(it[2])) if it[2] else ('a', 'a')
                c = chr(draw(st.integers(ord(lo), ord(hi)))) if lo <= hi else lo
                out += c
        else:
            out += sample(draw(st.sampled_from(it[1])), draw, chars)
    return out


PLAIN = 'abcz019.-_ '
SPECIAL = '*?[]{},!^$\\|()+&~\n\t"\'/#'
WIDE = '\xe9\xff'


@st.composite
def pieces(draw, depth=2, plain=PLAIN, extra=SPECIAL + WIDE, sets=True):
    k = draw(st.integers(0, 11))
    if k <= 3:
        return draw(st.text(plain, min_size=1, max_size=3))
    if k == 4:
        return draw(st.sampled_from(extra)) if extra else 'b'
    if k == 5:
        return '*'
    if k == 6:
        return '?'
    if k <= 8 and sets:
        body = ''
        for _ in range(draw(st.integers(1, 3))):
            a = draw(st.sampled_from(plain + extra.replace('/', '')))
            if draw(st.booleans()):
                body += a + '-' + draw(st.sampled_from(plain + extra.replace('/', '')))
            else:
                body += a
        return '[' + draw(st.sampled_from(['', '!', '', ']', '!]', '-', '^'])) + body + ']'
    if depth > 0:
        alts = draw(st.lists(patterns(depth - 1, plain, extra, sets), min_size=1, max_size=3))
        return '{' + ','.join(alts) + draw(st.sampled_from(['}', '}', '}', '}', ',}', '']))
    return 'a'


def patterns(depth=2, plain=PLAIN, extra=SPECIAL + WIDE, sets=True):
    return st.lists(pieces(depth, plain, extra, sets), max_size=4).map(''.join)
