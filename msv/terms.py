"""Value terms of the abstract domain.

Every abstract value is either a Python int (a known scalar) or an interned,
immutable term T.  Interning makes equality identity, so comparing and joining
states is cheap and terms can be shared freely.
"""
import itertools

_tab = {}
_ids = itertools.count(1)


class T:
    __slots__ = ('op', 'a', 'ty', 'id', 'h', 'x')

    def __hash__(self):
        return self.id


    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < (o.id if isinstance(o, T) else 0)


def mk(op, *a, ty=None):
    key = (op, a, ty)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.ty = ty
        t.id = next(_ids)
        t.x = None
        _tab[key] = t
    return t


def isT(v, op=None):
    return isinstance(v, T) and (op is None or v.op == op)


_SHOWMAX = 7


def show(v, d=0):
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (str, bytes)):
        return repr(v)
    if isinstance(v, tuple):
        return '(' + ','.join(show(x, d + 1) for x in v[:24]) + (',..' if len(v) > 24 else '') + ')'
    if not isinstance(v, T):
        return str(v)
    if d > _SHOWMAX:
        return v.op + '(..)'
    if v.op == 'seq':
        ps = []
        for s in v.a:
            if s[0] == 'e':
                if all(isinstance(x, int) and 0 <= x < 256 for x in s[1]) and s[1]:
                    ps.append(repr(bytes(s[1])) if len(s[1]) <= 40 else repr(bytes(s[1][:24])) + '..%d' % len(s[1]))
                else:
                    ps.append('[' + ','.join(show(x, d + 1) for x in s[1][:6]) + (',..%d' % len(s[1]) if len(s[1]) > 6 else '') + ']')
            elif s[0] == 'o':
                ps.append('%s[%s..%s]' % (show(s[1], d + 1), show(s[2], d + 1), show(s[3], d + 1)))
            else:
                ps.append('%s*%s' % (show(s[1], d + 1), show(s[2], d + 1)))
        return '<' + ' ++ '.join(ps) + '>'
    if v.op == 'lin':
        return '(' + ' + '.join(('%d*' % c if c != 1 else '') + show(t, d + 1) for t, c in v.a[0]) + (' + %d' % v.a[1] if v.a[1] else '') + ')'
    if v.op == 'sym':
        return '$' + '.'.join(str(x) for x in v.a)
    return v.op + '(' + ','.join(show(x, d + 1) for x in v.a) + ')'


# ---------------------------------------------------------------- linear ints
def lin_parts(v):
    """-> (dict atom->coef, const)"""
    if isinstance(v, int):
        return {}, v
    if v.op == 'lin':
        return dict(v.a[0]), v.a[1]
    return {v: 1}, 0


def lin_make(d, c):
    d = [(t, k) for t, k in d.items() if k != 0]
    if not d:
        return c
    if len(d) == 1 and d[0][1] == 1 and c == 0:
        return d[0][0]
    d.sort(key=lambda p: p[0].id)
    return mk('lin', tuple(d), c)


def ladd(a, b, kb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + kb * b
    da, ca = lin_parts(a)
    db, cb = lin_parts(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + kb * k
    return lin_make(da, ca + kb * cb)


def lsub(a, b):
    return ladd(a, b, -1)


def lmul(a, k):
    d, c = lin_parts(a)
    return lin_make({t: k * v for t, v in d.items()}, c * k)


# ---------------------------------------------------------------- sequences
EMPTY = mk('seq')


def seqlen(s):
    if s.op != 'seq':
        return mk('len', s)
    n = 0
    for g in s.a:
        n = ladd(n, seglen(g))
    return n


def seglen(g):
    if g[0] == 'e':
        return len(g[1])
    if g[0] == 'o':
        return lsub(g[3], g[2])
    return g[2]


def base_len(b):
    """length of an opaque base sequence"""
    if b.op == 'base':
        return b.a[1]
    if b.op in FIXED_LEN:
        return FIXED_LEN[b.op](b)
    return mk('len', b)


FIXED_LEN = {
    'sha512': lambda b: 64,
    'blake2b': lambda b: b.a[0],
    'scred': lambda b: 32,
    'muladd': lambda b: 32,
    'enc': lambda b: 32,
}


def at(base, i):
    if isinstance(i, int) and is_view(base):
        e = elements(base.a[0].a[0])
        if e is not None and 0 <= i < len(e):
            return e[i]
    return mk('at', base, i)


def is_view(b):
    """an opaque base standing for a composite sequence indexed at an unknown place"""
    return isinstance(b, T) and b.op == 'base' and isinstance(b.a[0], T) and b.a[0].op == 'view'


def mkseq(segs):
    """build a normalised sequence from segments"""
    out = []
    for g in segs:
        if g[0] == 'e':
            if not g[1]:
                continue
            # coalesce consecutive at(base,i) runs of concrete index into 'o' pieces
            els = g[1]
            i = 0
            buf = []
            while i < len(els):
                x = els[i]
                if isinstance(x, T) and x.op == 'at' and len(x.a) == 2:
                    j = i + 1
                    while j < len(els) and isinstance(els[j], T) and els[j].op == 'at' and els[j].a[0] is x.a[0] \
                            and els[j].a[1] == ladd(x.a[1], j - i):
                        j += 1
                    if buf:
                        _push(out, ('e', tuple(buf)))
                        buf = []
                    _push(out, ('o', x.a[0], x.a[1], ladd(x.a[1], j - i)))
                    i = j
                else:
                    buf.append(x)
                    i += 1
            if buf:
                _push(out, ('e', tuple(buf)))
        elif g[0] == 'o':
            if g[2] == g[3] and (isinstance(g[2], int) == isinstance(g[3], int)):
                continue
            if is_view(g[1]) and g[2] == 0 and (g[3] is g[1].a[1] or g[3] == g[1].a[1]):
                for h in g[1].a[0].a[0].a:
                    _push(out, h)
                continue
            _push(out, g)
        else:
            if isinstance(g[2], int):
                if g[2] > 0:
                    if g[2] <= 100000:
                        _push(out, ('e', (g[1],) * g[2]))
                    else:
                        _push(out, g)
            else:
                _push(out, g)
    return mk('seq', *out)


def _push(out, g):
    if out:
        p = out[-1]
        if p[0] == 'e' and g[0] == 'e':
            out[-1] = ('e', p[1] + g[1])
            return
        if p[0] == 'o' and g[0] == 'o' and p[1] is g[1] and p[3] == g[2]:
            out[-1] = ('o', p[1], p[2], g[3])
            return
    out.append(g)


def sq_elems(els):
    return mkseq([('e', tuple(els))])


def sq_bytes(b):
    return mkseq([('e', tuple(b))])


def sq_base(b):
    return mkseq([('o', b, 0, base_len(b))])


def concat(*ss):
    segs = []
    for s in ss:
        segs.extend(s.a)
    return mkseq(segs)


def elements(s):
    """explicit element list if the length is concrete, else None"""
    out = []
    for g in s.a:
        if g[0] == 'e':
            out.extend(g[1])
        elif g[0] == 'o':
            if isinstance(g[2], int) and isinstance(g[3], int):
                if g[3] - g[2] > 70000:
                    return None
                out.extend(at(g[1], i) for i in range(g[2], g[3]))
            else:
                n = lsub(g[3], g[2])
                if isinstance(n, int) and n <= 70000:
                    out.extend(at(g[1], ladd(g[2], i)) for i in range(n))
                else:
                    return None
        else:
            return None
    return out


def const_bytes(s):
    """bytes if the sequence is fully constant"""
    out = []
    for g in s.a:
        if g[0] != 'e' or not all(isinstance(x, int) and 0 <= x < 256 for x in g[1]):
            return None
        out.extend(g[1])
    return bytes(out)


def subterms(v, seen=None):
    """all terms inside a value"""
    seen = set() if seen is None else seen
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def substitute(v, m, memo=None):
    """replace terms by the mapping m (dict T->value), rebuilding normal forms"""
    memo = {} if memo is None else memo
    if isinstance(v, T):
        if v in m:
            return m[v]
        if v in memo:
            return memo[v]
        if v.op == 'seq':
            segs = []
            for g in v.a:
                segs.append(tuple(substitute(x, m, memo) if not isinstance(x, str) else x for x in g))
            r = mkseq(segs)
        elif v.op == 'lin':
            r = v.a[1]
            for t, c in v.a[0]:
                r = ladd(r, substitute(t, m, memo), c)
        else:
            na = tuple(substitute(x, m, memo) for x in v.a)
            r = v if na == v.a else mk(v.op, *na, ty=v.ty)
        memo[v] = r
        return r
    if isinstance(v, tuple):
        return tuple(substitute(x, m, memo) for x in v)
    return v
