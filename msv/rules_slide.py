"""C31, recoding of a scalar into 256 signed digits: one trip of the recoding loop preserves the sum, for any bits and any position."""
import itertools
from .base import *
from .engine import Engine
from .rules_sign import byte_eval

TOP = 255


class NotThisShape(Exception):
    pass


def bit(k):
    return mk('sbit', k, ty='i8')


def digit(k):
    return mk('sdig', k, ty='i8')


def atoms(t, memo):
    """undecided bits in a value"""
    if not isT(t):
        return frozenset()
    r = memo.get(t)
    if r is None:
        if t.op == 'sbit':
            r = frozenset([t])
        else:
            r = frozenset()
            for x in t.a:
                r |= atoms_in(x, memo)
        memo[t] = r
    return r


def atoms_in(x, memo):
    if isT(x):
        return atoms(x, memo)
    r = frozenset()
    if isinstance(x, tuple):
        for y in x:
            if not isinstance(y, int):
                r |= atoms_in(y, memo)
    return r


class SlideEngine(Engine):
    def __init__(self, prog, scalar, positions):
        self.panics = []
        super().__init__(prog, primitives={}, hook=self.event, opts={'unrollall': True, 'join_at': 1 << 30, 'max_states': 1 << 30, 'max_backs': 1 << 30,
                                                                       'max_steps': 1 << 40})
        self.scalar = scalar
        self.positions = positions
        self.found = False
        self.memo = {}
        self.wrong = []
        self.trips = 0
        self.ends = 0

    def event(self, kind, st, data, site):
        if kind in ('panic', 'unchecked') and self.found:
            self.panics.append((kind, site))

    # ------------------------------------------------------------ branches on undecided bits
    def switch(self, fr, body, t, st, out):
        d = self.operand(st, fr, ['c'] + list(t[1][1:]) if t[1][0] == 'm' else t[1])
        un = sorted(atoms(d, self.memo), key=lambda x: x.a[0]) if isT(d) and self.found else ()
        if not un or len(un) > 3:
            return super().switch(fr, body, t, st, out)
        for vs in itertools.product((0, 1), repeat=len(un)):
            env = dict(zip(un, vs))
            dv = self.subst(d, env)
            if not isinstance(dv, int):
                raise NotThisShape('a branch on %s' % show(d)[:80])
            s = st.copy()
            for x, v in env.items():
                s.gh[('sbit', x.a[0])] = v
            for k, v in s.mem.items():
                if atoms(v, self.memo):
                    s.mem[k] = self.subst(v, env)
            for v, tg in t[2]:
                if v == dv:
                    out('goto', tg, s, None)
                    break
            else:
                out('goto', t[3], s, None)

    def subst(self, v, env):
        if not isT(v) or not any(x in env for x in atoms(v, self.memo)):
            return v
        if v in env:
            return env[v]
        if v.op == 'seq':
            return mkseq([('e', tuple(self.subst(x, env) for x in g[1])) if g[0] == 'e' else g for g in v.a])
        if v.op == 'agg':
            return mk('agg', *[self.subst(x, env) if isT(x) else x for x in v.a], ty=v.ty)
        if atoms(v, self.memo) <= set(env):
            r = byte_eval_all(v, env)
            if isinstance(r, int):
                return r
        return v

    # ------------------------------------------------------------ the loop
    def run_loop(self, fr, body, cfg, head, s0):
        if not self.found:
            k = self.array(s0)
            if k is not None:
                self.found = True
                return self.recode(fr, body, cfg, head, s0, k)
        return super().run_loop(fr, body, cfg, head, s0)

    def array(self, st):
        """the memory holding the 256 bits of the scalar, if it does"""
        for k, v in st.mem.items():
            e = elements(v) if isT(v, 'seq') and seqlen(v) == 256 else None
            if e is None or any(isinstance(x, int) for x in e):
                continue
            good = True
            for i, x in enumerate(e):
                ls = {y for y in subterms(x) if isT(y, 'at')}
                if len(ls) != 1:
                    good = False
                    break
                l, = ls
                if l.a[0] is not self.scalar or l.a[1] != i >> 3 or any(byte_eval(x, l, v) != v >> (i & 7) & 1 for v in range(256)):
                    good = False
                    break
            if good:
                return k
        return None

    def recode(self, fr, body, cfg, head, s0, key):
        loop = cfg.loops[head]
        self.prune(fr, body, cfg, head, s0)

        def trip(i, top, counters):
            st = s0.copy()
            for k, p in counters:
                st.mem[k] = put(st.mem[k], p, i + get(s0.mem[k], p))
            rest = [bit(k) for k in range(i, TOP)] + [0] if not top else [0] * (TOP - i) + [1]
            if i > TOP:
                rest = []
            st.mem[key] = mkseq([('e', tuple([digit(k) for k in range(i)] + rest))])
            start = st.copy()
            r = self.run_region(fr, body, cfg, loop, head, [st], head)
            return start, (self.merge_states(fr, body, cfg, head, r[0]),) + r[1:]
        start, (backs, ex, rt) = trip(0, 0, ())
        if not backs or ex or rt:
            raise NotThisShape('the first trip of the loop does not always reach a second one')
        counters = None
        for b in backs:
            ds = {}
            for k, v in start.mem.items():
                if k != key and k in b.mem:
                    for p, x, y in differ(v, b.mem[k], ()):
                        ds[k, p] = (x, y)
            if any(not (isinstance(x, int) and y == x + 1) for x, y in ds.values()) or not ds or counters not in (None, set(ds)):
                raise NotThisShape('the loop has no counter that goes up by one')
            counters = set(ds)
        for i in self.positions:
            for top in (0, 1):
                start, (backs, ex, rt) = trip(i, top, counters)
                self.trips += 1
                if not backs or ex or rt:
                    self.wrong.append('the loop may end at position %d' % i)
                    continue
                for b in backs:
                    self.ends += 1
                    for k, v in start.mem.items():
                        if k != key and k in b.mem and any((k, p) not in counters or y != x + 1 for p, x, y in differ(v, b.mem[k], ())):
                            raise NotThisShape('something else changes in a trip')
                    w = self.compare_sums(i, top, b, b.mem.get(key))
                    if w:
                        self.wrong.append('position %d: %s' % (i, w))
                if self.wrong:
                    break
            if self.wrong:
                break
        start, (backs, ex, rt) = trip(256, 0, counters)
        if backs:
            self.wrong.append('the loop goes on after the last position')
        return ex, rt

    def compare_sums(self, i, top, st, v):
        e = elements(v) if isT(v, 'seq') else None
        if e is None or len(e) != 256:
            return 'the digits are lost'
        if any(e[k] is not digit(k) for k in range(i)):
            return 'a digit that was finished changes'
        d = e[i]
        if isT(d) and d.op == 'sbit' and d.a[0] == i:
            pass          # an untouched bit: 0 or 1
        elif not (isinstance(d, int) and (d == 0 or d % 2 and -15 <= d <= 15)):
            return 'a digit is neither zero nor odd between -15 and 15: %s' % show(d)[:60]
        diff = 0
        for k in range(i, 256):
            old = (1 if top else 0) if k == TOP else 0 if top else st.gh.get(('sbit', k), bit(k))
            if e[k] is old:
                continue
            if not (isinstance(e[k], int) and isinstance(old, int)):
                return 'position %d is neither unchanged nor known: %s' % (k, show(e[k])[:60])
            if k > i and e[k] not in (0, 1):
                return 'position %d is no longer a bit' % k
            diff += (e[k] - old) << k
        if diff:
            return 'the digits and remaining bits sum to something else (off by %d)' % diff
        if i < TOP and e[TOP] != 0 and not (e[TOP] == 1 and all(x == 0 and isinstance(x, int) for x in e[i + 1:TOP])):
            return 'the remaining bits may exceed 2^255'
        return None


def byte_eval_all(t, env):
    from .rules_curve import ev
    return ev(t, dict(env))


def differ(x, y, path):
    """places where two values differ"""
    if x is y or isinstance(x, int) and x == y:
        return
    if isT(x) and isT(y) and x.op == y.op and x.ty == y.ty and len(x.a) == len(y.a):
        for i, (p, q) in enumerate(zip(x.a, y.a)):
            yield from differ(p, q, path + (i,))
    else:
        yield path, x, y


def get(v, p):
    for i in p:
        v = v.a[i]
    return v


def put(v, p, x):
    if not p:
        return x
    a = list(v.a)
    a[p[0]] = put(a[p[0]], p[1:], x)
    return mk(v.op, *a, ty=v.ty)


def check_recoding(ctx, body, name):
    """returns a note on what was covered"""
    base = mk('base', mk('scalar', 'recoded'), 32)
    s = mkseq([('o', base, 0, 32)])
    positions = tuple(range(0, 240, 8)) + tuple(range(240, 256)) if ctx.tier == 'thorough' else (0, 240) + tuple(range(248, 256))
    eng = SlideEngine(ctx.prog, base, positions)
    try:
        outs = eng.run_body(State(), body, [mk('ref', ('const', s), ())], mk('fr', 'slide'))
        if not eng.found:
            raise NotThisShape('no loop starts from the 256 bits of the scalar')
    except NotThisShape as x:
        return '%s: recoding taken as given, the loop has another shape (%s)' % (name, x)
    ctx.ob(not eng.panics, name, 'never panics', str(eng.panics[:1]))
    ctx.ob(not eng.wrong, name, 'each trip leaves a digit that is 0 or odd in -15..15 and preserves the sum of digits and remaining bits', '; '.join(eng.wrong[:1]))
    want = mkseq([('e', tuple(digit(k) for k in range(256)))])
    ctx.ob(len(outs) == 1 and outs[0][1] is want, name, 'the result are the digits', show(outs[0][1])[:100] if outs else 'no result')
    return '%s: %d trips of the recoding loop (%d positions, %d ends of paths)' % (name, eng.trips, len(positions), eng.ends)
