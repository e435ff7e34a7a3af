"""C29: the hash functions compute SHA-512 and BLAKE2b, however the input is cut into pieces."""
import time
from .base import *
from .base import Gap, canon, cref
from .callgraph import CallGraph, callee_infos
from .models import LOCAL_PRIMS
from .engine import Engine, State, WID
from .words import Words
from . import hashref as R

MSG = mk('base', mk('msg'), 1 << 22)
OUTROOT = mk('digest')
HROOT = mk('hasher')


def consts_of(body, out):
    """integer constants the body compares with, branches on or passes to a call that does not mix words"""
    def ints(x):
        if isinstance(x, (list, tuple)):
            if len(x) >= 3 and x[0] == 'k':
                leaf(x[2:])
                return
            for y in x:
                ints(y)

    def leaf(x):
        if isinstance(x, int) and not isinstance(x, bool):
            out.add(x)
        elif isinstance(x, (list, tuple)):
            for y in x:
                leaf(y)
    for bl in body.blocks:
        if bl is None:
            continue
        for s in bl['s']:
            if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne', 'Div', 'Rem'):
                ints(s[2][2:])
        t = bl['t']
        if t[0] == 'sw':
            leaf([x[0] for x in t[2] if isinstance(x, (list, tuple)) and x])
        elif t[0] == 'call':
            ci = []
            callee_infos(t[1], ci)
            if not any('rotate_' in (c.get('p') or '') or 'wrapping_' in (c.get('p') or '') for c in ci):
                ints(t[2])


class Summary:
    """effect of one call of a function on arguments of a known shape, as uninterpreted functions of what it reads"""

    def __init__(self, key, roots, ret, atoms):
        self.key = key
        self.roots = roots        # [(arg index, template)]
        self.ret = ret
        self.atoms = atoms        # atom term -> (arg index, path of element lookups)


class Hasher:
    """runs one of the two hash implementations on symbolic content of known length"""

    def __init__(self, ctx, kind, outlen=64):
        self.ctx = ctx
        self.kind = kind
        self.outlen = outlen
        self.prefix = 'Blake2b::' if kind == 'b' else 'Hash::'
        self.name = 'BLAKE2b' if kind == 'b' else 'SHA-512'
        self.prog = ctx.prog
        own = ('blake2b::', 'sha512::')
        self.base = {k: v for k, v in LOCAL_PRIMS.items() if not any(o in k for o in own)}
        self.fns = {m: self.find(m) for m in ('new', 'update', 'finalize')}
        self.local = {f['key'] for f in self.prog.fns}
        self.panics = []
        self.sums = {}
        self.nosum = set()
        self.used = set()
        self.abstracted = set()
        self.calls = 0
        self.outcache = {}
        self.stcache = {}
        prims = dict(self.base)
        for k in self.heavy():
            b = self.prog.bodies[k]
            prims[b.path] = self.summarised(b)
        self.full = self.engine(self.base)
        self.fast = self.engine(prims)

    def find(self, m):
        mod = 'blake2b' if self.kind == 'b' else 'sha512'
        fs = [f for f in self.ctx.roots.get(self.prefix + m, []) if mod in f['p']]
        if len(fs) != 1:
            raise Gap('%s%s is missing' % (self.prefix, m))
        return fs[0]

    def engine(self, prims):
        def hook(k, st, d, site):
            if k == 'panic':
                self.panics.append((d, site))
        return Engine(self.prog, primitives=prims, hook=hook, opts={'max_steps': 10 ** 9, 'unroll': 1 << 15, 'unrollall': 1})

    # ------------------------------------------------------------ block functions
    def reached(self):
        if not hasattr(self, '_reached'):
            cg = self.ctx.cg if hasattr(self.ctx, 'cg') else CallGraph(self.prog)
            self.ctx.cg = cg
            r = set()
            for f in self.fns.values():
                r |= set(cg.reach(f['key']))
            self._reached = {k for k in r if k in self.prog.bodies}
        return self._reached

    def heavy(self):
        """functions other than the entry points under which 64-bit words are mixed"""
        mix = set()
        for k in self.reached():
            b = self.prog.bodies[k]
            for bl in b.blocks:
                if bl is None:
                    continue
                for s in bl['s']:
                    if s[0] == '=' and s[2][0] == 'bin' and s[2][1] == 'BitXor':
                        mix.add(k)
                ci = []
                callee_infos(bl['t'], ci)
                if any('rotate_' in (c.get('p') or '') for c in ci):
                    mix.add(k)
        entry = {f['key'] for f in self.fns.values()}
        r = []
        for k in self.reached():
            b = self.prog.bodies[k]
            if k in entry or b.argc == 0 or k not in self.local:
                continue
            if any(self.sliced(b.locals[i + 1]) for i in range(b.argc)):
                continue        # one call may stand for several blocks
            if any(x in mix for x in self.ctx.cg.reach(k)):
                r.append(k)
        return r

    def sliced(self, ti):
        t = self.prog.types[ti]
        while t['k'] in ('ref', 'ptr'):
            t = self.prog.types[t['e']]
        return t['k'] in ('slice', 'str', 'param', 'dyn')

    def summarised(self, body):
        def prim(eng, st, ci, args, fr, dty):
            for level in (1, 2):
                r = self.apply(eng, st, body, args, level)
                if r is not None:
                    self.abstracted.add(canon(body.path))
                    return r
            return None
        return prim

    def general(self, eng, ti, v, name, level, atoms, getter):
        """a value of the same shape with the contents made arbitrary -> (value, shape) or None"""
        t = self.prog.types[ti] if ti is not None else {}
        if isinstance(v, T) and v.op == 'seq':
            e = t.get('e')
            n = seqlen(v)
            if not isinstance(n, int) or t.get('k') not in ('array', 'slice') or eng.scalar_name(e) is None:
                return None
            s = eng.sym_seq(name, n, e)
            for i, x in enumerate(elements(s)):
                x = eng.at_value(x)
                atoms[x] = (getter, i)
            return s, n
        sn = eng.scalar_name(ti) if ti is not None else None
        if sn:
            if level == 2 and isinstance(v, int):
                return v, v
            if sn == 'bool' and isinstance(v, int):
                return v, ('bool', v)
            x = eng.make_value(ti, name)
            atoms[x] = (getter, None)
            return x, sn
        if isinstance(v, T) and v.op == 'agg':
            if t.get('k') == 'tuple':
                fts = t['f']
            elif t.get('k') == 'adt' and t.get('ak') == 'struct' and t.get('v'):
                fts = [f[1] for f in t['v'][0]['f']]
            else:
                return None
            fs, sh = [], []
            if len(fts) != len(v.a) - 2:
                return None
            for i, (f, x) in enumerate(zip(fts, v.a[2:])):
                g = self.general(eng, f, x, mk('fld', name, 0, i), level, atoms, getter + (i,))
                if g is None:
                    return None
                fs.append(g[0])
                sh.append(g[1])
            return mk('agg', v.a[0], v.a[1], *fs), tuple(sh)
        return None

    def template(self, v, atoms, fr=None):
        if isinstance(v, int):
            return ('c', v)
        if v in atoms:
            return ('m', v)
        if v.op == 'seq':
            els = elements(v)
            if els is None:
                return None
            r = []
            for x in els:
                if isinstance(x, T) and x.op == 'at':
                    x = self.full.at_value(x)
                y = self.template(x, atoms)
                if y is None:
                    return None
                r.append(y)
            return ('s', tuple(r))
        if v.op == 'agg':
            r = [self.template(x, atoms) for x in v.a[2:]]
            return None if any(x is None for x in r) else ('a', v.a[0], v.a[1], tuple(r))
        if isinstance(v.ty, str) or v.op in ('lin', 'byteof', 'at'):
            sub = subterms(v)
            deps = sorted((x for x in sub if x in atoms), key=lambda x: x.id)
            if any(isinstance(x, T) and x.op in ('ref', 'phi', 'havoc', 'opaque', 'symadt') for x in sub):
                return None
            return ('u', v.ty if isinstance(v.ty, str) else 'u8' if v.op in ('byteof', 'at') else 'u64', tuple(deps), v)
        return None

    def summarise(self, key, body, eng, st, args, level):
        """analyse the body once for this shape; None when it does not act as one function of its inputs"""
        sub = self.full
        s0 = State()
        atoms = {}
        vals = []
        shapes = [body.key, level]
        roots = []
        for i, a in enumerate(args):
            ti = body.locals[i + 1]
            t = self.prog.types[ti]
            if isT(a, 'ref'):
                try:
                    v = eng.load(st, a)
                except Unsupported:
                    return None, None
                if not isinstance(v, (int, T)) or isT(v, 'ref') or t.get('k') != 'ref':
                    return None, None
                g = self.general(sub, t['e'], v, mk('gen', i), level, atoms, (i, '*'))
                if g is None:
                    return None, None
                root = mk('genroot', i)
                s0.mem[root] = g[0]
                vals.append(mk('ref', root, ()))
                if t.get('m'):
                    roots.append((i, root))
            else:
                g = self.general(sub, ti, a, mk('gen', i), level, atoms, (i,))
                if g is None:
                    return None, None
                vals.append(g[0])
            shapes.append(g[1])
        shapes = tuple(shapes)
        if shapes in self.sums:
            return shapes, self.sums[shapes]
        self.sums[shapes] = None
        before = len(self.panics)
        steps = sub.steps
        sub.max_steps = sub.steps + 3000000
        try:
            outs = sub.run_body(s0, body, vals, mk('gencall', body.key))
        except (Unsupported, Budget):
            outs = []
        sub.max_steps = 10 ** 9
        new = self.panics[before:]
        del self.panics[before:]
        if new or len(outs) != 1:
            return shapes, None
        s1, v = outs[0]
        ret = self.template(v, atoms)
        rs = [(i, self.template(s1.mem[r], atoms)) for i, r in roots]
        if ret is None or any(x is None for _, x in rs):
            return shapes, None
        self.sums[shapes] = Summary(shapes, rs, ret, atoms)
        return shapes, self.sums[shapes]

    def apply(self, eng, st, body, args, level):
        if (body.key, level) in self.nosum:
            return None
        shapes, sm = self.summarise(None, body, eng, st, args, level)
        if sm is None:
            if shapes is not None and level == 1:
                self.nosum.add((body.key, level))
            return None
        self.calls += 1
        cache = {}

        def actual(x):
            if x not in cache:
                getter, i = sm.atoms[x]
                v = args[getter[0]]
                for p in getter[1:]:
                    if p == '*':
                        v = eng.load(st, v)
                    else:
                        v = v.a[2 + p]
                if i is not None:
                    v = eng.seq_at(st, v, i)
                cache[x] = v
            return cache[x]
        n = [0]
        tupcache = {}

        def build(t):
            if t[0] == 'c':
                return t[1]
            if t[0] == 'm':
                return actual(t[1])
            if t[0] == 's':
                return sq_elems([build(x) for x in t[1]])
            if t[0] == 'a':
                return mk('agg', t[1], t[2], *[build(x) for x in t[3]])
            if t[2] not in tupcache:
                tupcache[t[2]] = mk('ufargs', tuple(actual(x) for x in t[2]))
            return mk('uf', t[3], tupcache[t[2]], ty=t[1])
        new = [(i, build(t)) for i, t in sm.roots]
        v = build(sm.ret)
        for i, x in new:
            eng.store(st, args[i], x)
        return [(st, v)]

    # ------------------------------------------------------------ runs
    def call(self, eng, m, args, st):
        f = self.fns[m]
        b = self.prog.bodies[f['key']]
        if len(args) != b.argc:
            raise Gap('%s%s takes %d arguments' % (self.prefix, m, b.argc))
        try:
            outs = eng.run_body(st, b, args, mk('fr', canon(f['p'])))
        except (Unsupported, Budget) as x:
            raise Gap('analysis of %s stopped at %s: %s' % (canon(f['p']), eng.site, x))
        if len(outs) != 1:
            raise Gap('%s%s does not act as one function of its input (%d outcomes)' % (self.prefix, m, len(outs)))
        return outs[0]

    def new(self, eng):
        st, v = self.call(eng, 'new', [self.outlen] if self.kind == 'b' else [], State())
        st.mem[HROOT] = v
        return st

    def update(self, eng, st, lo, hi):
        data = mkseq([('o', MSG, lo, hi)])
        st, _ = self.call(eng, 'update', [mk('ref', HROOT, ()), cref(data)], st)
        return st

    def finalize(self, eng, st):
        """the digest as a list of byte terms"""
        b = self.prog.bodies[self.fns['finalize']['key']]
        byref = self.prog.types[b.locals[1]]['k'] == 'ref'
        a0 = mk('ref', HROOT, ()) if byref else st.mem[HROOT]
        if b.argc == 2:
            st.mem[OUTROOT] = sq_elems([0] * self.outlen)
            st, _ = self.call(eng, 'finalize', [a0, mk('ref', OUTROOT, ())], st)
            v = st.mem[OUTROOT]
        else:
            st, v = self.call(eng, 'finalize', [a0], st)
        els = elements(v) if isT(v, 'seq') else None
        if els is None or len(els) != self.outlen:
            raise Gap('%s%s does not return a digest of known length' % (self.prefix, 'finalize'))
        return els

    def state(self, eng, cuts):
        """hasher after the pieces with the given ends, shared prefixes computed once"""
        k = (eng is self.fast, cuts)
        if k not in self.stcache:
            if not cuts:
                st = self.new(eng)
            else:
                st = self.update(eng, self.state(eng, cuts[:-1]), cuts[-2] if len(cuts) > 1 else 0, cuts[-1])
            self.stcache[k] = st
        return self.stcache[k].copy()

    def digest(self, eng, cuts):
        k = (eng is self.fast, cuts)
        if k not in self.outcache:
            self.outcache[k] = self.finalize(eng, self.state(eng, cuts))
        return self.outcache[k]

    # ------------------------------------------------------------ a start state standing for every earlier history
    def leaves(self, v, ti, path=()):
        """(path, value, scalar type, inside an array) of every scalar of a hasher"""
        t = self.prog.types[ti] if ti is not None else {}
        if isinstance(v, T) and v.op == 'seq':
            els = elements(v)
            if els is None or t.get('k') != 'array':
                raise Gap('a hasher field of unknown length')
            for i, x in enumerate(els):
                yield from self.leaves(self.full.at_value(x) if isT(x, 'at') else x, t['e'], path + (i,))
            return
        if isinstance(v, T) and v.op == 'agg':
            fts = t['f'] if t.get('k') == 'tuple' else [f[1] for f in t['v'][0]['f']]
            for i, (x, f) in enumerate(zip(v.a[2:], fts)):
                yield from self.leaves(x, f, path + ('f%d' % i,))
            return
        yield path, v, self.full.scalar_name(ti) if ti is not None else None, bool(path) and isinstance(path[-1], int)

    def hasher_type(self):
        return self.prog.bodies[self.fns['new']['key']].locals[0]

    def content(self, st):
        return {p: (v, sn, arr) for p, v, sn, arr in self.leaves(st.mem[HROOT], self.hasher_type())}

    def put(self, v, new, path=()):
        if isinstance(v, T) and v.op == 'seq':
            return sq_elems([self.put(x, new, path + (i,)) for i, x in enumerate(elements(v))])
        if isinstance(v, T) and v.op == 'agg':
            return mk('agg', v.a[0], v.a[1], *[self.put(x, new, path + ('f%d' % i,)) for i, x in enumerate(v.a[2:])])
        return new.get(path, v)

    def generic(self):
        """the state after an arbitrary multiple of 256 bytes has been absorbed, or None when its form cannot be told"""
        n0 = self.content(self.state(self.fast, ()))
        a = self.content(self.state(self.fast, (1000,)))
        b = self.content(self.state(self.fast, (1256,)))
        if not (n0.keys() == a.keys() == b.keys()):
            return None
        new, chain, counters = {}, [], []
        for p in n0:
            x, y, z = n0[p][0], a[p][0], b[p][0]
            sn = n0[p][1]
            if isinstance(y, int) and isinstance(z, int):
                if y != z:
                    if not isinstance(x, int):
                        return None
                    new[p] = ladd(lmul(KSYM, z - y), x)
                    counters.append((p, z - y, sn))
            elif n0[p][2] and sn == 'u64' and y is not z:
                c = mk('sym', 'chain', len(chain), ty='u64')
                chain.append(c)
                new[p] = c
            elif not (n0[p][2] and sn == 'u8'):
                return None
        if len(chain) != 8 or not counters:
            return None
        self.chain = chain
        self.counters = counters
        return new

    def start(self, eng, new):
        st = self.state(eng, ()).copy()
        st.mem[HROOT] = self.put(st.mem[HROOT], new)
        eng.assume(st, eng.compare(st, 'Le', KSYM, 1 << 52), 1)
        return st

    def use_generic(self, new):
        self.stcache = {}
        self.outcache = {}
        for e in (self.fast, self.full):
            self.stcache[(e is self.fast, ())] = self.new(e)
        for e in (self.fast, self.full):
            self.stcache[(e is self.fast, ())] = self.start(e, new)


KSYM = mk('sym', 'absorbed', ty='u64')


def reference(h, W, n, generic):
    msg = [W.of(at(MSG, i), 8) for i in range(n)]
    chain = before = None
    if generic:
        chain = [W.of(c, 64) for c in h.chain]
        before = W.total([(W.of(KSYM, 64), 256)], 0, 64)
    if h.kind == 'b':
        return R.blake2b(W, msg, h.outlen, chain, before)
    return R.sha512(W, msg, chain, before)


def compare(h, n, generic):
    """first digest byte that is not the defined one, or None"""
    W = Words()
    got = [W.of(x, 8) for x in h.digest(h.full, (n,) if n else ())]
    want = reference(h, W, n, generic)
    for i, (g, w) in enumerate(zip(got, want)):
        if g is not w:
            return i
    return None


# ------------------------------------------------------------------ pieces
def differing(h, a, b):
    """a leaf on which two hashers differ, other than a spare buffer byte"""
    x, y = h.content(a), h.content(b)
    if x.keys() != y.keys():
        return 'shape'
    for p in x:
        if x[p][0] is not y[p][0] and x[p][0] != y[p][0] and not (x[p][2] and x[p][1] == 'u8'):
            return '.'.join(str(q) for q in p)
    return None


class Match:
    """is a term the image of another under: 256 more bytes absorbed before, the text 256 bytes further on, some chaining value"""

    def __init__(self, h):
        self.chain = set(h.chain)
        self.bind = {}
        self.memo = {}

    def same(self, p, t):
        if isinstance(p, int) or isinstance(t, int):
            return p == t
        if p is t and not self.touched(p):
            return True
        k = (p, t)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = r = self._same(p, t)
        return r

    def touched(self, p):
        return True

    def _same(self, p, t):
        if p in self.chain:
            return self.bind.setdefault(p, t) is t
        if p is KSYM:
            return t is KSYM
        if p.op != t.op or p.ty != t.ty:
            if p.op != t.op and not (p.op == 'lin' or t.op == 'lin'):
                return False
        if p.op == 'at' and p.a[0] is MSG:
            return t.op == 'at' and t.a[0] is MSG and isinstance(t.a[1], int) and t.a[1] == p.a[1] + 256
        if p.op == 'lin' or t.op == 'lin':
            dp, cp = lin_parts(p)
            dt, ct = lin_parts(t)
            if dp.keys() == dt.keys() == {KSYM}:
                return dp == dt and ct == cp + dp[KSYM]
            return dp.keys() == dt.keys() and all(dp[k] == dt[k] and k.op != 'at' for k in dp) and cp == ct
        if p.op == 'uf':
            return p.a[0] is t.a[0] and self.same(p.a[1], t.a[1])
        if len(p.a) != len(t.a):
            return False
        return all(self.any(x, y) for x, y in zip(p.a, t.a))

    def any(self, x, y):
        if isinstance(x, tuple) or isinstance(y, tuple):
            return isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(self.any(a, b) for a, b in zip(x, y))
        if isinstance(x, T) or isinstance(y, T):
            return isinstance(x, (T, int)) and isinstance(y, (T, int)) and self.same(x, y)
        return x == y


def shifted(h, n):
    """the hasher after n bytes is the hasher after n - 256, with 256 more bytes behind it"""
    m = Match(h)
    cuts = lambda k: (k,) if k else ()
    a, b = h.content(h.state(h.fast, cuts(n - 256))), h.content(h.state(h.fast, cuts(n)))
    if a.keys() != b.keys():
        return 'shape'
    for p in sorted(a, key=str):
        if a[p][2] and a[p][1] == 'u8':
            continue
        if not m.same(a[p][0], b[p][0]):
            return '.'.join(str(q) for q in p)
    for i, (x, y) in enumerate(zip(h.digest(h.fast, cuts(n - 256)), h.digest(h.fast, cuts(n)))):
        if not m.same(x, y):
            return 'digest byte %d' % i
    return None


# ------------------------------------------------------------------ jobs, spread over processes
_W = {}


def hasher(ctx, kind, outlen, generic):
    k = (kind, outlen, generic)
    if k not in _W:
        h = Hasher(ctx, kind, outlen)
        if generic:
            h.use_generic(h.generic())
        _W[k] = h
    return _W[k]


def job_full(ctx, h, generic, ns):
    out = []
    for n in ns:
        i = compare(h, n, generic)
        h.outcache.pop((False, (n,)), None)
        out.append(('%sfinalize' % h.prefix, 'digest equals the defined one%s' % (' after any earlier blocks' if generic else ''), i is None,
                    'message of %d bytes: digest byte %s differs' % (n, i)))
    return out


def job_pieces(ctx, h, generic, pairs):
    out = []
    for cuts in pairs:
        one = (cuts[-1],) if cuts[-1] else ()
        st, ref = h.state(h.fast, cuts), h.state(h.fast, one)
        d = differing(h, st, ref)
        same = h.digest(h.fast, cuts) == h.digest(h.fast, one)
        for c in (cuts,):
            h.outcache.pop((True, c), None)
            h.stcache.pop((True, c), None)
        what = 'pieces give the digest of the whole%s' % (' after any earlier blocks' if generic else '')
        pieces = [b - a for a, b in zip((0,) + cuts, cuts)]
        out.append(('%supdate' % h.prefix, what, same, 'pieces of %s bytes' % ', '.join(map(str, pieces))))
        out.append(('%supdate' % h.prefix, 'pieces leave the state the whole leaves', d is None or not same, 'pieces of %s bytes: field %s' % (', '.join(map(str, pieces)), d)))
    return out


def job_shift(ctx, h, generic, ns):
    out = []
    for n in ns:
        d = shifted(h, n)
        out.append(('%supdate' % h.prefix, 'the state after more blocks has the form of the state before', d is None, '%d bytes: %s' % (n, d)))
    return out


JOBS = {'full': job_full, 'pieces': job_pieces, 'shift': job_shift}


def work(a):
    ctx, (job, kind, outlen, generic, arg), deadline = a
    res = []
    done = 0
    h = hasher(ctx, kind, outlen, generic)
    before = len(h.panics)
    for x in arg:
        if done and time.time() > deadline:
            break
        res += JOBS[job](ctx, h, generic, [x])
        done += 1
    for d, site in h.panics[before:]:
        res.append((site[1] if site else h.prefix, 'no panic while hashing', False, str(d[0])[:200]))
    vis = set(h.full.visited_fns) | set(h.fast.visited_fns)
    blocks = set(h.full.visited_blocks) | set(h.fast.visited_blocks)
    return res, done, vis, blocks, h.abstracted


_CTX = None


def _task(x):
    try:
        return ('ok',) + work((_CTX, x[0], x[1]))
    except Gap as g:
        return ('gap', str(g))
    except (ValueError, KeyError, TypeError, AttributeError, IndexError, RecursionError) as e:
        return ('gap', '%s: %s' % (type(e).__name__, e))


def run_jobs(ctx, jobs, seconds):
    import multiprocessing as mp
    global _CTX
    _CTX = ctx
    deadline = time.time() + seconds
    with mp.get_context('fork').Pool(min(7, len(jobs))) as pool:
        return pool.map(_task, [(j, deadline) for j in jobs], chunksize=1)


def lengths(ctx, h):
    """lengths around the constants the code compares with"""
    c = set()
    for k in h.reached():
        if k in h.local:
            consts_of(h.prog.bodies[k], c)
    return sorted({x + d for x in c if 24 <= x <= 4096 for d in (-1, 0, 1)})


def split(xs, n):
    xs = list(xs)
    return [xs[i::n] for i in range(n) if xs[i::n]]


def c29(ctx):
    """Interprets the MIR of the hash code abstractly, on messages of known length whose bytes are symbols, in a domain of word
    expressions with normal forms (bits as xor-polynomials, sums modulo 2^64 as multisets), and compares the normal form of every
    digest byte with the one of the definition (FIPS 180-4, RFC 7693).  Nothing is executed and no solver is asked.  In the second
    group of obligations the chaining value and the number of earlier blocks are symbols too, which makes them the step of an
    induction over the message: the state after any number of earlier blocks and a tail of given length, fed one more piece, must be
    the state the joined text leaves, and its digest the defined one.  Lengths of tails and pieces are those around every block
    boundary, padding boundary and constant the code compares with; contents are never sampled."""
    thorough = ctx.tier == 'thorough'
    jobs = []
    edge = [0, 1, 2, 63, 64, 111, 112, 113, 119, 120, 126, 127, 128, 129, 130, 191, 192, 239, 240, 241, 254, 255, 256, 257, 258, 300, 367, 368, 383, 384, 385]
    for kind in 'sb':
        h = Hasher(ctx, kind)
        own = lengths(ctx, h)
        gen = h.generic()
        nm = h.name
        if gen is None:
            ctx.notes.append('%s: the state has no recognisable chaining value and byte count; only whole messages of the listed lengths are decided' % nm)
        else:
            for p, d, sn in h.counters:
                ctx.ob(sn in ('u64', 'usize', 'u128'), nm, 'the byte count is wide enough', 'field %s has type %s' % ('.'.join(map(str, p)), sn))
        real = [n for n in edge if n not in (2, 63, 119, 120, 126, 130, 191, 192, 254, 258, 367, 368)]
        full = sorted(set(edge) | {n for n in own if n <= 520}) if not thorough else range(0, 521)
        jobs += [('full', kind, 64, False, x) for x in split(real, 3)]
        if kind == 'b':
            jobs += [('full', kind, o, False, [0, 200]) for o in ([32] if not thorough else [1, 8, 16, 20, 32, 33, 48, 63])]
        tails = sorted({0, 1, 64, 111, 112, 127, 128, 129, 191, 192, 240, 255, 256, 257, 300, 383, 384} | {n for n in own if n < 386}) if not thorough else range(0, 386)
        pieces = sorted({0, 1, 16, 63, 64, 65, 111, 112, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300, 383, 384, 385, 512, 640, 1000} | set(own)) if not thorough else sorted(set(range(0, 302)) | {383, 384, 385, 511, 512, 513, 640, 1000, 1024, 4096} | set(own))
        cuts = [(a, a + b) if a else (a + b,) for a in tails for b in pieces]
        cuts = [c for c in cuts if len(c) > 1]
        cuts += [tuple(range(s, t, s)) for s, t in ((1, 300), (7, 600), (64, 700), (100, 900), (127, 1200), (128, 1300), (129, 1400), (255, 2000), (256, 2100), (257, 2200))]
        cuts += [(0, n) for n in (1, 128, 300)] + [(n, n) for n in (1, 128, 256, 300)]
        g = gen is not None
        jobs += [('pieces', kind, 64, g, x) for x in split(cuts, 7)]
        if g:
            jobs += [('full', kind, 64, True, x) for x in split(full, 7)]
            jobs += [('shift', kind, 64, True, sorted({n + 256 for n in edge if n > 128} | {n for n in pieces if n > 384} | {n + 384 for n in pieces if n > 256}))]
        ctx.notes.append('%s: tails %s; pieces %s' % (nm, brief(tails), brief(pieces)))
    res = run_jobs(ctx, jobs, 240 if not thorough else 420)
    for j, r in zip(jobs, res):
        if r[0] == 'gap':
            raise Gap(r[1])
        _, obs, done, vis, blocks, ab = r
        for c, w, ok, d in obs:
            ctx.ob(ok, c, w, d)
        ctx.fns |= vis
        ctx.blocks |= blocks
        if done < len(j[4]):
            ctx.notes.append('%s %s: %d of %d cases within the time limit' % (j[1], j[0], done, len(j[4])))
    wrappers(ctx)


def brief(xs):
    xs = sorted(xs)
    out = []
    i = 0
    while i < len(xs):
        j = i
        while j + 1 < len(xs) and xs[j + 1] == xs[j] + 1:
            j += 1
        out.append(str(xs[i]) if i == j else '%d-%d' % (xs[i], xs[j]))
        i = j + 1
    return ' '.join(out)


def wrappers(ctx):
    """one-call forms, copies and defaults agree with new, update, finalize"""
    for kind in 'sb':
        h = Hasher(ctx, kind)
        mod = 'blake2b' if kind == 'b' else 'sha512'
        for nm, fs in sorted(ctx.roots.items()):
            for f in fs:
                if mod + '::' not in f['p'] or not f['body']:
                    continue
                last = nm.rsplit('::', 1)[-1]
                b = h.prog.bodies[f['key']]
                if last in ('hash', 'blake2b') and not f['traitimpl']:
                    cs = set()
                    consts_of(b, cs)
                    ns = {0, 1, 32, 64, 100, 128, 300} | {c + e for c in cs for e in (-1, 0, 1) if 0 <= c + e < 1 << 16}
                    for n in sorted(ns):
                        data = cref(mkseq([('o', MSG, 0, n)]))
                        st = State()
                        h.fns['one'] = f
                        if b.argc == 2:
                            st.mem[OUTROOT] = sq_elems([0] * h.outlen)
                            st, _ = h.call(h.fast, 'one', [mk('ref', OUTROOT, ()), data], st)
                            v = st.mem[OUTROOT]
                        else:
                            st, v = h.call(h.fast, 'one', [data], st)
                        ctx.ob(elements(v) == h.digest(h.fast, (n,) if n else ()), nm, 'equals new, update, finalize', '%d bytes' % n)
                elif last == 'clone' and b.locals[0] == h.hasher_type():
                    h.fns['one'] = f
                    st = h.state(h.fast, (200,))
                    st2, v = h.call(h.fast, 'one', [mk('ref', HROOT, ())], st)
                    ctx.ob(v is st2.mem[HROOT], nm, 'a copy has the state of the original')
                elif last == 'default' and b.locals[0] == h.hasher_type():
                    h.fns['one'] = f
                    st2, v = h.call(h.fast, 'one', [], State())
                    ctx.ob(v is h.state(h.fast, ()).mem[HROOT], nm, 'the default is a new hasher')
        ctx.fns |= h.fast.visited_fns
