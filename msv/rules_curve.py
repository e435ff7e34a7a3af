"""C31: scalar, field and point arithmetic of the Ed25519 curve."""
from .base import *
from .base import Gap, canon
from .engine import Engine, State, Unsupported, Budget, WID
from .models import sq_elems, elements
from .terms import isT, T
from .polydom import Poly
from .polyeng import PolyEngine

P = 2 ** 255 - 19
L = 2 ** 252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, P - 2, P) % P
SQRTM1 = pow(2, (P - 1) // 4, P)
TIGHT = (1 << 51) + (1 << 15)


def rounded(b):
    """limb bounds, none below the ordinary ones (a constant is treated like any other element)"""
    return tuple(max(x, TIGHT) for x in b)



# ---------------------------------------------------------------- the curve, for checking tables
def affine_add(a, b):
    (x1, y1), (x2, y2) = a, b
    k = D * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + x2 * y1) * pow(1 + k, P - 2, P) % P, (y1 * y2 + x1 * x2) * pow(1 - k, P - 2, P) % P)


def recover_x(y, sign):
    u, v = (y * y - 1) % P, (D * y * y + 1) % P
    x = u * pow(v, 3, P) * pow(u * pow(v, 7, P), (P - 5) // 8, P) % P
    if (v * x * x - u) % P:
        x = x * SQRTM1 % P
    return P - x if x & 1 != sign else x


BY = 4 * pow(5, P - 2, P) % P
BASE = (recover_x(BY, 0), BY)
MULT = {(0, 1): 0}
_q = (0, 1)
for _i in range(1, 40):
    _q = affine_add(_q, BASE)
    MULT[_q] = _i
    MULT[(P - _q[0], _q[1])] = -_i


# ---------------------------------------------------------------- types
def strip(prog, ti):
    """(type, kind of reference: '' value, '&' shared, '&mut')"""
    t = prog.types[ti]
    k = ''
    while t['k'] == 'ref':
        k = '&mut' if t['m'] else '&'
        ti = t['e']
        t = prog.types[ti]
    return ti, t, k


def array_of(prog, t, name, n=None):
    return t['k'] == 'array' and prog.types[t['e']].get('n') == name and (n is None or t['l'] == n)


class Shape:
    """how field elements and points are stored"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def elem(self, ti):
        """does the type hold one field element"""
        t = self.prog.types[ti]
        if array_of(self.prog, t, 'u64', 5):
            return True
        fs = self.fields(ti)
        return fs is not None and len(fs) == 1 and array_of(self.prog, self.prog.types[fs[0][1]], 'u64', 5)

    def fields(self, ti):
        t = self.prog.types[ti]
        if t['k'] == 'adt' and t.get('local') and len(t['v']) == 1:
            return t['v'][0]['f']
        return None

    def make(self, ti, limbs):
        t = self.prog.types[ti]
        s = sq_elems(limbs)
        return s if t['k'] == 'array' else agg(t['p'], 0, s)

    def limbs(self, v):
        """the five limbs of an element value, or None"""
        if is_agg(v) and len(v.a) == 3:
            v = v.a[2]
        if isT(v, 'seq'):
            e = elements(v)
            if e is not None and len(e) == 5:
                return e
        return None

    def point(self, ti):
        """names of the coordinates of a point type, or None"""
        fs = self.fields(ti)
        if fs is None or not 2 <= len(fs) <= 4 or not all(self.elem(f[1]) for f in fs):
            return None
        return [f[0] for f in fs]


# ---------------------------------------------------------------- polynomials over GF(p)
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        c = (r.get(m, 0) + k * c) % P
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 200000:
        raise ValueError('polynomial too large')
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            mn = mmul(m, n)
            c = (r.get(mn, 0) + x * y) % P
            if c:
                r[mn] = c
            else:
                r.pop(mn, None)
    return r


def pconst(c):
    c %= P
    return {(): c} if c else {}


def pvar(v):
    return {((v, 1),): 1}


class Elem:
    """a field element: its value as a polynomial, and bounds on its limbs"""
    __slots__ = ('id', 'p', 'b', 'key')


class Summary:
    def __init__(self, outs, how):
        self.outs = outs            # [(where, 'E', form, bounds) | (where, 'B', ('enc', form))]
        self.how = how


class Field:
    """what the functions on field elements compute"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        self.shape = Shape(ctx.prog)
        self.elems = []
        self.etab = {}
        self.pows = {}
        self.atomno = {}
        self.sums = {}
        self.active = set()
        self.sigs = {}
        self.engines = []
        self.panics = []
        self.why = {}
        for f in self.prog.fns:
            if f['body'] and 'crypto' in f['p']:
                s = self.signature(f)
                if s:
                    self.sigs[f['key']] = (f, s)

    # ------------------------------------------------------------ elements
    def elem(self, p, b):
        key = (frozenset(p.items()), tuple(b))
        e = self.etab.get(key)
        if e is None:
            e = Elem()
            e.id, e.p, e.b, e.key = len(self.elems), p, tuple(b), key[0]
            self.elems.append(e)
            self.etab[key] = e
        return e

    def limbs(self, e):
        return [mk('lm', e.id, i, ty='u64') for i in range(5)]

    def read(self, v):
        """the element a value holds, or None"""
        ls = self.shape.limbs(v)
        if ls is None:
            return None
        if all(isinstance(x, int) for x in ls):
            return self.elem(pconst(sum(x << (51 * i) for i, x in enumerate(ls))), ls)
        if all(isT(x, 'lm') and x.a[1] == i for i, x in enumerate(ls)) and len({x.a[0] for x in ls}) == 1:
            return self.elems[ls[0].a[0]]
        return None

    def power(self, p, e):
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((v, k * e) for v, k in m): pow(c, e, P)}
        if not p:
            return {} if e else pconst(1)
        if e <= 8:
            r = pconst(1)
            for _ in range(e):
                r = pmul(r, p)
            return r
        return pvar(('pow', e, self.number(p)))

    def number(self, p):
        k = frozenset(p.items())
        n = self.atomno.setdefault(k, len(self.atomno))
        self.pows[n] = p
        return n

    def apply(self, form, args):
        """value of a form over (kind, index) symbols for given arguments (polynomials, or bits as 0/1 polynomials)"""
        r = {}
        for m, c in form.items():
            t = pconst(c)
            for v, e in m:
                t = pmul(t, self.power(args[v], e))
            r = padd(r, t)
        return r

    # ------------------------------------------------------------ signatures
    def signature(self, f):
        b = self.prog.bodies.get(f['key'])
        if b is None or b.argc == 0:
            return None
        sig = []
        for i in range(b.argc):
            ti = b.locals[i + 1]
            ti = ti if isinstance(ti, int) else ti[0]
            si, t, k = strip(self.prog, ti)
            if self.shape.elem(si):
                sig.append(('M' if k == '&mut' else 'E', si, k))
            elif k != '&mut' and t['k'] == 'uint' and t['n'] == 'u8' or t['k'] == 'bool' and k != '&mut':
                sig.append(('C', si, k))
            elif t['k'] == 'slice' and self.prog.types[t['e']].get('n') == 'u8' or array_of(self.prog, t, 'u8', 32):
                sig.append(('O' if k == '&mut' else 'S', si, k))
            else:
                return None
        ri = b.locals[0]
        ri = ri if isinstance(ri, int) else ri[0]
        rt = self.prog.types[ri]
        if self.shape.elem(ri):
            ret = 'E'
        elif array_of(self.prog, rt, 'u8', 32):
            ret = 'B'
        elif rt['k'] == 'tuple' and not rt['f']:
            ret = None
        elif rt['k'] == 'bool' and [s[0] for s in sig] == ['E']:
            ret = 'Z'
        else:
            return None
        if ret is None and not any(s[0] in 'MO' for s in sig):
            return None
        if ret != 'E' and not any(s[0] in 'EM' for s in sig):
            return None
        return sig, (ret, ri)

    # ------------------------------------------------------------ summaries
    def summary(self, key, bounds):
        """effect of a function for arguments with the given limb bounds, or None"""
        k = (key, bounds)
        if k in self.sums:
            return self.sums[k]
        if key in self.active:
            return None
        self.active.add(key)
        r = None
        try:
            try:
                r = self.by_limbs(key, bounds)
            except (Unsupported, Budget, ValueError, Gap) as x:
                self.why[key] = str(x)
            if r is None:
                try:
                    r = self.by_elements(key, bounds)
                except (Unsupported, Budget, ValueError, Gap) as x:
                    self.why[key] = str(x)
        finally:
            self.active.discard(key)
        self.sums[k] = r
        return r

    def setup(self, f, sig, make):
        """argument values and the state holding them"""
        st = State()
        args = []
        for i, (k, ti, refk) in enumerate(sig):
            v = make(i, k, ti)
            if refk:
                st.mem[mk('carg', i)] = v
                args.append(mk('ref', mk('carg', i), ()))
            else:
                args.append(v)
        return st, args

    def run(self, eng, f, st, args):
        outs = eng.run_body(st, self.prog.bodies[f['key']], args, mk('fr', canon(f['p'])))
        if len(outs) != 1:
            raise Gap('%d outcomes' % len(outs))
        return outs[0]

    def outputs(self, sig, ret, s, v):
        r = []
        if ret[0]:
            r.append(('ret', ret[0], v))
        for i, (k, ti, refk) in enumerate(sig):
            if k in 'MO':
                r.append((i, 'E' if k == 'M' else 'B', s.mem[mk('carg', i)]))
        return r

    def by_limbs(self, key, bounds):
        """the function as machine arithmetic on limbs"""
        f, (sig, ret) = self.sigs[key]
        if ret[0] == 'Z':
            return None
        dom = Poly()
        panics = []
        eng = PolyEngine(self.prog, dom, primitives={}, hook=lambda k, st, d, site: panics.append(d) if k == 'panic' else None,
                         opts={'max_steps': 5000, 'unroll': 1 << 10, 'unrollall': 1})

        def make(i, k, ti):
            if k in 'EM':
                return self.shape.make(ti, [eng.inp((i, j), 0, bounds[i][j] if bounds[i] else (1 << 64) - 1, 'u64') for j in range(5)])
            if k == 'C':
                return eng.inp((i, 'bit'), 0, 1, 'bool' if self.prog.types[ti]['k'] == 'bool' else 'u8')
            return sq_elems([eng.inp((i, j), 0, 255, 'u8') for j in range(32)])
        st, args = self.setup(f, sig, make)
        s, v = self.run(eng, f, st, args)
        if panics:
            raise Gap('may panic: %s' % (str(panics[0])[:100],))
        vs = {}
        for i, (k, ti, refk) in enumerate(sig):
            if k in 'EM':
                vs[i] = dom.lin([(eng.pv(eng.inp((i, j), 0, 1 << 64, 'u64')), 1 << (51 * j)) for j in range(5)])
        outs = []
        for where, kind, val in self.outputs(sig, ret, s, v):
            if kind == 'E':
                ls = self.shape.limbs(val)
                xs = [eng.pv(x) for x in ls] if ls else [None]
                if any(x is None for x in xs):
                    return None
                if any(x.lo < 0 for x in xs):
                    return None
                vo = dom.lin([(x, 1 << (51 * j)) for j, x in enumerate(xs)])
                form = self.form(dom, sig, vs, vo)
                if form is None:
                    return None
                outs.append((where, 'E', form, tuple(x.hi for x in xs)))
            else:
                es = elements(val)
                if es is None or len(es) != 32:
                    return None
                xs = [eng.pv(x) for x in es]
                if any(x is None or x.lo < 0 or x.hi > 255 for x in xs):
                    return None
                i = self.canonical(dom, sig, vs, dom.lin([(x, 1 << (8 * j)) for j, x in enumerate(xs)]))
                if i is None:
                    return None
                outs.append((where, 'B', ('enc', pvar(('v', i)))))
        self.note(eng)
        return Summary(outs, 'limbs')

    def note(self, eng):
        self.ctx.fns |= eng.visited_fns
        self.ctx.blocks |= eng.visited_blocks

    def form(self, dom, sig, vs, vo):
        """vo modulo p as a polynomial in the values of the arguments"""
        x = dom.expand(vo, P)
        names = {}
        zero = {}
        for a in dom.atoms:
            if a.kind == 'in' and a.name:
                i, j = a.name.split('.')
                names[a.id] = (int(i), j)
                zero[a.id] = j
        form = {}
        for m, c in x.items():
            if all(zero.get(i) in ('0', 'bit') and sig[names[i][0]][0] in 'EMC' for i in m):
                mm = ()
                for i in m:
                    mm = mmul(mm, (((('c' if zero[i] == 'bit' else 'v'), names[i][0]), 1),))
                form[mm] = c
        want = dom.const(0)
        for m, c in form.items():
            t = dom.const(c)
            for (k, i), e in m:
                for _ in range(e):
                    t = dom.mul(t, vs[i] if k == 'v' else dom.atom(('in', i, 'bit'), 0, 1))
            want = dom.add(want, t)
        if not dom.congruent(vo, want, P):
            return form
        # the low 255 bits of 32 bytes
        for i, (k, ti, refk) in enumerate(sig):
            if k == 'S':
                bs = [dom.atom(('in', i, j), 0, 255) for j in range(32)]
                want = dom.lin([(b, 1 << (8 * j)) for j, b in enumerate(bs)] + [(dom.quo(bs[31], 7), -(1 << 255))])
                if not dom.congruent(vo, want, P):
                    return pvar(('dec', i))
        return None

    def canonical(self, dom, sig, vs, vo):
        """index of the argument whose value vo is the least residue of, or None"""
        for i, V in vs.items():
            if self.least_residue(dom, V, vo):
                return i
        return None

    def least_residue(self, dom, V, vo):
        top = (vs_hi(V) // P) + 1
        if top > 4 or V.lo < 0:
            return False
        x = dom.expand(vo)
        qs = sorted({i for m in x for i in m if dom.atoms[i].kind == 'q'})
        for t in range(top):
            lo, hi = t * P, min((t + 1) * P - 1, V.hi)
            if lo > hi:
                continue
            known = {}
            r = fixq(dom, x, V, lo, hi, known)
            if r is None:
                return False
            want = dict(V.p)
            if t:
                want[()] = want.get((), 0) - t * P
            if r != {m: c for m, c in want.items() if c}:
                return False
        return bool(qs) or vs_hi(V) < P

    # ------------------------------------------------------------ composite functions
    def by_elements(self, key, bounds):
        """the function as field operations"""
        f, (sig, ret) = self.sigs[key]
        eng = FieldEngine(self)

        def make(i, k, ti):
            if k in 'EM':
                return self.shape.make(ti, self.limbs(self.elem(pvar(('v', i)), bounds[i] or ((1 << 64) - 1,) * 5)))
            if k == 'C':
                return eng.inp((i, 'bit'), 0, 1, 'bool' if self.prog.types[ti]['k'] == 'bool' else 'u8')
            return mkseq([('o', mk('base', mk('cbytes', i), 32), 0, 32)])
        st, args = self.setup(f, sig, make)
        if ret[0] == 'Z':
            outs = eng.run_body(st, self.prog.bodies[f['key']], args, mk('fr', canon(f['p'])))
            b = mk('base', mk('fenc', self.number(pvar(('v', 0)))), 32)
            want = next((w for w in (0, 1) if not eng.panics and decides(outs, b, {j: 0 for j in range(32)}, 1 - w)
                         and all(decides(outs, b, {j: x}, w) for j in range(32) for x in range(1, 128 if j == 31 else 256))), None)
            if want is None:
                return None
            self.note(eng)
            return Summary([('ret', 'Z', pvar(('v', 0)), 1 - want)], 'elements')
        s, v = self.run(eng, f, st, args)
        if eng.panics:
            raise Gap('may panic: %s' % (str(eng.panics[0])[:100],))
        outs = []
        for where, kind, val in self.outputs(sig, ret, s, v):
            if kind == 'E':
                e = self.read(val)
                if e is None or any(a[0] not in ('v', 'c') for m in e.p for a, _ in m):
                    return None
                outs.append((where, 'E', e.p, e.b))
            else:
                n = self.encoded(val)
                if n is None:
                    return None
                p = self.pows[n]
                if any(a[0] not in ('v', 'c') for m in p for a, _ in m):
                    return None
                outs.append((where, 'B', ('enc', p)))
        self.note(eng)
        return Summary(outs, 'elements')

    def encoded(self, val):
        """number of the polynomial whose canonical bytes a value is"""
        es = elements(val) if isT(val, 'seq') else None
        if es is None or len(es) != 32:
            return None
        b = None
        for j, x in enumerate(es):
            if not isT(x, 'at') or x.a[1] != j or not isT(x.a[0], 'base') or not isT(x.a[0].a[0], 'fenc') or (b is not None and x.a[0] is not b):
                return None
            b = x.a[0]
        return b.a[0].a[0]

    def enc_value(self, p):
        if not p or (len(p) == 1 and () in p):
            return sq_elems(list(p.get((), 0).to_bytes(32, 'little')))
        return mkseq([('o', mk('base', mk('fenc', self.number(p)), 32), 0, 32)])

    # ------------------------------------------------------------ calls
    def primitive(self, eng, st, key, args):
        f, (sig, ret) = self.sigs[key]
        if len(args) != len(sig):
            return None
        vals = {}
        bounds = []
        for i, ((k, ti, refk), a) in enumerate(zip(sig, args)):
            b = None
            x = a
            while isT(x, 'ref'):
                x = eng.load(st, x)
            if k in 'EM':
                e = eng.read_elem(x)
                if e is None:
                    if k == 'E':
                        return None
                else:
                    vals[('v', i)] = e.p
                    b = e.b
            elif k == 'C':
                v = eng.pv(x) if isinstance(x, (int, T)) else None
                if v is None or v.lo < 0 or v.hi > 1:
                    return None
                c = eng.dom.constant(v)
                vals[('c', i)] = pconst(c) if c is not None else pvar(('bit', v.id))
            elif k == 'S':
                x = eng.whole(st, a)
                if x is None:
                    return None
                es = elements(x) if isT(x, 'seq') and seqlen(x) == 32 else None
                if es is None:
                    return None
                if all(isinstance(y, int) for y in es):
                    n = int.from_bytes(bytes(es), 'little') & ((1 << 255) - 1)
                    vals[('dec', i)] = pconst(n)
                else:
                    vals[('dec', i)] = pvar(('dec', mkseq([('e', tuple(es))]).id))
                    self.decoded[mkseq([('e', tuple(es))]).id] = es
            bounds.append(rounded(b) if b is not None else None)
        s = self.summary(key, tuple(bounds))
        if s is None:
            return None
        st = st.copy()
        res = None
        for o in s.outs:
            where, kind = o[0], o[1]
            if kind == 'E':
                if any(sym not in vals for m in o[2] for sym, _ in m):
                    return None
                e = self.elem(self.apply(o[2], vals), o[3])
                ti = ret[1] if where == 'ret' else sig[where][1]
                v = self.shape.make(ti, self.limbs(e))
            elif kind == 'Z':
                p = vals.get(('v', 0))
                if p is None:
                    return None
                if not p or list(p) == [()]:
                    v = o[3] if not p else 1 - o[3]
                else:
                    v = mk('iszero', self.number(p), ty='bool')
                    v = v if o[3] else eng.mk_not(v)
            else:
                if any(sym not in vals for m in o[2][1] for sym, _ in m):
                    return None
                v = self.enc_value(self.apply(o[2][1], vals))
            if where == 'ret':
                res = v
            else:
                r = args[where]
                if not isT(r, 'ref'):
                    return None
                eng.store(st, r, v)
        return [(st, res if res is not None else UNIT)]

    decoded = {}


def decides(outs, b, known, want):
    """is the result of every outcome that the known bytes of b allow the wanted one"""
    env = {'at': lambda t: known.get(t.a[1]) if t.a[0] is b else None, 'whole': (b, known)}
    seen = 0
    for st, v in outs:
        memo = {}
        bad = False
        for c, k in st.facts.items():
            x = ev(c, env, memo)
            if isinstance(x, int) and x != k or x is NONZERO and k == 0:
                bad = True
        if bad:
            continue
        seen += 1
        x = ev(v, env, memo)
        x = 1 if x is NONZERO else x
        if x != want:
            return False
    return seen > 0


def vs_hi(v):
    return v.hi


def fixq(dom, x, V, lo, hi, known):
    """polynomial x with its quotients resolved for V in [lo, hi], or None"""
    r = {}
    for m, c in x.items():
        k = c
        rest = []
        for i in m:
            if dom.atoms[i].kind == 'q':
                q = floor_of(dom, i, V, lo, hi, known)
                if q is None:
                    return None
                k *= q
            else:
                rest.append(i)
        rest = tuple(rest)
        y = r.get(rest, 0) + k
        if y:
            r[rest] = y
        else:
            r.pop(rest, None)
    return r


def floor_of(dom, i, V, lo, hi, known):
    """the constant value of a quotient atom for V in [lo, hi], or None"""
    if i in known:
        return known[i]
    known[i] = None
    a = dom.atoms[i]
    x = dict(dom.expand(a.of))
    k = a.k
    for _ in range(64):
        qs = [m[0] for m, c in x.items() if len(m) == 1 and c == 1 and dom.atoms[m[0]].kind == 'q' and m[0] < i]
        # floor((A + floor(X / 2^j)) / 2^k) = floor((2^j A + X) / 2^(j+k))
        if not qs:
            break
        q = max(qs)
        b = dom.atoms[q]
        y = {m: c << b.k for m, c in x.items() if m != (q,)}
        for m, c in dom.expand(b.of).items():
            c += y.get(m, 0)
            if c:
                y[m] = c
            else:
                y.pop(m, None)
        x = y
        k += b.k
    x = fixq(dom, x, V, lo, hi, known)
    if x is None:
        return None
    (m0, c0) = next(iter(V.p.items()))
    if m0 == () or x.get(m0, 0) % c0:
        return None
    f = x.get(m0, 0) // c0
    for m, c in V.p.items():
        y = x.get(m, 0) - f * c
        if y:
            x[m] = y
        else:
            x.pop(m, None)
    if any(m != () for m in x):
        return None
    c = x.get((), 0)
    l, h = sorted((f * lo, f * hi))
    l, h = (l + c) >> k, (h + c) >> k
    known[i] = l if l == h else None
    return known[i]


class FieldEngine(PolyEngine):
    """runs code on field elements; functions with a known effect are not entered"""

    def __init__(self, field, **opts):
        self.field = field
        self.panics = []

        def hook(k, st, d, site):
            if k == 'panic':
                self.panics.append((d, site))
        o = {'max_steps': 10 ** 6, 'unroll': 1 << 12, 'unrollall': 1, 'disjunctions': 1}
        o.update(opts)
        super().__init__(field.prog, Poly(), primitives={}, hook=hook, opts=o)

    def call_fn(self, st, ci, args, fr, dty=None, argtys=None):
        key = ci.get('key')
        if key in self.field.sigs:
            r = self.field.primitive(self, st, key, args)
            if r is not None:
                return r
        return super().call_fn(st, ci, args, fr, dty, argtys)

    def read_elem(self, v):
        return self.field.read(v)

    def binop(self, st, op, a, b, ty, tyb=None):
        if isT(a, 'lm') or isT(b, 'lm') or isT(a, 'gl') or isT(b, 'gl'):
            at = self.where()
            raise Gap('arithmetic on limbs whose effect is not known%s' % (' in ' + canon(str(at[1])) if isinstance(at, tuple) and len(at) > 1 else ''))
        return super().binop(st, op, a, b, ty, tyb)

    def whole(self, st, a):
        """the byte string an argument denotes"""
        x = a
        while isT(x, 'ref'):
            x = self.load(st, x)
        return x if isT(x, 'seq') else None


# ---------------------------------------------------------------- points
COORDS = {'P2': ('x', 'y', 'z'), 'P3': ('x', 'y', 'z', 't'), 'P1P1': ('x', 'y', 'z', 't'),
          'Cached': ('y_plus_x', 'y_minus_x', 'z', 't2d'), 'Precomp': ('y_plus_x', 'y_minus_x', 'xy2d')}
HALF = (P + 1) // 2
INVD = pow(D, P - 2, P)


def on_curve(p):
    """normal form of a polynomial modulo the curve equations of the input points"""
    out = {}
    work = {}                      # degree -> {monomial: coefficient}: a rewriting step lowers the degree
    for m, c in p.items():
        work.setdefault(sum(e for _, e in m), {})[m] = c
    n = 0
    while work:
        deg = max(work)
        for m, c in work.pop(deg).items():
            n += 1
            if n > 400000:
                raise ValueError('polynomial too large')
            d = dict(m)
            hit = next((v[1] for v, e in m if v[0] == 'x' and e >= 2 and d.get(('y', v[1]), 0) >= 2), None)
            if hit is None:
                out[m] = c
                continue
            x, y = ('x', hit), ('y', hit)
            # x^2 y^2 = (y^2 - x^2 - 1) / d
            for dx, dy, k in ((2, 0, INVD), (0, 2, -INVD), (2, 2, -INVD)):
                q = dict(d)
                q[x] -= dx
                q[y] -= dy
                mm = tuple(sorted((v, e) for v, e in q.items() if e))
                lower = work.setdefault(deg - dx - dy, {})
                w = (lower.get(mm, 0) + c * k) % P
                if w:
                    lower[mm] = w
                else:
                    lower.pop(mm, None)
        work = {k: v for k, v in work.items() if v}
    return out


_ON = sorted((v, q) for q, v in MULT.items() if v > 4)


def at_points(p):
    """the value of a polynomial where every input is some multiple of the base point"""
    env, r = {}, 0
    for m, c in p.items():
        for v, e in m:
            k = (v, e)
            if k not in env:
                i = v[1] if isinstance(v[1], int) else 0
                n, (x, y) = _ON[(7 * i + 3) % len(_ON)]
                b = x if v[0] == 'x' else y if v[0] == 'y' else 1000003 * (i + 1) + ord(str(v[0])[0])
                env[k] = pow(b, e, P)
            c = c * env[k] % P
        r += c
    return r % P


def same_poly(a, b):
    """equality for all points on the curve; different values at one choice of points refute it"""
    d = padd(a, b, -1)
    return not at_points(d) and not on_curve(d)


class Form:
    """a point as a combination of known points: the affine sum of coefficient * input"""


class PointSummary:
    def __init__(self, outs):
        self.outs = outs          # [(where, kind, type, form, bounds)]


class Points:
    """what the functions on curve points compute"""

    def __init__(self, field):
        self.field = field
        self.prog = field.prog
        self.shape = field.shape
        self.kinds = {}
        ext = self.extended()
        for i, t in enumerate(self.prog.types):
            if t['k'] == 'adt' and t.get('local'):
                cs = self.shape.point(i)
                if cs is None:
                    continue
                kind, names = self.kind_of(cs, t['p'] == ext)
                if kind:
                    self.kinds[i] = (kind, names, t['p'], [f[1] for f in self.shape.fields(i)])
        self.sigs = {}
        self.sums = {}
        self.active = set()
        self.why = {}
        for f in self.prog.fns:
            if f['body'] and 'crypto' in f['p']:
                s = self.signature(f)
                if s:
                    self.sigs[f['key']] = (f, s)

    def extended(self):
        """the type of points with x, y, z and x*y/z: what the multiplication of the base point returns"""
        for f in self.prog.fns:
            if f['body'] and canon(f['p']).endswith('ge_scalarmult_base'):
                b = self.prog.bodies[f['key']]
                t = self.prog.types[b.locals[0] if isinstance(b.locals[0], int) else b.locals[0][0]]
                return t.get('p')
        raise Gap('the multiplication of the base point was not found')

    @staticmethod
    def kind_of(cs, ext):
        """representation of a point type, and which coordinate each of its fields holds"""
        if sorted(cs) == ['t', 'x', 'y', 'z']:
            return 'P3' if ext else 'P1P1', cs
        for kind in ('P2', 'Cached', 'Precomp'):
            if sorted(cs) == sorted(COORDS[kind]):
                return kind, cs
        # other names: by number, in the usual order
        if ext and len(cs) == 4:
            return 'P3', list(COORDS['P3'])
        if len(cs) == 4:
            return 'Cached', list(COORDS['Cached'])
        if len(cs) == 3:
            return 'Precomp', list(COORDS['Precomp'])
        return None, None

    def signature(self, f):
        b = self.prog.bodies.get(f['key'])
        if b is None:
            return None
        sig = []
        for i in range(b.argc):
            ti = b.locals[i + 1]
            ti = ti if isinstance(ti, int) else ti[0]
            si, t, k = strip(self.prog, ti)
            if si in self.kinds:
                sig.append(('M' if k == '&mut' else 'G', si, k))
            elif k != '&mut' and t['k'] == 'uint' and t['n'] == 'u8' or t['k'] == 'bool' and k != '&mut':
                sig.append(('C', si, k))
            else:
                return None
        ri = b.locals[0]
        ri = ri if isinstance(ri, int) else ri[0]
        rt = self.prog.types[ri]
        if ri in self.kinds:
            return sig, ('G', ri)
        if rt['k'] == 'tuple' and not rt['f'] and any(s[0] == 'M' for s in sig):
            return sig, (None, ri)
        return None

    # ------------------------------------------------------------ representations
    @staticmethod
    def rep(kind, i):
        x, y, z, t = (pvar((c, i)) for c in 'xyzt')
        if kind == 'P2':
            return {'x': pmul(x, z), 'y': pmul(y, z), 'z': z}
        if kind == 'P3':
            return {'x': pmul(x, z), 'y': pmul(y, z), 'z': z, 't': pmul(pmul(x, y), z)}
        if kind == 'P1P1':
            return {'x': pmul(x, z), 'y': pmul(y, t), 'z': z, 't': t}
        s, d, k = padd(y, x), padd(y, x, -1), pmul(pconst(2 * D), pmul(x, y))
        if kind == 'Cached':
            return {'y_plus_x': pmul(s, z), 'y_minus_x': pmul(d, z), 'z': z, 't2d': pmul(k, z)}
        return {'y_plus_x': s, 'y_minus_x': d, 'xy2d': k}

    @staticmethod
    def affine(kind, c):
        """((x numerator, denominator), (y numerator, denominator), consistent) of coordinates"""
        one = pconst(1)
        if kind == 'P2':
            return (c['x'], c['z']), (c['y'], c['z']), True
        if kind == 'P3':
            return (c['x'], c['z']), (c['y'], c['z']), same_poly(pmul(c['t'], c['z']), pmul(c['x'], c['y']))
        if kind == 'P1P1':
            return (c['x'], c['z']), (c['y'], c['t']), True
        h = pconst(HALF)
        x = pmul(h, padd(c['y_plus_x'], c['y_minus_x'], -1))
        y = pmul(h, padd(c['y_plus_x'], c['y_minus_x']))
        z = c['z'] if kind == 'Cached' else one
        k = c['t2d'] if kind == 'Cached' else c['xy2d']
        return (x, z), (y, z), same_poly(pmul(k, z), pmul(pconst(2 * D), pmul(x, y)))

    @staticmethod
    def law(form):
        """affine coordinates of a sum of at most two of +-input, as (numerator, denominator) pairs"""
        pts = []
        for (_, i), k in sorted(form.items()):
            x, y = pvar(('x', i)), pvar(('y', i))
            if k < 0:
                x = padd({}, x, -1)
            pts += [(x, y)] * abs(k)
        if not pts:
            return ({}, pconst(1)), (pconst(1), pconst(1))
        if len(pts) == 1:
            return (pts[0][0], pconst(1)), (pts[0][1], pconst(1))
        (x1, y1), (x2, y2) = pts
        k = pmul(pconst(D), pmul(pmul(x1, x2), pmul(y1, y2)))
        return ((padd(pmul(x1, y2), pmul(x2, y1)), padd(pconst(1), k)),
                (padd(pmul(y1, y2), pmul(x1, x2)), padd(pconst(1), k, -1)))

    @staticmethod
    def nonzero(z, dens):
        """is z a constant times input denominators times the denominators of the addition law (which never vanish)"""
        z = on_curve(z)
        if not z:
            return False
        for a in range(3):
            for b in range(3):
                r = pconst(1)
                for _ in range(a):
                    r = pmul(r, dens[0])
                for _ in range(b):
                    r = pmul(r, dens[1])
                r = on_curve(r)
                # strip the common power of the input denominators
                m0, c0 = min(z.items())
                zm = tuple(v for v in m0 if v[0][0] in 'zt')
                if any(tuple(v for v in m if v[0][0] in 'zt') != zm for m in z):
                    return False
                s = {tuple(v for v in m if v[0][0] not in 'zt'): c for m, c in z.items()}
                n0 = min(s)
                if n0 not in r:
                    continue
                k = s[n0] * pow(r[n0], P - 2, P) % P
                if s == on_curve(pmul(pconst(k), r)):
                    return True
        return False

    def classify(self, kind, c, n):
        """the combination of inputs a set of coordinates represents"""
        (xn, xd), (yn, yd), good = self.affine(kind, c)
        if not good:
            return None
        cands = [{}] + [{('v', i): k} for i in range(n) for k in (1, -1, 2, -2)]
        cands += [{('v', i): a, ('v', j): b} for i in range(n) for j in range(i + 1, n) for a in (1, -1) for b in (1, -1)]
        for f in cands:
            (rx, dx), (ry, dy) = self.law(f)
            if same_poly(pmul(xn, dx), pmul(rx, xd)) and same_poly(pmul(yn, dy), pmul(ry, yd)) \
                    and self.nonzero(xd, (dx, dy)) and self.nonzero(yd, (dx, dy)):
                return f
        return None

    # ------------------------------------------------------------ summaries
    def value(self, ti, elems):
        kind, cs, path, tys = self.kinds[ti]
        return agg(path, 0, *[self.shape.make(t, self.field.limbs(elems[c])) for c, t in zip(cs, tys)])

    def coords(self, ti, v):
        kind, cs, path, tys = self.kinds[ti]
        if not is_agg(v) or len(v.a) != 2 + len(cs):
            return None
        es = [self.field.read(x) for x in v.a[2:]]
        return None if any(e is None for e in es) else dict(zip(cs, es))

    def summary(self, key, bounds):
        k = (key, bounds)
        if k in self.sums:
            return self.sums[k]
        if key in self.active:
            return None
        self.active.add(key)
        r = None
        try:
            r = self.analyse(key, bounds)
        except (Unsupported, Budget, ValueError, Gap) as x:
            self.why[key] = str(x)
        finally:
            self.active.discard(key)
        self.sums[k] = r
        return r

    def analyse(self, key, bounds):
        f, (sig, ret) = self.sigs[key]
        eng = FieldEngine(self.field)
        st = State()
        args = []
        n = len(sig)
        bits = []
        for i, (k, ti, refk) in enumerate(sig):
            if k == 'C':
                v = eng.inp((i, 'bit'), 0, 1, 'bool' if self.prog.types[ti]['k'] == 'bool' else 'u8')
                bits.append(('bit', eng.pv(v).id))
            else:
                kind, cs, path, tys = self.kinds[ti]
                rep = self.rep(kind, i)
                v = self.value(ti, {c: self.field.elem(rep[c], bounds[i][j]) for j, c in enumerate(cs)})
            if refk:
                st.mem[mk('carg', i)] = v
                args.append(mk('ref', mk('carg', i), ()))
            else:
                args.append(v)
        outs = eng.run_body(st, self.prog.bodies[f['key']], args, mk('fr', canon(f['p'])))
        if len(outs) != 1 or eng.panics:
            raise Gap('%d outcomes, %d panics' % (len(outs), len(eng.panics)))
        s, v = outs[0]
        res = []
        vals = [('ret', ret[1], v)] if ret[0] else []
        vals += [(i, ti, s.mem[mk('carg', i)]) for i, (k, ti, refk) in enumerate(sig) if k == 'M']
        for where, ti, val in vals:
            es = self.coords(ti, val)
            if es is None:
                raise Gap('a coordinate is not a field operation on the inputs')
            kind, cs, path, tys = self.kinds[ti]
            if bits:
                forms = []
                for c in (0, 1):
                    sub = {b: pconst(c) for b in bits}
                    ps = {k: self.field.apply(e.p, Sub(sub)) for k, e in es.items()}
                    forms.append(self.classify(kind, ps, n))
                form = None if None in forms or len(bits) > 1 else ('select', [i for i, x in enumerate(sig) if x[0] == 'C'][0], forms[0], forms[1])
            else:
                form = self.classify(kind, {k: e.p for k, e in es.items()}, n)
            if form is None:
                raise Gap('the result is not a sum, difference or double of the inputs')
            res.append((where, ti, form, tuple(es[c].b for c in cs)))
        self.field.note(eng)
        return PointSummary(res)


class Sub(dict):
    """substitution that leaves other variables alone"""

    def __missing__(self, v):
        return pvar(v)


# ---------------------------------------------------------------- combinations of points
class GPoint:
    __slots__ = ('id', 'ti', 'form', 'bounds')


class GroupEngine(FieldEngine):
    """runs code on curve points; points are integer combinations of generators"""

    def __init__(self, points, digits=None, **opts):
        super().__init__(points.field, **opts)
        self.points = points
        self.tab = {}
        self.gps = []
        self.digits = digits or {}
        self.unread = []

    def form(self, parts):
        """sum of coefficient * form, without zero terms"""
        r = {}
        for f, k in parts:
            for g, c in f.items():
                c = self.dom.mul(c, k)
                r[g] = self.dom.add(r[g], c) if g in r else c
        return {g: c for g, c in r.items() if self.dom.constant(c) != 0}

    def point(self, ti, form, bounds):
        key = (ti, frozenset((g, c.id) for g, c in form.items()), bounds)
        p = self.tab.get(key)
        if p is None:
            p = self.tab[key] = GPoint()
            p.id, p.ti, p.form, p.bounds = len(self.gps), ti, form, bounds
            self.gps.append(p)
        kind, cs, path, tys = self.points.kinds[ti]
        sh = self.points.shape
        return agg(path, 0, *[sh.make(t, [mk('gl', p.id, c, i, ty='u64') for i in range(5)]) for c, t in zip(cs, tys)])

    def read_point(self, ti, v):
        """(form, bounds) of a value of a point type, or None"""
        kind, cs, path, tys = self.points.kinds[ti]
        if not is_agg(v) or len(v.a) != 2 + len(cs):
            return None
        ls = [self.points.shape.limbs(x) for x in v.a[2:]]
        if any(l is None for l in ls):
            return None
        ids = set()
        for c, l in zip(cs, ls):
            for i, x in enumerate(l):
                ids.add((x.a[0], x.a[1] == c and x.a[2] == i) if isT(x, 'gl') else None)
        if len(ids) == 1 and None not in ids:
            (pid, right), = ids
            p = self.gps[pid]
            if not right:
                return None
            ok = self.points.kinds[p.ti]
            if p.ti == ti or (ok[0], kind) == ('P3', 'P2'):
                return p.form, tuple(p.bounds[ok[1].index(c)] for c in cs)
            return None
        es = {}
        for c, x in zip(cs, v.a[2:]):
            e = self.read_elem(x)
            if e is None:
                return None
            es[c] = e
        if any(m for e in es.values() for m in e.p):
            return self.combination(kind, cs, es)
        n = self.multiple(kind, {c: e.p.get((), 0) for c, e in es.items()})
        if n is None:
            return None
        return ({'B': self.dom.const(n)} if n else {}), tuple(es[c].b for c in cs)

    def read_elem(self, v):
        ls = self.points.shape.limbs(v)
        if ls and all(isT(x, 'gl') for x in ls):
            if len({x.a[:2] for x in ls}) != 1 or any(x.a[2] != i for i, x in enumerate(ls)):
                return None
            p = self.gps[ls[0].a[0]]
            kind, cs, path, tys = self.points.kinds[p.ti]
            c = ls[0].a[1]
            return self.field.elem(self.points.rep(kind, 1000 + p.id)[c], p.bounds[cs.index(c)])
        return self.field.read(v)

    def combination(self, kind, cs, es):
        """(form, bounds) of coordinates computed from those of other points"""
        ids = sorted({v[1] for e in es.values() for m in e.p for v, _ in m if v[0] in 'xyzt' and isinstance(v[1], int) and v[1] >= 1000})
        if not 1 <= len(ids) <= 2:
            return None
        sub = {(c, i): pvar((c, k)) for c in 'xyzt' for k, i in enumerate(ids)}
        for e in es.values():
            if any(v not in sub for m in e.p for v, _ in m):
                return None
        ps = {c: self.field.apply(e.p, sub) for c, e in es.items()}
        f = self.points.classify(kind, ps, len(ids))
        if f is None:
            return None
        d = self.dom
        form = self.form([(self.gps[ids[i] - 1000].form, d.const(k)) for (_, i), k in f.items()])
        return form, tuple(es[c].b for c in cs)

    def multiple(self, kind, c):
        """n when constant coordinates denote n times the base point (|n| < 40)"""
        if kind in ('P2', 'P3', 'P1P1'):
            dx, dy = c['z'], c['t'] if kind == 'P1P1' else c['z']
            if dx == 0 or dy == 0:
                return None
            x, y = c['x'] * pow(dx, P - 2, P) % P, c['y'] * pow(dy, P - 2, P) % P
            if kind == 'P3' and (c['t'] * c['z'] - c['x'] * c['y']) % P:
                return None
        else:
            z = c['z'] if kind == 'Cached' else 1
            if z == 0:
                return None
            zi = pow(z, P - 2, P)
            x, y = (c['y_plus_x'] - c['y_minus_x']) * HALF * zi % P, (c['y_plus_x'] + c['y_minus_x']) * HALF * zi % P
            k = c['t2d'] * zi if kind == 'Cached' else c['xy2d']
            if (k - 2 * D * x * y) % P:
                return None
        return MULT.get((x, y))

    def call_fn(self, st, ci, args, fr, dty=None, argtys=None):
        key = ci.get('key')
        if key in self.points.sigs:
            r = self.group_call(st, key, args)
            if r is not None:
                return r
        if key in self.digits:
            x = self.whole(st, args[0])
            d = self.digits[key].get(x)
            if d is None:
                raise Gap('digits of an unexpected scalar')
            return [(st, sq_elems(list(d)))]
        return super().call_fn(st, ci, args, fr, dty, argtys)

    def group_call(self, st, key, args):
        f, (sig, ret) = self.points.sigs[key]
        if len(args) != len(sig):
            return None
        forms, bounds, bit = {}, [], None
        for i, ((k, ti, refk), a) in enumerate(zip(sig, args)):
            x = a
            while isT(x, 'ref'):
                x = self.load(st, x)
            if k == 'C':
                v = self.pv(x) if isinstance(x, (int, T)) else None
                if v is None or v.lo < 0 or v.hi > 1:
                    return None
                bit = v
                bounds.append(None)
                continue
            r = self.read_point(ti, x)
            if r is None:
                return None
            forms[('v', i)] = r[0]
            bounds.append(tuple(rounded(b) for b in r[1]))
        s = self.points.summary(key, tuple(bounds))
        if s is None:
            self.unread.append('%s: %s' % (canon(f['p']), self.points.why.get(key, 'not understood')))
            return None
        d = self.dom

        def combine(form):
            return self.form([(forms[v], d.const(c)) for v, c in form.items()])
        st = st.copy()
        res = UNIT
        for where, ti, form, bnds in s.outs:
            if isinstance(form, tuple):
                r0, r1 = combine(form[2]), combine(form[3])
                r = self.form([(r0, d.const(1)), (r1, bit), (r0, d.lin([(bit, -1)]))])
            else:
                r = combine(form)
            v = self.point(ti, r, bnds)
            if where == 'ret':
                res = v
            else:
                if not isT(args[where], 'ref'):
                    return None
                self.store(st, args[where], v)
        return [(st, res)]


# ---------------------------------------------------------------- evaluating conditions
class NZ:
    """some integer other than 0"""


NONZERO = NZ()


def ev(t, env, memo=None):
    """value of a term under an assignment of leaf terms: an integer, NONZERO, or None"""
    if isinstance(t, int):
        return t
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = memo[t] = ev1(t, env, memo)
    return r


def ev1(t, env, memo):
    if t in env:
        return env[t]
    op, a = t.op, t.a
    if op == 'at':
        f = env.get('at')
        return f(t) if f else None
    if op == 'k' and isinstance(a[0], int):
        return a[0]
    if op in ('bitand', 'bitor', 'bitxor', 'and', 'or'):
        vs = [ev(x, env, memo) for x in a]
        if op == 'bitor' or op == 'or':
            if any(v is NONZERO or (isinstance(v, int) and v) for v in vs) and not all(isinstance(v, int) for v in vs):
                return 1 if op == 'or' else NONZERO
        if op in ('bitand', 'and') and any(v == 0 for v in vs if isinstance(v, int)):
            return 0
        if not all(isinstance(v, int) for v in vs):
            return None
        r = vs[0]
        for v in vs[1:]:
            r = r & v if op in ('bitand', 'and') else r | v if op in ('bitor', 'or') else r ^ v
        return r
    if op == 'seqeq':
        w = env.get('whole')
        if w is None:
            return None
        xs = [elements(x) if isT(x, 'seq') else None for x in a]
        if any(x is None for x in xs) or len(xs[0]) != len(xs[1]):
            return None
        r = 1
        for x, y in zip(*xs):
            x, y = ev(x, env, memo), ev(y, env, memo)
            if not (isinstance(x, int) and isinstance(y, int)):
                r = None if r == 1 else r
            elif x != y:
                return 0
        return r
    if op == 'iszero':
        g = env.get('iszero')
        return g(a[0]) if g else None
    if op == 'not':
        v = ev(a[0], env, memo)
        return None if v is None else 0 if v is NONZERO or v else 1
    if op == 'eq':
        x, y = ev(a[0], env, memo), ev(a[1], env, memo)
        if isinstance(x, int) and isinstance(y, int):
            return int(x == y)
        if (x is NONZERO and y == 0) or (y is NONZERO and x == 0):
            return 0
        return None
    if op in ('b2i', 'conv', 'trunc'):
        v = ev(a[0], env, memo)
        if op == 'b2i' or not isinstance(v, int):
            return v if op != 'trunc' or isinstance(v, int) else None
        w = WID.get(t.ty)
        return v if w is None else v & ((1 << w) - 1)
    if op in ('shr', 'shl') and len(a) >= 2:
        v, k = ev(a[0], env, memo), ev(a[1], env, memo)
        if isinstance(v, int) and isinstance(k, int):
            return v >> k if op == 'shr' else (v << k) & ((1 << WID.get(t.ty, 64)) - 1)
        return None
    if op == 'lin':
        s = a[1]
        for x, k in a[0]:
            v = ev(x, env, memo)
            if not isinstance(v, int):
                return None
            s += k * v
        return s
    if op == 'ite':
        c = ev(a[0], env, memo)
        if c is None:
            return None
        return ev(a[1] if c is NONZERO or c else a[2], env, memo)
    if op in ('wadd', 'wsub', 'wmul'):
        x, y = ev(a[0], env, memo), ev(a[1], env, memo)
        if isinstance(x, int) and isinstance(y, int):
            r = x + y if op == 'wadd' else x - y if op == 'wsub' else x * y
            return r & ((1 << WID.get(t.ty, 64)) - 1)
        return None
    if op == 'lt':
        x, y = ev(a[0], env, memo), ev(a[1], env, memo)
        if isinstance(x, int) and isinstance(y, int):
            return int(x < y)
        if y is NONZERO and x == 0:
            return 1
    return None


def leaves(t, out):
    """the bytes a term depends on"""
    todo, done = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isT(x) and x not in done:
            done.add(x)
            if x.op == 'at':
                out.add(x)
            else:
                todo.extend(x.a)


class Scenario:
    """what is known about canonical encodings and input bytes: {base term: {byte index: candidate values} | 'nonzero'}"""

    def __init__(self, field):
        self.field = field
        self.zero = set()         # polynomials (by number) known to be zero
        self.nonzero = set()
        self.bits = {}            # at-term -> (mask, value): bits known
        self.env = {}
        self.memo = {}

    def eval(self, t):
        """integer, NONZERO or None"""
        if isinstance(t, int):
            return t
        v = ev(t, {'at': self.leaf, 'iszero': lambda n: 1 if n in self.zero else 0 if n in self.nonzero else None}, self.memo)
        if v is not None:
            return v
        # a combination of all bytes of one encoding: zero exactly when the element is
        if t.op == 'eq' and 0 in [x for x in t.a if isinstance(x, int)]:
            x = [y for y in t.a if not isinstance(y, int)]
            n = self.whole(x[0]) if x else None
            if n is not None:
                return 1 if n in self.zero else 0 if n in self.nonzero else None
        if t.op in ('not', 'and', 'or') and t.ty == 'bool' or t.op in ('not', 'and', 'or'):
            vs = [self.eval(x) for x in t.a]
            if t.op == 'not':
                return None if vs[0] is None else int(vs[0] == 0)
            if t.op == 'and':
                return 0 if 0 in vs else 1 if None not in vs else None
            return 1 if any(v is NONZERO or v == 1 for v in vs) else 0 if None not in vs else None
        # few bytes with known bits
        ls = set()
        leaves(t, ls)
        if 1 <= len(ls) <= 2:
            return self.by_values(t, sorted(ls, key=lambda x: x.id))
        return None

    def leaf(self, t):
        b = t.a[0]
        if isT(b, 'base') and isT(b.a[0], 'fenc') and b.a[0].a[0] in self.zero:
            return 0
        return None

    def whole(self, t):
        """number of the element all of whose bytes a term combines by or"""
        xs = set(t.a) if t.op == 'bitor' else None
        if xs is None:
            return None
        n = None
        js = set()
        for x in xs:
            while isT(x) and x.op in ('conv', 'trunc') and isT(x.a[0]):
                x = x.a[0]
            if not isT(x, 'at') or not isT(x.a[0], 'base') or not isT(x.a[0].a[0], 'fenc'):
                return None
            if n is not None and n != x.a[0].a[0].a[0]:
                return None
            n = x.a[0].a[0].a[0]
            js.add(x.a[1])
        return n if js == set(range(32)) else None

    def by_values(self, t, ls):
        vals = []
        for x in ls:
            m, v = self.bits.get(x, (0, 0))
            b = x.a[0]
            top = 128 if isT(b, 'base') and isT(b.a[0], 'fenc') and x.a[1] == 31 else 256
            vals.append([y for y in range(top) if y & m == v])
        out = set()
        for a in vals[0]:
            for b in (vals[1] if len(vals) > 1 else [None]):
                env = {ls[0]: a}
                if b is not None:
                    env[ls[1]] = b
                out.add(ev(t, env))
                if len(out) > 1:
                    return None
        return out.pop()

    def possible(self, st):
        """can an outcome with these facts happen"""
        for c, v in st.facts.items():
            x = self.eval(c)
            if x is None:
                continue
            x = 1 if x is NONZERO else x
            if isinstance(v, int) and x != v and not (x not in (0, 1) and v not in (0, 1) and x == v):
                return False
        return True


class Curve:
    """the functions of the curve module that the rest of the crate uses"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.field = Field(ctx)
        self.points = Points(self.field)
        self.fns = {}
        for f in ctx.prog.fns:
            if f['body'] and 'crypto' in f['p']:
                self.fns.setdefault(canon(f['p']).rsplit('::', 1)[-1] if '::' not in canon(f['p']) else '::'.join(canon(f['p']).split('::')[-2:]), []).append(f)
        self.P3 = [i for i, k in self.points.kinds.items() if k[0] == 'P3'][0]
        self.P2 = [i for i, k in self.points.kinds.items() if k[0] == 'P2'][0]

    def fn(self, name):
        xs = self.fns.get(name, [])
        if len(xs) != 1:
            raise Gap('function %s not found' % name)
        return xs[0]

    def body(self, f):
        return self.ctx.prog.bodies[f['key']]

    def reasons(self, eng=None):
        r = list(dict.fromkeys(eng.unread))[:2] if eng is not None and hasattr(eng, 'unread') else []
        for k, w in list(self.field.why.items())[:40]:
            if 'may panic' in w:
                r.append('%s %s' % (canon(self.field.sigs[k][0]['p']), w))
        return '; '.join(r[:3])

    # ------------------------------------------------------------ scalars
    def scalar(self, name):
        """(out, wanted) of a scalar function as polynomials in its input bytes, or None"""
        f = self.fn(name)
        dom = Poly()
        panics = []
        eng = PolyEngine(self.ctx.prog, dom, primitives={}, hook=lambda k, st, d, site: panics.append(d) if k == 'panic' else None,
                         opts={'max_steps': 200000, 'unroll': 1 << 12, 'unrollall': 1})
        st = State()
        lens = (64,) if name == 'sc_reduce' else (32, 32, 32, 32)
        args, ins = [], []
        if self.body(f).argc != len(lens):
            raise Gap('%s takes %d arguments' % (name, self.body(f).argc))
        for k, n in enumerate(lens):
            es = [eng.inp((k, i), 0, 255, 'u8') for i in range(n)]
            st.mem[mk('carg', k)] = sq_elems(es)
            args.append(mk('ref', mk('carg', k), ()))
            ins.append(dom.lin([(eng.pv(x), 1 << (8 * i)) for i, x in enumerate(es)]))
        outs = eng.run_body(st, self.body(f), args, mk('fr', name))
        self.field.note(eng)
        if len(outs) != 1:
            raise Gap('%s has %d outcomes' % (name, len(outs)))
        es = elements(outs[0][0].mem[mk('carg', 0)])
        if es is None or len(es) != lens[0]:
            raise Gap('%s: bytes of the result unknown' % name)
        xs = [eng.pv(x) for x in es[:32]]
        if any(x is None or x.lo < 0 or x.hi > 255 for x in xs):
            raise Gap('%s: bytes of the result unknown' % name)
        want = ins[0] if name == 'sc_reduce' else dom.add(dom.mul(ins[1], ins[2]), ins[3])
        return dom, xs, want, panics


def tight_range(dom, p, steps=4000):
    """interval of an integer polynomial: the best of the termwise intervals while remainders are replaced from the last
    one down by what they are remainders of"""
    lo, hi = dom.span(p)
    p = dict(p)
    for _ in range(steps):
        ms = [m[0] for m in p if len(m) == 1 and dom.atoms[m[0]].kind == 'm']
        if not ms:
            break
        i = max(ms)
        c = p.pop((i,))
        a = dom.atoms[i]
        q = dom.quo(a.of, a.k)
        for src, k in ((a.of.p, c), (q.p, -(c << a.k))):
            for m, x in src.items():
                y = p.get(m, 0) + k * x
                if y:
                    p[m] = y
                else:
                    p.pop(m, None)
        l, h = dom.span(p)
        lo, hi = max(lo, l), min(hi, h)
    return lo, hi


DIGITS = [0] + [x for k in range(1, 16, 2) for x in (k, -k)]
TB = (TIGHT,) * 5


def widest(bs):
    """elementwise largest bounds"""
    bs = list(bs)
    return tuple(tuple(max(b[c][i] for b in bs) for i in range(5)) for c in range(len(bs[0])))


def check_scalar(cv, name, what):
    ctx = cv.ctx
    dom, xs, want, panics = cv.scalar(name)
    ctx.ob(not panics, name, 'never panics', str(panics[:1])[:120])
    out = dom.lin([(x, 1 << (8 * i)) for i, x in enumerate(xs)])
    r = dom.congruent(out, want, L)
    # the last byte is cut to eight bits: out = T - 2^256 * Z for integers T, Z; T = want modulo L
    p = dict(out.p)
    rest = {}
    n256 = pow(2, 256, L)
    for m, c in r.items():
        k = next((k for k in (1, -1, 2, -2) if len(m) == 1 and (c + k * n256) % L == 0), None)
        if k is None:
            rest[m] = c
        else:
            p[m] = p.get(m, 0) + (k << 256)
    ctx.ob(not rest, name, what, '%d terms of the difference are not multiples of the group order' % len(rest))
    if rest:
        return
    lo, hi = tight_range(dom, p)
    ctx.ob(0 <= lo and hi < L, name, 'the result is the least residue', 'between %#x and %#x' % (lo, hi))


def check_base(cv):
    """ge_scalarmult_base; returns the bounds of the result"""
    ctx = cv.ctx
    f = cv.fn('ge_scalarmult_base')
    eng = GroupEngine(cv.points)
    es = [eng.inp(('s', j), 0, 255, 'u8') for j in range(32)]
    outs = eng.run_body(State(), cv.body(f), [mk('ref', ('const', sq_elems(es)), ())], mk('fr', 'base'))
    cv.field.note(eng)
    want = eng.dom.lin([(eng.pv(x), 1 << (8 * j)) for j, x in enumerate(es)])
    bs = []
    ctx.ob(bool(outs) and not eng.panics, 'ge_scalarmult_base', 'never panics', cv.reasons(eng))
    for st, v in outs:
        r = eng.read_point(cv.P3, v)
        good = r is not None and set(r[0]) <= {'B'} and len(outs) == 1 and not eng.dom.expand(eng.dom.sub(r[0].get('B', eng.dom.const(0)), want))
        ctx.ob(good, 'ge_scalarmult_base', 'the result is scalar times base point', cv.reasons(eng) or ('unknown point' if r is None else 'another multiple'))
        if r is not None:
            bs.append(tuple(rounded(b) for b in r[1]))
    return widest(bs) if bs else None


def slides(cv):
    """functions that turn a scalar into 256 signed digits"""
    r = []
    for f in cv.ctx.prog.fns:
        if f['body'] and 'crypto' in f['p']:
            b = cv.body(f)
            if b is None or b.argc != 1:
                continue
            t0 = b.locals[0] if isinstance(b.locals[0], int) else b.locals[0][0]
            t1 = b.locals[1] if isinstance(b.locals[1], int) else b.locals[1][0]
            if array_of(cv.ctx.prog, cv.ctx.prog.types[t0], 'i8', 256):
                _, t, k = strip(cv.ctx.prog, t1)
                if t['k'] in ('slice', 'array'):
                    r.append(f['key'])
    return r


def dsm_runs(thorough):
    """digit sequences: every digit of either scalar at every position, and every position of the first digit"""
    runs = [([0] * 256, [0] * 256)]
    n = len(DIGITS)
    if thorough:
        for r in range(n):
            for q in range(n):
                runs.append(([DIGITS[(r + k) % n] for k in range(256)], [DIGITS[(q + k // n + k) % n] for k in range(256)]))
    else:
        for r in range(n):
            runs.append(([DIGITS[(r + k) % n] for k in range(256)], [DIGITS[(r + 5 * k + k // n) % n] for k in range(256)]))
    starts = range(256) if thorough else (0, 1, 2, 7, 8, 64, 127, 200, 253, 254)
    for s in starts:
        z = [0] * (255 - s)
        runs.append(([DIGITS[(s + 3 * k) % n] for k in range(s)] + [3] + z, [DIGITS[(s + k) % n] for k in range(s)] + [0] + z))
        runs.append(([DIGITS[(s + k) % n] for k in range(s)] + [0] + z, [DIGITS[(s + 7 * k) % n] for k in range(s)] + [-5] + z))
    return runs


def check_double(cv, abounds):
    """GeP2::double_scalarmult_vartime after the recoding into digits; returns the bounds of the result"""
    ctx = cv.ctx
    f = cv.fn('GeP2::double_scalarmult_vartime')
    sl = slides(cv)
    if len(sl) != 1:
        raise Gap('the function that recodes a scalar into digits was not found')
    A = mkseq([('o', mk('base', mk('scalar', 'a'), 32), 0, 32)])
    B = mkseq([('o', mk('base', mk('scalar', 'b'), 32), 0, 32)])
    bs = []
    for da, db in dsm_runs(ctx.tier == 'thorough'):
        eng = GroupEngine(cv.points, digits={sl[0]: {A: da, B: db}})
        eng.tests = []
        pt = eng.point(cv.P3, {'A': eng.dom.const(1)}, abounds)
        outs = eng.run_body(State(), cv.body(f), [mk('ref', ('const', A), ()), pt, mk('ref', ('const', B), ())], mk('fr', 'dsm'))
        cv.field.note(eng)
        good = len(outs) == 1 and not eng.panics
        why = cv.reasons(eng)
        r = eng.read_point(cv.P2, outs[0][1]) if len(outs) == 1 else None
        if r is None:
            good = False
        else:
            bs.append(tuple(rounded(b) for b in r[1]))
            for g, d in (('A', da), ('B', db)):
                c = eng.dom.constant(r[0].get(g, eng.dom.const(0)))
                if c != sum(x << i for i, x in enumerate(d)):
                    good = False
                    why = why or 'wrong multiple of %s' % g
            if set(r[0]) - {'A', 'B'}:
                good = False
        ctx.ob(good, 'GeP2::double_scalarmult_vartime', 'the result is the sum of the digits times the points', why or 'unknown point')
        if not good:
            break
    return widest(bs) if bs else None


def check_encode(cv, name, ti, bounds):
    ctx = cv.ctx
    F = cv.field
    f = cv.fn(name)
    kind, cs, path, tys = cv.points.kinds[ti]
    es = {c: F.elem(pvar(('pt', c)), bounds[j]) for j, c in enumerate(cs)}
    eng = FieldEngine(F)
    st = State()
    st.mem[mk('carg', 0)] = cv.points.value(ti, es)
    outs = eng.run_body(st, cv.body(f), [mk('ref', mk('carg', 0), ())], mk('fr', name))
    F.note(eng)
    zi = F.power(es['z'].p, P - 2)
    nx, ny = F.number(pmul(es['x'].p, zi)), F.number(pmul(es['y'].p, zi))
    bx, by = mk('base', mk('fenc', nx), 32), mk('base', mk('fenc', ny), 32)
    x0, y31 = mk('at', bx, 0), mk('at', by, 31)
    ctx.ob(bool(outs) and not eng.panics, name, 'never panics', cv.reasons())
    for b in (0, 1):
        sc = Scenario(F)
        sc.bits[x0] = sc.bits[mk('at', bx, 0, ty='u8')] = (1, b)
        seen = 0
        for st, v in outs:
            if not sc.possible(st):
                continue
            seen += 1
            e = elements(v) if isT(v, 'seq') else None
            good = e is not None and len(e) == 32 and all(isT(x, 'at') and x.a[0] is by and x.a[1] == j for j, x in enumerate(e[:31]))
            if good:
                ls = set()
                leaves(e[31], ls)
                good = all(x.a[0] in (bx, by) and (x.a[0], x.a[1]) in ((bx, 0), (by, 31)) for x in ls) and bool(ls)
            if good:
                lx = [x for x in ls if x.a[0] is bx]
                ly = [x for x in ls if x.a[0] is by]
                for y in range(128):
                    for x in ([b | 2 * k for k in range(128)] if lx else [b]):
                        if ev(e[31], {**{t: x for t in lx}, **{t: y for t in ly}}) != y | b << 7:
                            good = False
            ctx.ob(good, name, 'the encoding is that of y with the parity of x on top', cv.reasons() or 'parity of x %d' % b)
        ctx.ob(seen > 0, name, 'some outcome for every point', '')


def check_decode(cv):
    """GeP3::from_bytes_negate_vartime; returns the bounds of accepted points"""
    ctx = cv.ctx
    F = cv.field
    name = 'GeP3::from_bytes_negate_vartime'
    f = cv.fn(name)
    base = mk('base', mk('input'), 32)
    s = mkseq([('o', base, 0, 32)])
    eng = FieldEngine(F)
    outs = eng.run_body(State(), cv.body(f), [mk('ref', ('const', s), ())], mk('fr', name))
    F.note(eng)
    ctx.ob(bool(outs) and not eng.panics, name, 'never panics on 32 bytes', cv.reasons())
    es = elements(s)
    y = pvar(('dec', mkseq([('e', tuple(es))]).id))
    one = pconst(1)
    y2 = pmul(y, y)
    u, v = padd(y2, one, -1), padd(pmul(pconst(D), y2), one)
    v3 = pmul(pmul(v, v), v)
    c = pmul(pmul(F.power(pmul(pmul(v3, v3), pmul(v, u)), (P - 5) // 8), v3), u)
    vcc = pmul(v, pmul(c, c))
    neg = lambda p: padd({}, p, -1)
    tests = [padd(vcc, u, -1), padd(vcc, u)]
    n1, n2 = [{F.number(t), F.number(neg(t))} for t in tests]
    top = next((x for x in es[31:32]), None)
    bs = []
    some = 0
    for case, x0 in (('square', c), ('minus square', pmul(c, pconst(SQRTM1))), ('none', None)):
        for zero in ((False, True) if case == 'square' else (False,)):
            for b in ((0, 1) if case != 'none' and not zero else (0,)):
                for sign in (0, 1):
                    sc = Scenario(F)
                    sc.bits[top] = (128, sign << 7)
                    (sc.zero if case == 'square' else sc.nonzero).update(n1)
                    (sc.zero if case == 'minus square' or zero else sc.nonzero).update(n2)
                    if x0 is not None:
                        for p, q in ((x0, b), (neg(x0), 1 - b)):
                            n = F.number(p)
                            if zero:
                                sc.zero.add(n)
                            else:
                                sc.nonzero.add(n)
                                for ty in (None, 'u8'):
                                    sc.bits[mk('at', mk('base', mk('fenc', n), 32), 0) if ty is None else mk('at', mk('base', mk('fenc', n), 32), 0, ty=ty)] = (1, q)
                    seen = 0
                    for st, val in outs:
                        if not sc.possible(st):
                            continue
                        seen += 1
                        okv = is_agg(val) and val.a[0].endswith('Option')
                        if case == 'none':
                            ctx.ob(okv and val.a[1] == 0, name, 'bytes of no point are refused', cv.reasons() or 'accepted')
                            continue
                        es3 = cv.points.coords(cv.P3, val.a[2]) if okv and val.a[1] == 1 else None
                        if es3 is None:
                            ctx.ob(False, name, 'bytes of a point give its negative', cv.reasons() or 'refused or unknown (%s)' % case)
                            continue
                        q = {k: e.p for k, e in es3.items()}
                        good = q['y'] == y and q['z'] == one and q['t'] == pmul(q['x'], y) and q['x'] in (x0, neg(x0))
                        if good and not zero:
                            par = b if q['x'] == x0 else 1 - b
                            good = par == 1 - sign
                        ctx.ob(good, name, 'bytes of a point give its negative', cv.reasons() or '%s, parity %d, sign bit %d' % (case, b, sign))
                        some += 1
                        bs.append(tuple(rounded(es3[k].b) for k in cv.points.kinds[cv.P3][1]))
                    ctx.ob(seen > 0, name, 'some outcome for every input', case)
    return widest(bs) if bs else None


def check_identity(cv):
    ctx = cv.ctx
    F = cv.field
    f = cv.fn('is_identity')
    base = mk('base', mk('input'), 32)
    s = mkseq([('o', base, 0, 32)])
    eng = FieldEngine(F)
    outs = eng.run_body(State(), cv.body(f), [mk('ref', ('const', s), ())], mk('fr', 'is_identity'))
    F.note(eng)
    ctx.ob(bool(outs) and not eng.panics, 'is_identity', 'never panics on 32 bytes', cv.reasons())
    n = F.number(pvar(('dec', mkseq([('e', tuple(elements(s)))]).id)))
    b = mk('base', mk('fenc', n), 32)

    one = {j: int(j == 0) for j in range(32)}
    ctx.ob(decides(outs, b, one, 1), 'is_identity', 'true for every encoding of y = 1', cv.reasons() or 'not true')
    for j in range(32):
        good = all(decides(outs, b, {j: x}, 0) for x in range(128 if j == 31 else 256) if x != one[j])
        ctx.ob(good, 'is_identity', 'false for every other y', cv.reasons() or 'byte %d of the reduced y' % j)


def c31(ctx):
    """Interprets the MIR of the curve module in layers of abstract domains and compares normal forms with the definitions.  Machine
    integers are integer polynomials in the input bytes or limbs, with intervals, floors and remainders by powers of two as further
    atoms, so that carries, masks and possible wrap-around are represented exactly: the scalar functions are decided in this domain
    (congruence modulo the group order by coefficients, least residue by intervals), and so is every function on field elements that works
    on limbs (congruence modulo 2^255-19, limb bounds of the result).  Functions composed of those are polynomials over the field; point
    formulas are compared with the addition law modulo the curve equation (with denominators that cannot vanish).  Functions composed of those
    are integer combinations of points: the base point multiplication must give coefficient sum of byte_j * 256^j for symbolic bytes, the double
    multiplication the combination its digits define.  Encoding and decoding are decided by cases on the zero tests and parities they make.
    Limb bounds are carried through all calls, so an operand that a function cannot take is found.  The loop that recodes a scalar (below 2^255)
    into digits is decided by induction: one trip from an arbitrary state (bits of the scalar from the position on, finished digits below, the
    bits that branches test split into cases) leaves a digit that is 0 or odd in -15..15, and digits and remaining bits sum to the same number."""
    cv = Curve(ctx)
    check_scalar(cv, 'sc_reduce', 'the result is the input modulo the group order')
    check_scalar(cv, 'sc_muladd', 'the result is a*b+c modulo the group order')

    def step(name, f, *a):
        try:
            return f(cv, *a)
        except (Unsupported, Budget, ValueError, Gap) as x:
            ctx.ob(False, name, 'analysed', '%s; %s' % (str(x)[:200], cv.reasons()))
    bb = step('ge_scalarmult_base', check_base)
    ab = step('GeP3::from_bytes_negate_vartime', check_decode)
    rb = step('GeP2::double_scalarmult_vartime', check_double, ab or (TB,) * 4)
    from .rules_slide import check_recoding
    for k in slides(cv):
        f = next(f for f in ctx.prog.fns if f['key'] == k)
        ctx.notes.append(step(canon(f['p']), lambda cv: check_recoding(ctx, cv.body(f), canon(f['p']))) or 'recoding not analysed')
    step('GeP3::to_bytes', check_encode, 'GeP3::to_bytes', cv.P3, bb or (TB,) * 4)
    step('GeP2::to_bytes', check_encode, 'GeP2::to_bytes', cv.P2, rb or (TB,) * 3)
    step('is_identity', check_identity)
    for F in (cv.field.sums, cv.points.sums):
        for k, s in F.items():
            if s is not None:
                ctx.fns.add(k[0])
    ctx.notes.append('%d functions on field elements, %d on points have a known effect' % (
        len({k[0] for k, s in cv.field.sums.items() if s}), len({k[0] for k, s in cv.points.sums.items() if s})))
