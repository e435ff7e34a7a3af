"""Interprocedural abstract interpreter over MIR.

A forward dataflow analysis: states (memory of value terms + known facts +
ghost state) flow through the control-flow graph in reverse postorder, are
joined at merge points whenever they only differ in what is known about them
(facts are intersected, ranges hulled), loops are unrolled while their exits
are decided by constants and otherwise brought to a fixpoint by
anti-unification with an inductive check.  Calls are analysed in context
(callee bodies are evaluated on the abstract arguments) or through a model.
"""
import sys
from .terms import *
from .terms import mk, isT

sys.setrecursionlimit(200000)

OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'
INF = 1 << 200
USIZE_MAX = (1 << 64) - 1
LENMAX = (1 << 63) - 1

TYR = {}
for _w in (8, 16, 32, 64, 128):
    TYR['u%d' % _w] = (0, (1 << _w) - 1)
    TYR['i%d' % _w] = (-(1 << (_w - 1)), (1 << (_w - 1)) - 1)
TYR['usize'] = TYR['u64']
TYR['isize'] = TYR['i64']
TYR['bool'] = (0, 1)
TYR['char'] = (0, 0x10ffff)
WID = {k: (8 if k == 'bool' else 32 if k == 'char' else 64 if k in ('usize', 'isize') else int(k[1:])) for k in TYR}


def signed(t):
    return t[0] == 'i'


def wrap(n, t):
    if t == 'bool':
        return n & 1
    w = WID[t]
    n &= (1 << w) - 1
    if signed(t) and n >> (w - 1):
        n -= 1 << w
    return n


def some(v):
    return mk('agg', OPT, 1, v)


NONE = mk('agg', OPT, 0)
UNIT = mk('agg', '()', 0)


def ok(v):
    return mk('agg', RES, 0, v)


def err(v):
    return mk('agg', RES, 1, v)


def tup(*v):
    return mk('agg', '()', 0, *v)


def agg(name, variant, *f):
    return mk('agg', name, variant, *f)


def is_agg(v, name=None, variant=None):
    return isT(v, 'agg') and (name is None or v.a[0] == name) and (variant is None or v.a[1] == variant)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class State:
    __slots__ = ('mem', 'facts', 'rng', 'lins', 'gh', 'ev', 'ctr')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.rng = {}
        self.lins = frozenset()
        self.gh = {}
        self.ev = ()
        self.ctr = 0

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.rng = dict(self.rng)
        s.lins = self.lins
        s.gh = dict(self.gh)
        s.ev = self.ev
        s.ctr = self.ctr
        return s

    def fresh(self, *parts, ty=None):
        self.ctr += 1
        return mk('sym', *parts, self.ctr, ty=ty)


def gh_default(k):
    if k[0] == 'pos':
        return mk('start', k[1], ty='u64')
    if k[0] == 'out':
        return EMPTY
    return 0


LIFT_OPS = ('at', 'len', 'bitxor', 'byteof')


def name_of(ci):
    return ci.get('r') or ci['p']


class Engine:
    def __init__(self, prog, primitives=None, hook=None, opts=None):
        from . import models
        self.prog = prog
        self.prim = primitives if primitives is not None else models.LOCAL_PRIMS
        self.models = models
        self.hook = hook or (lambda kind, st, *d: None)
        self.opts = opts or {}
        self.fninfo = []
        self.fnidx = {}
        self.unmodelled = {}
        self.steps = 0
        self.max_steps = self.opts.get('max_steps', 6000000)
        self.rawmem = bool(self.opts.get('rawmem'))
        self.frames = {}
        self.callterm = None
        self.visited_fns = set()
        self.visited_blocks = set()
        self.callstack = []
        self.site = None
        self.loop_notes = []
        self.recs = {}           # loop id -> (generalised head state, trips)
        self.lenmax = {}
        self.watch = bool(self.opts.get('watch'))      # report branches, indices and calls to the hook
        self.maxloop = self.opts.get('unroll', 300)
        self.returns = 0
        self.bytecases = set()   # single bytes whose functions are evaluated value by value
        self.bytememo = {}
        self.leafmemo = {}
        self.quiet_panic = 0

    # ------------------------------------------------------------ one-byte functions and types
    def by_cases(self, xs):
        """follow integer expressions of these single bytes value by value"""
        self.bytecases |= set(xs)

    def T_(self, i):
        return self.prog.types[i]

    def scalar_name(self, ti):
        t = self.prog.types[ti]
        k = t['k']
        if k in ('int', 'uint'):
            return t['n']
        if k == 'bool':
            return 'bool'
        if k == 'char':
            return 'char'
        return None

    def is_seq_adt(self, t):
        return t['k'] == 'adt' and t['p'] in ('std::string::String', 'std::vec::Vec')

    def make_value(self, ti, nm):
        """an unknown value of the given type, named by the term nm"""
        if ti is None:
            return mk('symadt', nm, ty=None)
        t = self.prog.types[ti]
        k = t['k']
        sn = self.scalar_name(ti)
        if sn:
            return mk(nm.op, *nm.a, ty=sn)
        if k == 'array':
            n = t['l'] if t['l'] is not None else mk('len', nm, ty='usize')
            return self.sym_seq(nm, n, t['e'])
        if k in ('slice', 'str') or self.is_seq_adt(t):
            e = t.get('e') if k == 'slice' else (t['a'][0] if self.is_seq_adt(t) and t['a'] else None)
            w = WID.get(self.scalar_name(e), 8) if e is not None and k == 'slice' else 8
            if w > 8:       # no slice is larger than isize::MAX bytes
                self.lenmax[mk('len', nm, ty='usize')] = LENMAX // (w // 8)
            return self.sym_seq(nm, mk('len', nm, ty='usize'), e)
        if k in ('ref', 'ptr'):
            return mk('ref', ('sym', nm, t['e']), ())
        if k == 'tuple':
            return agg('()', 0, *[self.make_value(f, mk('fld', nm, 0, i)) for i, f in enumerate(t['f'])])
        if k == 'adt' and t['ak'] == 'struct' and t['local'] and t['v'] and all(f[1] is not None for f in t['v'][0]['f']):
            return agg(t['p'], 0, *[self.make_value(f[1], mk('fld', nm, 0, i)) for i, f in enumerate(t['v'][0]['f'])])
        return mk('symadt', nm, ty=ti)

    def sym_seq(self, nm, n, ety):
        et = None
        if ety is not None and self.scalar_name(ety) != 'u8':
            et = ety
        b = mk('base', nm, n, ty=et)
        return mkseq([('o', b, 0, n)])

    def at_value(self, a):
        """typed view of an element term"""
        base = a.a[0]
        if isT(base, 'base') and base.ty is not None:
            return self.make_value(base.ty, a)
        return a

    # ------------------------------------------------------------ one-byte functions
    def leaf(self, t):
        """the only unknown byte an integer term depends on; None for constants, False when there are several or it is opaque"""
        if isinstance(t, int):
            return None
        r = self.leafmemo.get(t)
        if r is None and t not in self.leafmemo:
            r = None
            if t.op == 'at':
                r = t if self.width(t) == 8 else False
            elif t.op == 'lin':
                xs = [x for x, _ in t.a[0]]
            elif t.op in ('byteof', 'shr', 'shl', 'cat', 'bitand', 'bitor', 'bitxor', 'wadd', 'wsub', 'wmul', 'conv', 'trunc', 'b2i', 'eq', 'not') \
                    and all(isinstance(x, (int, T)) for x in t.a) and (t.op in ('byteof', 'lin', 'eq', 'not') or isinstance(t.ty, str)):
                xs = t.a
            else:
                r = False
            if r is None:
                for x in xs:
                    y = self.leaf(x)
                    if y is None:
                        continue
                    if y is False or (r is not None and r is not y):
                        r = False
                        break
                    r = y
            self.leafmemo[t] = r
        return r

    def byte_value(self, t, x, v):
        """value of a term when the only byte it depends on is v"""
        if isinstance(t, int):
            return t
        if t is x:
            return v
        op = t.op
        if op == 'lin':
            return t.a[1] + sum(c * self.byte_value(y, x, v) for y, c in t.a[0])
        a = [self.byte_value(y, x, v) for y in t.a]
        if op == 'byteof':
            return (a[0] >> (8 * a[1])) & 255
        if op == 'eq':
            return int(a[0] == a[1])
        if op == 'not':
            return 1 - a[0]
        if op == 'shr':
            r = a[0] >> a[1]
        elif op == 'shl':
            r = a[0] << a[1]
        elif op == 'cat':
            r = sum(y << (8 * i) for i, y in enumerate(a))
        elif op in ('conv', 'trunc', 'b2i'):
            r = a[0]
        elif op in ('wadd', 'wsub', 'wmul'):
            r = a[0] + a[1] if op == 'wadd' else a[0] - a[1] if op == 'wsub' else a[0] * a[1]
        else:
            r = a[0]
            for y in a[1:]:
                r = r & y if op == 'bitand' else r | y if op == 'bitor' else r ^ y
        return wrap(r, t.ty)

    # ------------------------------------------------------------ ranges
    def trange(self, st, t):
        if isinstance(t, int):
            return (t, t)
        r = st.rng.get(t)
        if r is not None:
            return r
        f = st.facts.get(t)
        if f is not None:
            return (f, f)
        if self.bytecases and t.op != 'at':
            x = self.leaf(t)
            if x in self.bytecases:
                lo, hi = self.trange(st, x)
                k = (t, lo, hi)
                r = self.bytememo.get(k)
                if r is None:
                    vs = [self.byte_value(t, x, v) for v in range(lo, hi + 1)]
                    r = self.bytememo[k] = (min(vs), max(vs)) if vs else (0, 0)
                return r
        op = t.op
        if op == 'lin':
            lo = hi = t.a[1]
            for x, c in t.a[0]:
                a, b = self.trange(st, x)
                if c > 0:
                    lo += c * a
                    hi += c * b
                else:
                    lo += c * b
                    hi += c * a
            return (lo, hi)
        if op in ('len', 'slen'):
            return (0, self.lenmax.get(t, LENMAX))
        if op == 'start':
            return (0, LENMAX)
        if op in ('at',):
            b = t.a[0]
            if b.ty is None:
                return (0, 255)
            n = self.scalar_name(b.ty)
            return TYR[n] if n else (-INF, INF)
        if op == 'byteof':
            return (0, 255)
        if op == 'cat':
            lo = hi = 0
            if signed(t.ty):
                top = t.a[-1]
                if not isinstance(top, int) or top > 127:
                    return TYR[t.ty]
            for i, x in enumerate(t.a):
                a, b = self.trange(st, x)
                lo += a << (8 * i)
                hi += b << (8 * i)
            return (lo, hi)
        if op in ('eq', 'lt', 'le', 'not', 'seqeq', 'isid', 'isPt'):
            return (0, 1)
        base = TYR.get(t.ty, (-INF, INF)) if isinstance(t.ty, str) else (-INF, INF)
        if op == 'bitand':
            rs = [self.trange(st, x) for x in t.a]
            his = [b for a, b in rs if a >= 0]
            if his:
                return (0, min(his))
        elif op == 'shr' and isinstance(t.a[1], int):
            a, b = self.trange(st, t.a[0])
            if abs(a) < INF and abs(b) < INF:
                return (a >> t.a[1], b >> t.a[1])
        elif op == 'div' and isinstance(t.a[1], int) and t.a[1] > 0:
            a, b = self.trange(st, t.a[0])
            if a >= 0:
                return (a // t.a[1], b // t.a[1])
        elif op == 'div':
            (a, b), (c, d) = self.trange(st, t.a[0]), self.trange(st, t.a[1])
            if a >= 0 and c >= 1:
                return (a // d, b // c)
        elif op == 'shl' and isinstance(t.ty, str) and not signed(t.ty):
            (a, b), (c, d) = self.trange(st, t.a[0]), self.trange(st, t.a[1])
            if 0 <= a <= b < INF and 0 <= c <= d < 128 and (b << d) <= base[1]:
                return (a << c, b << d)
        elif op == 'rem' and isinstance(t.a[1], int) and t.a[1] > 0:
            a, b = self.trange(st, t.a[0])
            if a >= 0:
                return (0, min(b, t.a[1] - 1))
        elif op == 'min':
            rs = [self.trange(st, x) for x in t.a]
            return (min(a for a, b in rs), min(b for a, b in rs))
        elif op == 'max':
            rs = [self.trange(st, x) for x in t.a]
            return (max(a for a, b in rs), max(b for a, b in rs))
        elif op in ('bitor', 'bitxor') :
            rs = [self.trange(st, x) for x in t.a]
            if all(a >= 0 and b < INF for a, b in rs):
                m = 0
                for a, b in rs:
                    m = max(m, b.bit_length())
                lo = 0
                if op == 'bitor':
                    lo = max(a for a, b in rs)
                elif len(rs) == 2 and (self.known_ne(st, t.a[0], t.a[1])):
                    lo = 1
                return (lo, (1 << m) - 1)
        elif op == 'conv':
            a, b = self.trange(st, t.a[0])
            if base[0] <= a and b <= base[1]:
                return (a, b)
        return base

    def known_ne(self, st, a, b):
        ra = self.trange(st, a)
        rb = self.trange(st, b)
        if ra[1] < rb[0] or rb[1] < ra[0]:
            return True
        e = self.mk_eq(a, b)
        if isinstance(e, int):
            return e == 0
        return st.facts.get(e) == 0

    def nonneg(self, st, l, depth=2):
        """is the linear term l >= 0 known?"""
        if isinstance(l, int):
            return l >= 0
        lo, hi = self.trange(st, l)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if l in st.lins:
            return True
        if depth > 0:
            d, c = lin_parts(l)
            ks = set(d)
            for f in st.lins:
                fd, fc = lin_parts(f)
                # f >= 0; l - f >= 0 suffices.  only try facts sharing an atom with matching sign
                hit = [a for a in fd if a in ks and (fd[a] > 0) == (d[a] > 0)]
                if hit:
                    if self.nonneg(st, lsub(l, f), depth - 1):
                        return True
                    # a multiple of the fact that cancels a shared unknown
                    for c in {d[a] // fd[a] for a in hit if d[a] % fd[a] == 0}:
                        if c > 1 and self.nonneg(st, lsub(l, lmul(f, c)), depth - 1):
                            return True
        return False

    # ------------------------------------------------------------ scalars
    def as_bytes(self, v, w):
        """little-endian byte terms of an integer value of width w bytes"""
        if isinstance(v, int):
            v &= (1 << (8 * w)) - 1
            return [(v >> (8 * i)) & 255 for i in range(w)]
        if v.op == 'cat':
            r = list(v.a)
            return (r + [0] * w)[:w]
        if v.op == 'shr' and isinstance(v.a[1], int) and v.a[1] % 8 == 0 and isinstance(v.ty, str) and not signed(v.ty):
            k = v.a[1] // 8
            r = self.as_bytes(v.a[0], WID[v.ty] // 8)
            return (r[k:] + [0] * w)[:w]
        if w == 1 and self.width(v) == 8:
            return [v]
        return [self.byteof(v, i) for i in range(w)]

    def width(self, v):
        if isT(v, 'at'):
            n = 'u8' if v.a[0].ty is None else self.scalar_name(v.a[0].ty)
            return WID.get(n, 64)
        if v.op == 'byteof':
            return 8
        if v.op in ('len',):
            return 64
        return WID.get(v.ty, 64) if isinstance(v.ty, str) else 64

    def byteof(self, v, i):
        if isT(v, 'at') and self.width(v) == 8:
            return v if i == 0 else 0
        if i * 8 >= self.width(v):
            return 0
        return mk('byteof', v, i, ty='u8')

    def mk_cat(self, bs, ty):
        w = WID[ty] // 8
        bs = list(bs)[:w] + [0] * (w - len(bs))
        if all(isinstance(b, int) for b in bs):
            return wrap(sum(b << (8 * i) for i, b in enumerate(bs)), ty)
        b0 = bs[0]
        if isT(b0, 'byteof') and b0.a[1] == 0:
            x = b0.a[0]
            wx = self.width(x) // 8
            if wx <= w and all((isT(b, 'byteof') and b.a[0] is x and b.a[1] == i) if i < wx else b == 0 for i, b in enumerate(bs)):
                if wx == w:
                    return x
        if w == 1:
            return bs[0]
        return mk('cat', *bs, ty=ty)

    def byteform(self, v):
        return isinstance(v, int) or v.op == 'cat' or (self.width(v) == 8) or \
            (v.op == 'shr' and isinstance(v.a[1], int) and v.a[1] % 8 == 0 and self.byteform(v.a[0]))

    def conv(self, st, v, frm, to):
        """integer conversion"""
        if isinstance(v, int):
            return wrap(v, to)
        lo, hi = self.trange(st, v)
        if lo == hi and v.op not in ('at',):
            return wrap(lo, to)
        if frm == to:
            return v
        wf, wt = WID.get(frm, 64), WID[to]
        if frm == 'bool' or (isinstance(v, T) and v.ty == 'bool'):
            return mk('b2i', v, ty=to)
        if v.op == 'b2i':
            return mk('b2i', v.a[0], ty=to)
        if wt == 8 and v.op != 'lin':
            if not signed(to):
                if wf > 8:
                    return self.as_bytes(v, wf // 8)[0] if (v.op in ('cat', 'shr', 'sym', 'fld', 'base', 'byteof') or self.width(v) >= 8) and v.op not in ('wadd', 'wsub', 'wmul') else mk('byteof', v, 0, ty='u8')
        if not signed(frm) and wf == 8 and wt > 8 and v.op != 'lin':
            return self.mk_cat([v], to)
        if v.op == 'cat' and wt < wf:
            return self.mk_cat(v.a, to)
        if v.op == 'cat' and wt > wf and not signed(frm):
            return self.mk_cat(v.a, to)
        r = TYR[to]
        if r[0] <= lo and hi <= r[1]:
            # value preserving
            if v.op in ('lin',):
                return v
            if v.op in ('cat',):
                return mk('cat', *((list(v.a) + [0] * 16)[:wt // 8]), ty=to)
            return v if (wf == wt or v.op in ('len', 'lin')) else mk('conv', v, ty=to)
        if wf == wt:
            return mk('conv', v, ty=to)
        if wt < wf:
            return mk('trunc', v, ty=to)
        return mk('conv', v, ty=to)

    def mk_not(self, v):
        if isinstance(v, int):
            return 1 - (v & 1)
        if v.op == 'not':
            return v.a[0]
        return mk('not', v, ty='bool')

    def mk_eq(self, a, b):
        if a is b:
            return 1
        if isinstance(a, int) and isinstance(b, int):
            return 1 if a == b else 0
        if isinstance(a, int) or (isinstance(b, T) and a.id > b.id):
            a, b = b, a
        # a is a term
        if isinstance(b, int):
            if a.ty == 'bool':
                return a if b == 1 else self.mk_not(a) if b == 0 else 0
            if a.op == 'b2i':
                return a.a[0] if b == 1 else self.mk_not(a.a[0]) if b == 0 else 0
            if a.op == 'cat' and b >= 0:
                bs = [(b >> (8 * i)) & 255 for i in range(len(a.a))]
                es = [self.mk_eq(x, y) for x, y in zip(a.a, bs)]
                if any(e == 0 and isinstance(e, int) for e in es):
                    return 0
                es = [e for e in es if not isinstance(e, int)]
                if len(es) == 1:
                    return es[0]
                return mk('and', *sorted(set(es), key=lambda t: t.id), ty='bool')
            if a.op == 'conv':
                return self.mk_eq(a.a[0], b) if a.a[0].op != 'conv' else mk('eq', a, b, ty='bool')
            if a.op == 'bitxor' and b == 0 and len(a.a) == 2:
                return self.mk_eq(a.a[0], a.a[1])
            if a.op == 'lin' and len(a.a[0]) == 1:
                (x, c), k = a.a[0][0], a.a[1]
                if (b - k) % c != 0:
                    return 0
                return self.mk_eq(x, (b - k) // c)
        elif a.op == 'bitxor' and a.ty == 'u8' or b.op == 'bitxor' and b.ty == 'u8':
            cnt, k = {}, 0
            for x in (a.a if a.op == 'bitxor' else (a,)) + (b.a if b.op == 'bitxor' else (b,)):
                if isinstance(x, int):
                    k ^= x
                else:
                    cnt[x] = cnt.get(x, 0) ^ 1
            xs = sorted((x for x in cnt if cnt[x]), key=lambda t: t.id)
            if not xs:
                return 1 if k == 0 else 0
            if len(xs) == 1:
                return self.mk_eq(xs[0], k)
            if len(xs) == 2 and k == 0:
                return mk('eq', xs[0], xs[1], ty='bool')
            return mk('eq', mk('bitxor', *xs, ty='u8'), k, ty='bool')
        elif isT(a, 'conv') and isT(b, 'conv'):
            return self.mk_eq(a.a[0], b.a[0])
        elif a.op == 'cat' and b.op == 'cat' and len(a.a) == len(b.a):
            es = [self.mk_eq(x, y) for x, y in zip(a.a, b.a)]
            if any(e == 0 and isinstance(e, int) for e in es):
                return 0
            es = [e for e in es if not isinstance(e, int)]
            if not es:
                return 1
            if len(es) == 1:
                return es[0]
            return mk('and', *sorted(set(es), key=lambda t: t.id), ty='bool')
        return mk('eq', a, b, ty='bool')

    def mk_and(self, xs):
        out = []
        for x in xs:
            if isinstance(x, int):
                if x == 0:
                    return 0
                continue
            if x.op == 'and':
                out.extend(x.a)
            else:
                out.append(x)
        out = sorted(set(out), key=lambda t: t.id)
        if not out:
            return 1
        if len(out) == 1:
            return out[0]
        return mk('and', *out, ty='bool')

    def mk_or(self, xs):
        out = []
        for x in xs:
            if isinstance(x, int):
                if x == 1:
                    return 1
                continue
            if x.op == 'or':
                out.extend(x.a)
            else:
                out.append(x)
        out = sorted(set(out), key=lambda t: t.id)
        if not out:
            return 0
        if len(out) == 1:
            return out[0]
        return mk('or', *out, ty='bool')

    def singleton(self, st, v):
        if isinstance(v, int):
            return v
        lo, hi = self.trange(st, v)
        return lo if lo == hi else None

    def binop(self, st, op, a, b, ty, tyb=None):
        """ty: scalar type name of the operands"""
        if op.endswith('Unchecked'):
            op = op[:-9]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
            return self.compare(st, op, a, b)
        if op.endswith('WithOverflow'):
            base = op[:-12]
            r = self.binop(st, base, a, b, ty)
            exact = self.exact_arith(base, a, b)
            if exact is None:
                ov = st.fresh('ovf', ty='bool')
            else:
                lo, hi = self.trange(st, exact)
                t = TYR[ty]
                if isinstance(exact, T) and exact.op == 'lin' and lo < t[0] and self.nonneg(st, lsub(exact, t[0])):
                    lo = t[0]
                if t[0] <= lo and hi <= t[1]:
                    ov = 0
                elif lo > t[1] or hi < t[0]:
                    ov = 1
                else:
                    ov = mk('ovf', exact if isinstance(exact, T) else mk('k', exact), ty='bool')
            return agg('()', 0, r, ov)
        if op == 'Offset':
            return mk('ptroff', a, b)
        if ty == 'bool':
            if op == 'BitAnd':
                return self.mk_and([a, b])
            if op == 'BitOr':
                return self.mk_or([a, b])
            if op == 'BitXor':
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    if isinstance(a, int):
                        return a ^ b
                    return a if b == 0 else self.mk_not(a)
                return self.mk_not(self.mk_eq(a, b))
        if not (isinstance(a, (int, T)) and isinstance(b, (int, T))) or ty is None or ty not in TYR:
            return mk('bin', op, a, b, ty=ty if isinstance(ty, str) else None)
        if isT(a, 'ref') or isT(b, 'ref'):
            return mk('bin', op, a, b)
        ca = a if isinstance(a, int) else None
        cb = b if isinstance(b, int) else None
        if ca is None and not isT(a, 'at'):
            ca = self.singleton(st, a)
            if ca is not None:
                a = ca
        if cb is None and not isT(b, 'at'):
            cb = self.singleton(st, b)
            if cb is not None:
                b = cb
        if ca is not None and cb is not None:
            return self.const_bin(op, ca, cb, ty)
        t = TYR[ty]
        if op in ('Add', 'Sub', 'Mul'):
            e = self.exact_arith(op, a, b)
            if e is not None:
                lo, hi = self.trange(st, e)
                if lo < t[0] and isT(e, 'lin') and self.nonneg(st, lsub(e, t[0])):
                    lo = t[0]
                if t[0] <= lo and hi <= t[1]:
                    return e
            nm = {'Add': 'wadd', 'Sub': 'wsub', 'Mul': 'wmul'}[op]
            # byte-disjoint addition is concatenation
            if op == 'Add' and self.byteform(a) and self.byteform(b):
                r = self.merge_bytes(a, b, ty)
                if r is not None:
                    return r
            if op == 'Mul' and isinstance(b, int) and b in (256, 65536, 1 << 24, 1 << 32):
                return self.binop(st, 'Shl', a, b.bit_length() - 1, ty)
            if op == 'Add' and isinstance(a, T) and isinstance(b, T) and a.id > b.id:
                a, b = b, a
            return mk(nm, a, b, ty=ty)
        if op in ('Div', 'Rem'):
            if cb is not None and cb > 0 and self.trange(st, a)[0] >= 0:
                if op == 'Div':
                    if cb == 1:
                        return a
                    return mk('div', a, cb, ty=ty)
                return mk('rem', a, cb, ty=ty)
            return mk(op.lower(), a, b, ty=ty)
        if op in ('Shl', 'Shr'):
            if cb is not None:
                k = cb % WID[ty]
                if k == 0:
                    return a
                if k % 8 == 0 and self.byteform(a) and not signed(ty) or (op == 'Shl' and k % 8 == 0 and isT(a, 'cat')):
                    bs = self.as_bytes(a, WID[ty] // 8)
                    if op == 'Shl':
                        bs = [0] * (k // 8) + bs
                    else:
                        bs = bs[k // 8:]
                    return self.mk_cat(bs, ty)
                if op == 'Shr':
                    lo, hi = self.trange(st, a)
                    if abs(lo) < INF and abs(hi) < INF and (lo >> k) == (hi >> k):
                        return lo >> k
                return mk(op.lower(), a, k, ty=ty)
            return mk(op.lower(), a, b, ty=ty)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            full = (1 << WID[ty]) - 1
            if cb is not None:
                u = cb & full
                if op == 'BitAnd':
                    if u == 0:
                        return 0
                    if u == full:
                        return a
                    lo, hi = self.trange(st, a)
                    if lo >= 0 and (u & (u + 1)) == 0 and hi <= u:
                        return a
                    mb = [(u >> (8 * i)) & 255 for i in range(WID[ty] // 8)]
                    if WID[ty] > 8 and all(x in (0, 255) for x in mb) and a.op not in ('lin',):
                        bs = self.as_bytes(a, WID[ty] // 8)
                        return self.mk_cat([x if m else 0 for x, m in zip(bs, mb)], ty)
                elif u == 0:
                    return a
                elif op == 'BitOr' and u == full:
                    return wrap(full, ty)
            if a is b:
                return a if op in ('BitAnd', 'BitOr') else 0
            if op in ('BitOr', 'BitXor') and self.byteform(a) and self.byteform(b) and WID[ty] > 8:
                r = self.merge_bytes(a, b, ty)
                if r is not None:
                    return r
            nm = {'BitAnd': 'bitand', 'BitOr': 'bitor', 'BitXor': 'bitxor'}[op]
            args = []
            k = None
            for x in (a, b):
                if isinstance(x, int):
                    args.append(x)
                elif x.op == nm and x.ty == ty:
                    args.extend(x.a)
                else:
                    args.append(x)
            ints = [x for x in args if isinstance(x, int)]
            ts = [x for x in args if not isinstance(x, int)]
            if op == 'BitXor':
                cnt = {}
                for x in ts:
                    cnt[x] = cnt.get(x, 0) ^ 1
                ts = [x for x in cnt if cnt[x]]
                k = 0
                for i in ints:
                    k ^= i
            elif op == 'BitOr':
                ts = list(dict.fromkeys(ts))
                k = 0
                for i in ints:
                    k |= i
            else:
                ts = list(dict.fromkeys(ts))
                k = full
                for i in ints:
                    k &= i
                if k == full:
                    k = None
            ts.sort(key=lambda t: t.id)
            if k:
                ts.append(wrap(k, ty))
            elif k == 0 and op == 'BitAnd':
                return 0
            if not ts:
                return 0
            if len(ts) == 1:
                return ts[0]
            return mk(nm, *ts, ty=ty)
        return mk('bin', op, a, b, ty=ty)

    def merge_bytes(self, a, b, ty):
        w = WID[ty] // 8
        x, y = self.as_bytes(a, w), self.as_bytes(b, w)
        out = []
        for p, q in zip(x, y):
            if isinstance(p, int) and p == 0:
                out.append(q)
            elif isinstance(q, int) and q == 0:
                out.append(p)
            else:
                return None
        return self.mk_cat(out, ty)

    def exact_arith(self, op, a, b):
        if op == 'Add':
            return ladd(a, b)
        if op == 'Sub':
            return lsub(a, b)
        if op == 'Mul':
            if isinstance(a, int):
                return lmul(b, a) if isinstance(b, T) else a * b
            if isinstance(b, int):
                return lmul(a, b)
        return None

    def const_bin(self, op, a, b, ty):
        if op == 'Add':
            r = a + b
        elif op == 'Sub':
            r = a - b
        elif op == 'Mul':
            r = a * b
        elif op == 'Div':
            if b == 0:
                raise Unsupported('division by zero')
            r = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                r = -r
        elif op == 'Rem':
            if b == 0:
                raise Unsupported('division by zero')
            r = abs(a) % abs(b)
            if a < 0:
                r = -r
        elif op == 'BitAnd':
            r = a & b
        elif op == 'BitOr':
            r = a | b
        elif op == 'BitXor':
            r = a ^ b
        elif op == 'Shl':
            r = a << (b % WID[ty])
        elif op == 'Shr':
            r = a >> (b % WID[ty])
        else:
            raise Unsupported('const ' + op)
        return wrap(r, ty)

    def compare(self, st, op, a, b):
        if op == 'Eq' or op == 'Ne':
            e = self.eq_terms(st, a, b)
            return e if op == 'Eq' else self.mk_not(e)
        if op == 'Gt':
            return self.compare(st, 'Lt', b, a)
        if op == 'Ge':
            return self.compare(st, 'Le', b, a)
        if op == 'Cmp':
            return mk('cmp', a, b)
        if isT(a, 'ref') or isT(b, 'ref'):
            return mk('lt' if op == 'Lt' else 'le', a, b, ty='bool')
        d = lsub(b, a)
        if op == 'Lt':
            d = lsub(d, 1)
        if self.nonneg(st, d):
            return 1
        if self.nonneg(st, lsub(-1, d)):
            return 0
        return mk('ge0', d if isinstance(d, T) else mk('k', d), ty='bool')

    def eq_terms(self, st, a, b):
        if a is b:
            return 1
        if isT(a, 'seq') or isT(b, 'seq'):
            if isT(a, 'seq') and isT(b, 'seq'):
                return self.seq_eq(st, a, b)
            return mk('eq', a, b, ty='bool')
        if is_agg(a) and is_agg(b):
            if a.a[0] == b.a[0] and a.a[1] != b.a[1]:
                return 0
            if a.a[0] == b.a[0] and len(a.a) == len(b.a):
                return self.mk_and([self.eq_terms(st, x, y) for x, y in zip(a.a[2:], b.a[2:])])
        e = self.mk_eq(a, b)
        if isinstance(e, int):
            return e
        t = self.truth(st, e)
        return e if t is None else t

    def seq_eq(self, st, a, b):
        la, lb = seqlen(a), seqlen(b)
        le = 1
        if la is not lb and not (isinstance(la, int) and isinstance(lb, int) and la == lb):
            d = lsub(la, lb)
            if isinstance(d, int):
                if d != 0:
                    return 0
            elif not (self.nonneg(st, d) and self.nonneg(st, lsub(0, d))):
                if isinstance(la, int) or isinstance(lb, int):
                    # one side concrete: split the other if it is given that length
                    pass
                e = mk('seqeq', *sorted((a, b), key=lambda t: t.id), ty='bool')
                t = self.truth(st, e)
                return e if t is None else t
        ea = elements(a) if isinstance(la, int) and la <= 256 else None
        eb = elements(b) if isinstance(lb, int) and lb <= 256 else None
        if ea is not None and eb is not None and len(ea) == len(eb):
            es = []
            for x, y in zip(ea, eb):
                e = self.eq_terms(st, x, y)
                if isinstance(e, int):
                    if e == 0:
                        return 0
                else:
                    es.append(e)
            if not es:
                return 1
            if len(es) == 1:
                return es[0]
        e = mk('seqeq', *sorted((a, b), key=lambda t: t.id), ty='bool')
        t = self.truth(st, e)
        return e if t is None else t

    # ------------------------------------------------------------ facts
    def truth(self, st, t):
        if isinstance(t, int):
            return t
        f = st.facts.get(t)
        if f is not None:
            return f
        op = t.op
        if op == 'not':
            r = self.truth(st, t.a[0])
            return None if r is None else 1 - r
        if op == 'and':
            r = 1
            for x in t.a:
                v = self.truth(st, x)
                if v == 0:
                    return 0
                if v is None:
                    r = None
            return r
        if op == 'or':
            r = 0
            for x in t.a:
                v = self.truth(st, x)
                if v == 1:
                    return 1
                if v is None:
                    r = None
            return r
        if op == 'eq':
            a, b = t.a
            if isinstance(b, int) or (isinstance(a, T) and not isT(a, 'ref')):
                try:
                    ra, rb = self.trange(st, a), self.trange(st, b)
                except Exception:
                    return None
                if ra[1] < rb[0] or rb[1] < ra[0]:
                    return 0
                if ra[0] == ra[1] == rb[0] == rb[1]:
                    return 1
                if st.lins and (isT(a, 'lin') or isT(b, 'lin') or (isT(a) and a.op in ('len', 'phi') and isT(b) and b.op in ('len', 'phi'))):
                    d = lsub(a, b)
                    if self.nonneg(st, d):
                        if self.nonneg(st, lmul(d, -1)):
                            return 1
                        if self.nonneg(st, ladd(d, -1)):
                            return 0
                    elif self.nonneg(st, lsub(-1, d)):
                        return 0
        if op == 'ge0':
            if self.nonneg(st, t.a[0]):
                return 1
            if self.nonneg(st, lsub(-1, t.a[0])):
                return 0
        return None

    def assume(self, st, t, truth):
        """refine st in place; False when contradictory"""
        if isinstance(t, int):
            return (t & 1) == truth if t in (0, 1) else bool(t) == bool(truth)
        cur = self.truth(st, t)
        if cur is not None:
            return cur == truth
        op = t.op
        if op == 'not':
            return self.assume(st, t.a[0], 1 - truth)
        st.facts[t] = truth
        if op == 'and' and truth == 1:
            for x in t.a:
                if not self.assume(st, x, 1):
                    return False
        elif op == 'and' and truth == 0:
            rest = [x for x in t.a if self.truth(st, x) != 1]
            if len(rest) == 1:
                return self.assume(st, rest[0], 0)
            if not rest:
                return False
        elif op == 'or' and truth == 0:
            for x in t.a:
                if not self.assume(st, x, 0):
                    return False
        elif op == 'or' and truth == 1:
            rest = [x for x in t.a if self.truth(st, x) != 0]
            if len(rest) == 1:
                return self.assume(st, rest[0], 1)
            if not rest:
                return False
        elif op == 'eq':
            a, b = t.a
            if truth == 1:
                if isinstance(b, int):
                    if isT(a, 'disc'):
                        st.facts[a] = b
                    lo, hi = self.trange(st, a)
                    if not (lo <= b <= hi):
                        return False
                    st.rng[a] = (b, b)
                    if a.op == 'bitor' and b == 0:
                        for x in a.a:
                            if not self.assume(st, self.mk_eq(x, 0), 1):
                                return False
                    if a.op == 'lin':
                        st.lins = st.lins | {lsub(a, b), lsub(b, a)}
                elif isinstance(a, T) and not isT(a, 'ref') and not isT(b, 'ref'):
                    d = lsub(a, b)
                    if isinstance(d, T):
                        st.lins = st.lins | {d, lsub(0, d)}
            else:
                if isinstance(b, int):
                    lo, hi = self.trange(st, a)
                    if lo == b:
                        st.rng[a] = (lo + 1, hi)
                    elif hi == b:
                        st.rng[a] = (lo, hi - 1)
                    r = st.rng.get(a)
                    if r and r[0] > r[1]:
                        return False
        elif op == 'ge0':
            l = t.a[0]
            if truth == 0:
                l = lsub(-1, l)
            if not self.add_lin(st, l):
                return False
        elif op == 'seqeq' and truth == 1:
            a, b = t.a
            la, lb = seqlen(a), seqlen(b)
            d = lsub(la, lb)
            if isinstance(d, T):
                if not (self.add_lin(st, d) and self.add_lin(st, lsub(0, d))):
                    return False
            n = la if isinstance(la, int) else lb if isinstance(lb, int) else None
            if n is not None and n <= 256:
                for i in range(n):
                    x, y = self.seq_at(st, a, i), self.seq_at(st, b, i)
                    if isinstance(x, (int, T)) and isinstance(y, (int, T)):
                        e = self.eq_terms(st, x, y)
                        if not self.assume(st, e, 1):
                            return False
        elif op in ('starts', 'ends') and truth == 1:
            self.models.on_starts(self, st, t)
        return True

    def add_lin(self, st, l):
        if isinstance(l, int):
            return l >= 0
        lo, hi = self.trange(st, l)
        if hi < 0:
            return False
        if lo >= 0:
            return True
        st.lins = st.lins | {l}
        d, c = lin_parts(l)
        # bound propagation to the single atoms
        for a, k in d.items():
            rest_hi = c
            for b, kb in d.items():
                if b is not a:
                    x, y = self.trange(st, b)
                    rest_hi += kb * (y if kb > 0 else x)
            if abs(rest_hi) >= INF // 4:
                continue
            lo, hi = self.trange(st, a)
            if k > 0:
                # k*a >= -rest_hi
                nl = -(rest_hi // k)
                if nl > lo:
                    self.narrow(st, a, nl, hi)
            else:
                nh = rest_hi // (-k)
                if nh < hi:
                    self.narrow(st, a, lo, nh)
            r = st.rng.get(a)
            if r and r[0] > r[1]:
                return False
        return True

    def narrow(self, st, a, lo, hi):
        """record a smaller range of a, and what it implies for its operand"""
        st.rng[a] = (lo, hi)
        if a.op == 'conv' and isinstance(a.ty, str) and isinstance(a.a[0], T):
            x = a.a[0]
            l, h = self.trange(st, x)
            if TYR[a.ty][0] <= l and h <= TYR[a.ty][1] and (lo > l or hi < h):
                self.narrow(st, x, max(l, lo), min(h, hi))
        elif a.op == 'div' and len(a.a) == 2 and isinstance(a.a[1], int) and a.a[1] > 0 and isinstance(a.a[0], T) and lo >= 0:
            x, c = a.a
            l, h = self.trange(st, x)
            if l >= 0 and (lo * c > l or hi * c + c - 1 < h):
                self.narrow(st, x, max(l, lo * c), min(h, hi * c + c - 1))

    # ------------------------------------------------------------ sequences
    def seq_split(self, st, s, p):
        """split a sequence at position p -> (left, right) or None"""
        off = 0
        left = []
        segs = list(s.a)
        for i, g in enumerate(segs):
            d = lsub(p, off)
            if isinstance(d, int) and d == 0:
                return mkseq(left), mkseq(segs[i:])
            n = seglen(g)
            if n is d or (isinstance(n, int) and isinstance(d, int) and n == d):
                left.append(g)
                off = ladd(off, n)
                continue
            inside = None
            if isinstance(d, int) and isinstance(n, int):
                if d < n:
                    inside = True
                else:
                    inside = False
            else:
                if self.nonneg(st, lsub(n, d)) :
                    inside = True
                elif self.nonneg(st, lsub(d, n)):
                    inside = False
            if inside is None:
                # a last segment must contain the position
                if i == len(segs) - 1:
                    inside = True
                else:
                    return None
            if not inside:
                left.append(g)
                off = ladd(off, n)
                continue
            if g[0] == 'o':
                m = ladd(g[2], d)
                return mkseq(left + [('o', g[1], g[2], m)]), mkseq([('o', g[1], m, g[3])] + segs[i + 1:])
            if g[0] == 'r':
                return mkseq(left + [('r', g[1], d)]), mkseq([('r', g[1], lsub(g[2], d))] + segs[i + 1:])
            if isinstance(d, int):
                return mkseq(left + [('e', g[1][:d])]), mkseq([('e', g[1][d:])] + segs[i + 1:])
            if len(set(g[1])) == 1:
                return mkseq(left + [('r', g[1][0], d)]), mkseq([('r', g[1][0], lsub(len(g[1]), d))] + segs[i + 1:])
            return None
        d = lsub(p, off)
        if isinstance(d, int) and d == 0:
            return s, EMPTY
        if isinstance(d, T) and self.nonneg(st, d) and self.nonneg(st, lsub(0, d)):
            return s, EMPTY
        return None

    def subseq(self, st, s, lo, hi):
        if s.op != 'seq':
            return mkseq([('o', mk('subof', s, lo, hi), 0, lsub(hi, lo))])
        if isinstance(lo, int) and lo == 0 and hi is seqlen(s):
            return s
        r = self.seq_split(st, s, hi)
        if r is not None:
            l = self.seq_split(st, r[0], lo)
            if l is not None:
                return l[1]
        n = lsub(hi, lo)
        b = mk('base', mk('subof', s, lo if isinstance(lo, T) else mk('k', lo), hi if isinstance(hi, T) else mk('k', hi)), n)
        return mkseq([('o', b, 0, n)])

    def seq_at(self, st, s, i):
        if not isT(s, 'seq'):
            return mk('atx', s, i)
        off = 0
        for g in s.a:
            n = seglen(g)
            d = lsub(i, off)
            if isinstance(d, int) and isinstance(n, int):
                if 0 <= d < n:
                    if g[0] == 'e':
                        return g[1][d]
                    if g[0] == 'o':
                        return self.at_value(at(g[1], ladd(g[2], d)))
                    return g[1]
                off = ladd(off, n)
                continue
            if g[0] == 'o' and (len(s.a) == 1 or (self.nonneg(st, d) and self.nonneg(st, lsub(lsub(n, d), 1)))):
                return self.at_value(at(g[1], ladd(g[2], d)))
            if g[0] == 'r' and (len(s.a) == 1 or (self.nonneg(st, d) and self.nonneg(st, lsub(lsub(n, d), 1)))):
                return g[1]
            if self.nonneg(st, lsub(d, n)):
                off = ladd(off, n)
                continue
            if g is s.a[-1] and g[0] == 'o':
                return self.at_value(at(g[1], ladd(g[2], d)))
            break
        if self.elem_scalar(s) == 'u8':
            return at(mk('base', mk('view', s), seqlen(s)), i)
        return mk('sel', s, i, ty=self.elem_scalar(s))

    def elem_scalar(self, s):
        """scalar type name common to all elements, if evident"""
        for g in s.a:
            if g[0] == 'o':
                return 'u8' if g[1].ty is None else self.scalar_name(g[1].ty)
            x = g[1][0] if g[0] == 'e' else g[1]
            if isinstance(x, T):
                return x.ty if isinstance(x.ty, str) else ('u8' if x.op == 'at' and x.a[0].ty is None else None)
        return None

    def seq_set(self, st, s, i, v):
        r = self.seq_split(st, s, ladd(i, 1))
        if r is not None:
            l = self.seq_split(st, r[0], i)
            if l is not None:
                return concat(l[0], sq_elems([v]), r[1])
        n = seqlen(s)
        return mkseq([('o', mk('base', mk('upd', s, i if isinstance(i, T) else mk('k', i), v if isinstance(v, T) else mk('k', v)), n), 0, n)])

    def seq_setrange(self, st, s, lo, hi, v):
        r = self.seq_split(st, s, hi)
        if r is not None:
            l = self.seq_split(st, r[0], lo)
            if l is not None:
                return concat(l[0], v, r[1])
        n = seqlen(s)
        return mkseq([('o', mk('base', mk('updr', s, mk('p', lo, hi), v), n), 0, n)])

    # ------------------------------------------------------------ memory
    def root_value(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if isinstance(root, tuple):
            if root[0] == 'sym':
                nm, ti = root[1], root[2]
                v = self.make_value(ti, nm if nm.op == 'deref' else mk('deref', nm))
                return v
            if root[0] == 'const':
                return root[1]
            if root[0] == 'static':
                s = self.prog.statics.get(root[1])
                if s:
                    return self.const_value(s['v'], s['ty'])
        raise Unsupported('uninitialised %s' % (root,))

    def nav(self, st, v, path):
        var = None
        for e in path:
            k = e[0]
            if k == 'f':
                if isT(v, 'box'):
                    v = v.a[0]
                elif isT(v, 'agg'):
                    if 2 + e[1] < len(v.a):
                        v = v.a[2 + e[1]]
                    else:
                        v = self.make_value(e[2], mk('fld', v, var or 0, e[1]))
                elif isT(v, 'clo'):
                    v = v.a[1 + e[1]]
                elif isT(v):
                    nm = v.a[0] if v.op == 'symadt' else v
                    v = self.make_value(e[2], mk('fld', nm, var or 0, e[1]))
                else:
                    raise Unsupported('field of %r' % (v,))
                var = None
            elif k == 'v':
                var = e[1]
            elif k == 'i':
                v = self.seq_at(st, v, e[1])
            elif k == 's':
                v = self.subseq(st, v, e[1], e[2])
            else:
                raise Unsupported('nav ' + k)
        return v

    def load(self, st, ref):
        if not isT(ref, 'ref'):
            # dereference of an opaque pointer
            return mk('derefof', ref)
        root, path = ref.a[0], ref.a[1]
        v = self.root_value(st, root)
        return self.nav(st, v, path)

    def put(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        if k == 'v':
            if len(path) > 1 and path[1][0] == 'f' and not isT(v, 'agg'):
                # materialise the variant of an opaque enum
                v = self.expand(v, e[1])
            return self.put(st, v, path[1:], new)
        if k == 'f':
            if isT(v, 'box'):
                return mk('box', self.put(st, v.a[0], path[1:], new))
            if isT(v, 'agg'):
                i = 2 + e[1]
                a = list(v.a)
                while len(a) <= i:
                    a.append(UNINIT)
                a[i] = self.put(st, a[i], path[1:], new) if len(path) > 1 else new
                return mk('agg', *a)
            if isT(v, 'clo'):
                a = list(v.a)
                a[1 + e[1]] = self.put(st, a[1 + e[1]], path[1:], new)
                return mk('clo', *a)
            if isT(v, 'symadt'):
                x = self.expand(v, 0)
                if isT(x, 'agg'):
                    return self.put(st, x, path, new)
            if v is UNINIT or v is None:
                return self.put(st, mk('agg', '?', 0), path, new)
            return mk('havoc', v, ty=None)
        if k == 'i':
            if isT(v, 'seq'):
                if len(path) > 1:
                    new = self.put(st, self.seq_at(st, v, e[1]), path[1:], new)
                return self.seq_set(st, v, e[1], new)
            return mk('havoc', v)
        if k == 's':
            if isT(v, 'seq'):
                if len(path) > 1:
                    new = self.put(st, self.subseq(st, v, e[1], e[2]), path[1:], new)
                if not isT(new, 'seq'):
                    n = lsub(e[2], e[1])
                    new = mkseq([('o', mk('base', new, n), 0, n)])
                return self.seq_setrange(st, v, e[1], e[2], new)
            return mk('havoc', v)
        raise Unsupported('put ' + k)

    def expand(self, v, variant):
        if isT(v, 'symadt') and isinstance(v.ty, int):
            t = self.prog.types[v.ty]
            if t['k'] == 'adt' and variant < len(t['v']):
                fs = t['v'][variant]['f']
                if all(f[1] is not None for f in fs):
                    return agg(t['p'], variant, *[self.make_value(f[1], mk('fld', v.a[0], variant, i)) for i, f in enumerate(fs)])
        return v

    def store(self, st, ref, new):
        if not isT(ref, 'ref'):
            self.note_unmodelled('store through opaque pointer', st)
            return
        root, path = ref.a[0], ref.a[1]
        if not path:
            st.mem[root] = new
            return
        v = st.mem.get(root)
        if v is None:
            try:
                v = self.root_value(st, root)
            except Unsupported:
                v = UNINIT
        st.mem[root] = self.put(st, v, path, new)

    def extend_path(self, st, ref, e):
        """ref to a projection of *ref, normalising stacked slices"""
        root, path = ref.a[0], ref.a[1]
        if path and path[-1][0] == 's' and e[0] in ('i', 's'):
            lo = path[-1][1]
            if e[0] == 'i':
                e = ('i', ladd(lo, e[1]))
            else:
                e = ('s', ladd(lo, e[1]), ladd(lo, e[2]))
            path = path[:-1]
        if e[0] == 's' and not path:
            pass
        return mk('ref', root, path + (e,))

    def ref_len(self, st, ref):
        if isT(ref, 'ref'):
            p = ref.a[1]
            if p and p[-1][0] == 's':
                return lsub(p[-1][2], p[-1][1])
            v = self.load(st, ref)
            if isT(v, 'seq'):
                return seqlen(v)
            return mk('len', v, ty='usize')
        return mk('len', ref, ty='usize')

    def const_ref(self, v):
        return mk('ref', ('const', v), ())

    # ------------------------------------------------------------ constants
    def const_value(self, c, ti):
        k = c[0]
        if ti is None and k in ('adt', 'tup', 'closure', 'zst'):
            return mk('opaque', repr(c)[:200])
        if k == 'i':
            return c[1]
        if k in ('str', 'bytes'):
            return sq_bytes(bytes.fromhex(c[1]))
        if k == 'seq':
            t = self.prog.types[ti] if ti is not None else {}
            e = t.get('e')
            return sq_elems([self.const_value(x, e) for x in c[1]])
        if k == 'tup':
            t = self.prog.types[ti]
            return agg('()', 0, *[self.const_value(x, f) for x, f in zip(c[1], t['f'])])
        if k == 'adt':
            t = self.prog.types[ti]
            if self.is_seq_adt(t):
                return EMPTY
            fs = t['v'][c[1]]['f'] if c[1] < len(t['v']) else [(None, None)] * len(c[2])
            return agg(t['p'], c[1], *[self.const_value(x, f[1]) for x, f in zip(c[2], fs)])
        if k == 'ref':
            t = self.prog.types[ti] if ti is not None else {}
            e = t.get('e')
            et = self.prog.types[e] if e is not None else {}
            if c[1][0] in ('str', 'bytes', 'seq', 'adt', 'tup', 'i', 'fn', 'ref'):
                v = self.const_value(c[1], e)
                return mk('ref', ('const', v), ())
            return mk('ref', ('const', self.const_value(c[1], e)), ())
        if k == 'sref':
            return mk('ref', ('static', c[1]), ())
        if k == 'fn':
            return self.fnval(c[1])
        if k == 'fnptr':
            return self.fnval({'p': c[1], 'r': c[1], 'key': c[2], 'kind': 'item', 'a': []})
        if k == 'closure':
            t = self.prog.types[ti]
            return mk('clo', t['key'])
        if k == 'zst':
            t = self.prog.types[ti]
            if t['k'] == 'tuple':
                return UNIT
            return mk('zst', t['d'])
        return mk('opaque', str(c[1]) if len(c) > 1 else k, ty=self.scalar_name(ti) if ti is not None else None)

    def fnval(self, ci):
        key = ci.get('key') or (ci['p'] + '|' + ','.join(str(x) for x in ci.get('a', [])))
        i = self.fnidx.get(key)
        if i is None:
            i = len(self.fninfo)
            self.fninfo.append(ci)
            self.fnidx[key] = i
        return mk('fn', i)

    # ------------------------------------------------------------ places
    def place_ty(self, body, place):
        ti = body.locals[place[0]]
        var = 0
        for e in place[1]:
            t = self.prog.types[ti] if ti is not None else {}
            if e[0] == 'd':
                ti = t.get('e')
                if ti is None and t.get('k') == 'adt' and t.get('a'):
                    ti = t['a'][0]
            elif e[0] == 'f':
                ti = e[2]
            elif e[0] in ('i', 'c'):
                ti = t.get('e')
            elif e[0] == 's':
                pass
        return ti

    def operand_ty(self, body, o):
        if o[0] == 'k':
            return o[1]
        if o[0] in ('c', 'm'):
            return self.place_ty(body, o[1])
        return None

    def place_ref(self, st, fr, place):
        ref = mk('ref', (fr, place[0]), ())
        pj = place[1]
        for e in pj:
            k = e[0]
            if k == 'd':
                v = self.load(st, ref)
                if self.rawmem and e is pj[0] and self.raw_ptr(fr, place[0]):
                    self.raw_access(st, v)
                if isT(v, 'ref'):
                    ref = v
                else:
                    if isT(v, 'box'):
                        ref = self.extend_path(st, ref, ('f', 0, None))
                    else:
                        ref = mk('ref', ('sym', v if isinstance(v, T) else mk('k', v), None), ())
            elif k == 'f':
                ref = self.extend_path(st, ref, ('f', e[1], e[2]))
            elif k == 'v':
                ref = self.extend_path(st, ref, ('v', e[1]))
            elif k == 'i':
                idx = self.load(st, mk('ref', (fr, e[1]), ()))
                if self.watch and isT(idx):
                    self.hook('index', st, (idx,), self.site)
                ref = self.extend_path(st, ref, ('i', idx))
            elif k == 'c':
                if e[3]:
                    n = self.ref_len(st, ref)
                    idx = lsub(n, e[1])
                else:
                    idx = e[1]
                ref = self.extend_path(st, ref, ('i', idx))
            elif k == 's':
                n = self.ref_len(st, ref)
                hi = lsub(n, e[2]) if e[3] else e[2]
                ref = self.extend_path(st, ref, ('s', e[1], hi))
            else:
                raise Unsupported('projection')
        return ref

    def pointee(self, ti):
        t = self.prog.types[ti] if isinstance(ti, int) else {}
        e = t.get('e')
        return self.prog.types[e]['d'] if isinstance(e, int) else None

    def raw_ptr(self, fr, local):
        b = self.frames.get(fr)
        return b is not None and self.prog.types[b.locals[local]]['k'] == 'ptr'

    def raw_access(self, st, p):
        """obligation: the raw pointer p points at an element"""
        if not isT(p, 'ref'):
            self.hook('unchecked', st, ('access through a raw pointer', None, None), self.site)
        elif p.a[1] and p.a[1][-1][0] == 'i':
            n = self.ref_len(st, mk('ref', p.a[0], p.a[1][:-1]))
            i = p.a[1][-1][1]
            c = self.mk_and([self.compare(st, 'Le', 0, i), self.compare(st, 'Lt', i, n)])
            self.hook('unchecked', st, ('access through a raw pointer', self.truth(st, c), c), self.site)

    def read_place(self, st, fr, place):
        if not place[1]:
            v = st.mem.get((fr, place[0]))
            if v is None:
                raise Unsupported('read of uninitialised _%d' % place[0])
            return v
        return self.load(st, self.place_ref(st, fr, place))

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'c':
            return self.read_place(st, fr, o[1])
        if k == 'm':
            v = self.read_place(st, fr, o[1])
            if not o[1][1]:
                st.mem.pop((fr, o[1][0]), None)
            return v
        if k == 'k':
            return self.const_value(o[2], o[1])
        if k == 'v':
            return o[1]
        if k == 'rt':
            return 0 if 'Checks' in o[1] or 'checks' in o[1] else st.fresh('rt')
        raise Unsupported('operand ' + k)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, body, r, dest_ty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            return self.place_ref(st, fr, r[2])
        if k == 'raw':
            return self.place_ref(st, fr, r[1])
        if k == 'bin':
            ta = self.operand_ty(body, r[2])
            tn = self.scalar_name(ta) if ta is not None else None
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, tn)
        if k == 'un':
            a = self.operand(st, fr, r[2])
            ta = self.operand_ty(body, r[2])
            tn = self.scalar_name(ta) if ta is not None else None
            if r[1] == 'Not':
                if tn == 'bool':
                    return self.mk_not(a)
                if isinstance(a, int):
                    return wrap(~a, tn)
                return mk('bnot', a, ty=tn)
            if r[1] == 'Neg':
                if isinstance(a, int):
                    return wrap(-a, tn)
                e = lmul(a, -1)
                lo, hi = self.trange(st, e)
                t = TYR.get(tn, (0, 0))
                return e if t[0] <= lo and hi <= t[1] else mk('wneg', a, ty=tn)
            if r[1] == 'PtrMetadata':
                return self.ref_len(st, a)
            raise Unsupported('unop ' + r[1])
        if k == 'cast':
            a = self.operand(st, fr, r[2])
            to = r[3]
            ck = r[1]
            if ck == 'IntToInt':
                frm = self.operand_ty(body, r[2])
                f, t = self.scalar_name(frm), self.scalar_name(to)
                if f is None:
                    # enum discriminant cast
                    if is_agg(a):
                        tt = self.prog.types[frm]
                        return wrap(tt['v'][a.a[1]]['d'], t)
                    return mk('conv', a, ty=t)
                return self.conv(st, a, f, t)
            if ck == 'PtrToPtr' and self.rawmem and isT(a, 'ref') and a.a[1] and a.a[1][-1][0] == 'i' \
                    and self.pointee(self.operand_ty(body, r[2])) != self.pointee(to):
                return mk('ptrcast', a)         # element units change: no longer a position the analysis can follow
            if self.rawmem and (ck == 'PtrToPtr' or 'ArrayToPointer' in ck) and isT(a, 'ref'):
                ft = self.prog.types[self.operand_ty(body, r[2])]
                fe = self.prog.types[ft['e']] if isinstance(ft.get('e'), int) else {}
                if fe.get('k') in ('array', 'slice') and self.prog.types[fe['e']]['d'] == self.pointee(to):
                    return self.extend_path(st, a, ('i', 0))
            if ck == 'PtrToPtr' and self.rawmem and isT(a, 'ref') and self.pointee(to) not in ('u8', 'i8') \
                    and self.pointee(self.operand_ty(body, r[2])) != self.pointee(to):
                return mk('ptrcast', a)
            if ck.startswith('PointerCoercion') or ck in ('PtrToPtr', 'FnPtrToPtr', 'Subtype'):
                return a
            if ck == 'Transmute':
                f, t = self.operand_ty(body, r[2]), to
                if f == t:
                    return a
                fs, ts = self.scalar_name(f) if f is not None else None, self.scalar_name(t)
                if fs and ts:
                    return self.conv(st, a, fs, ts)
                tf, tt = self.prog.types[f], self.prog.types[t]
                if tf['k'] in ('ref', 'ptr') and tt['k'] in ('ref', 'ptr'):
                    return a
                if tf['k'] == 'array' and ts and isT(a, 'seq'):
                    els = elements(a)
                    if els is not None and len(els) * 8 == WID[ts]:
                        return self.mk_cat(els, ts)
                if fs and tt['k'] == 'array' and self.scalar_name(tt['e']) == 'u8':
                    return sq_elems(self.as_bytes(a, WID[fs] // 8))
                return mk('transmute', a if isinstance(a, T) else mk('k', a), ty=ts)
            return mk('cast', ck, a if isinstance(a, T) else mk('k', a), ty=self.scalar_name(to))
        if k == 'disc':
            ref = self.place_ref(st, fr, r[1])
            v = self.load(st, ref)
            ti = self.place_ty(body, r[1])
            return self.discriminant(st, v, ti)
        if k == 'adt':
            t = self.prog.types[r[1]]
            vals = [self.operand(st, fr, o) for o in r[3]]
            if r[4] is not None:
                return mk('union', t['p'], *[v if isinstance(v, T) else mk('k', v) for v in vals])
            return agg(t['p'], r[2], *vals)
        if k == 'tup':
            return agg('()', 0, *[self.operand(st, fr, o) for o in r[1]])
        if k == 'arr':
            return sq_elems([self.operand(st, fr, o) for o in r[1]])
        if k == 'rep':
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n is None:
                n = st.fresh('replen', ty='usize')
            return mkseq([('r', v, n)])
        if k == 'clo':
            t = self.prog.types[r[1]]
            return mk('clo', t['key'], *[self.operand(st, fr, o) for o in r[2]])
        if k == 'rawagg':
            vals = [self.operand(st, fr, o) for o in r[2]]
            if isT(vals[0], 'ref') and len(vals) == 2 and isinstance(vals[1], (int, T)):
                if vals[1] is UNIT:
                    return vals[0]
                return self.slice_from_parts(st, vals[0], vals[1])
            return vals[0]
        if k == 'tls':
            return mk('ref', ('static', r[1]), ())
        raise Unsupported('rvalue %s' % (r[:2],))

    def slice_from_parts(self, st, p, n):
        """pointer to first element + length -> slice reference"""
        path = p.a[1]
        if path and path[-1][0] == 'i':
            lo = path[-1][1]
            return mk('ref', p.a[0], path[:-1] + (('s', lo, ladd(lo, n)),))
        return self.extend_path(st, p, ('s', 0, n))

    def discriminant(self, st, v, ti):
        t = self.prog.types[ti] if ti is not None else None
        if is_agg(v):
            if t and t['k'] == 'adt' and v.a[1] < len(t['v']):
                return t['v'][v.a[1]]['d']
            return v.a[1]
        if isinstance(v, int):
            return v
        nm = v.a[0] if isT(v, 'symadt') else v
        return mk('disc', nm, ty='i64')

    # ------------------------------------------------------------ hooks
    def event(self, st, kind, *data, keep=True):
        t = mk('ev', kind, *data)
        if keep:
            st.ev = st.ev + (t,)
        self.hook(kind, st, data, self.where())
        return t

    def where(self):
        return self.site

    def panic(self, st, what, certain, cond=None):
        """a point where the program may panic"""
        if self.quiet_panic == 0:
            self.hook('panic', st, (what, certain, cond), self.site)

    def failmark(self):
        if self.opts.get('failsites'):
            return mk('fl', *(self.site or ('?',)))
        return 1

    def note_unmodelled(self, what, st=None):
        k = (what, self.site)
        self.unmodelled[k] = self.unmodelled.get(k, 0) + 1

    def loc(self):
        return self.site[0] if self.site else '?'

    # ------------------------------------------------------------ blocks
    def step_block(self, fr, body, b, st, out):
        """execute one block; out is a callback (kind, target, state, value)"""
        bl = body.blocks[b]
        self.visited_blocks.add((body.key, b))
        states = [st]
        for s in bl['s']:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget('step budget exhausted in %s' % body.path)
            k = s[0]
            if k == '=':
                self.site = (body.loc(s[3]), body.path)
                nxt = []
                for x in states:
                    self.assign(x, fr, body, s)
                    nxt.append(x)
                states = nxt
            elif k == 'dead':
                for x in states:
                    x.mem.pop((fr, s[1]), None)
            elif k == 'setd':
                for x in states:
                    ref = self.place_ref(x, fr, s[1])
                    v = self.load(x, ref)
                    if is_agg(v):
                        self.store(x, ref, mk('agg', v.a[0], s[2], *v.a[2:]))
            elif k == 'memcpy':
                for x in states:
                    self.note_unmodelled('raw memory copy', x)
        t = bl['t']
        k = t[0]
        for x in states:
            if k == 'goto':
                out('goto', t[1], x, None)
            elif k == 'ret':
                out('ret', None, x, x.mem.get((fr, 0), UNIT))
            elif k == 'unr':
                pass
            elif k == 'drop':
                out('goto', t[2], x, None)
            elif k == 'sw':
                self.site = (body.loc(t[4]), body.path)
                self.switch(fr, body, t, x, out)
            elif k == 'assert':
                self.site = (body.loc(t[6]), body.path)
                c = self.operand(x, fr, t[1])
                want = 1 if t[2] else 0
                tv = self.truth(x, c)
                if self.watch and tv is None:
                    self.hook('branch', x, (c,), self.site)
                if tv is None or tv != want:
                    self.panic(x, 'assert:' + t[3], tv is not None, c)
                if tv is None:
                    if self.assume(x, c, want):
                        out('goto', t[5], x, None)
                elif tv == want:
                    out('goto', t[5], x, None)
            elif k == 'call':
                self.site = (body.loc(t[5]), body.path)
                self.do_call(fr, body, b, t, x, out)
            else:
                raise Unsupported('terminator ' + str(t[:2]))

    def assign(self, st, fr, body, s):
        place = s[1]
        dty = None
        v = self.rvalue(st, fr, body, s[2], dty)
        if not place[1]:
            st.mem[(fr, place[0])] = v
        else:
            self.store(st, self.place_ref(st, fr, place), v)

    def switch(self, fr, body, t, st, out):
        d = self.operand(st, fr, t[1])
        targets = t[2]
        if isinstance(d, int):
            for v, tg in targets:
                if v == d:
                    out('goto', tg, st, None)
                    return
            out('goto', t[3], st, None)
            return
        sv = self.singleton(st, d) if d.op != 'ref' else None
        if self.watch and sv is None:
            self.hook('branch', st, (d,), self.site)
        if sv is not None:
            for v, tg in targets:
                if v == sv:
                    out('goto', tg, st, None)
                    return
            out('goto', t[3], st, None)
            return
        cur = st
        for v, tg in targets:
            e = self.mk_eq(d, v)
            tv = self.truth(cur, e)
            if tv == 0:
                continue
            if tv == 1:
                out('goto', tg, cur, None)
                return
            s2 = cur.copy()
            if self.assume(s2, e, 1):
                out('goto', tg, s2, None)
            if not self.assume(cur, e, 0):
                return
        # exhausted?  (a bool or a fully covered enum)
        if body.blocks[t[3]] is not None and body.blocks[t[3]]['t'][0] == 'unr' and not body.blocks[t[3]]['s']:
            return
        out('goto', t[3], cur, None)

    def do_call(self, fr, body, b, t, st, out):
        f = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, o) for o in t[2]]
        site = self.site
        nfr = mk('fr', fr, body.key, b)
        dty = self.place_ty(body, t[3])
        argtys = [self.operand_ty(body, o) for o in t[2]]
        if self.rawmem:
            self.callterm = (body, t)
        res = self.call_value(st, f, args, nfr, dty, argtys)
        self.site = site
        for s2, v in res:
            if t[4] is None:
                continue
            if v is None:
                continue
            if not t[3][1]:
                s2.mem[(fr, t[3][0])] = v
            else:
                self.store(s2, self.place_ref(s2, fr, t[3]), v)
            out('goto', t[4], s2, None)

    # ------------------------------------------------------------ calls
    def call_value(self, st, f, args, fr, dty=None, argtys=None):
        if isT(f, 'ref'):
            f = self.load(st, f)
        if isT(f, 'fn'):
            return self.call_fn(st, self.fninfo[f.a[0]], args, fr, dty, argtys)
        if isT(f, 'clo'):
            return self.call_closure(st, f, None, args, fr)
        if isT(f, 'pyfn'):
            return f.a[0](self, st, args)
        self.note_unmodelled('call of an unknown function value', st)
        return self.havoc_call(st, 'indirect', args, dty)

    def call_closure(self, st, clo, ref, args, fr):
        """args: untupled"""
        body = self.prog.bodies.get(clo.a[0])
        if body is None:
            self.note_unmodelled('closure without body ' + clo.a[0], st)
            return self.havoc_call(st, clo.a[0], args, None)
        t1 = self.prog.types[body.locals[1]]
        if t1['k'] in ('ref', 'ptr'):
            if ref is None:
                root = (mk('clotmp', fr, st.ctr), 0)
                st.ctr += 1
                st.mem[root] = clo
                ref = mk('ref', root, ())
            env = ref
        else:
            env = clo
        return self.run_body(st, body, [env] + list(args), fr)

    def call_any(self, st, f, args, fr):
        """call a closure / function value (possibly behind references) with a list of arguments"""
        ref = None
        while isT(f, 'ref'):
            ref = f
            f = self.load(st, f)
        if isT(f, 'clo'):
            return self.call_closure(st, f, ref, args, fr)
        return self.call_value(st, f, args, fr)

    def call_fn(self, st, ci, args, fr, dty=None, argtys=None):
        m = self.models.lookup(self, ci)
        if self.watch:
            self.hook('call', st, (ci, args, m is not None), self.where())
        if m is not None:
            r = m(self, st, ci, args, fr, dty)
            if r is not None:
                return r
        key = ci.get('key')
        body = self.prog.bodies.get(key) if key else None
        if body is not None and ci.get('kind', 'item') == 'item':
            only = self.opts.get('inline')
            if only is not None and key not in only and body.crate == self.prog.crate and '{closure' not in body.path:
                for i in range(min(len(args), body.argc)):
                    ti = body.locals[i + 1]
                    t = self.prog.types[ti if isinstance(ti, int) else ti[0]]
                    if t['k'] == 'ref' and t['m'] and self.prog.types[t['e']]['k'] in ('slice', 'array'):
                        self.havoc_reach(st, args[i], name_of(ci), -st.ctr, i)
                    elif t['k'] == 'ref' and t['m']:
                        try:
                            self.store(st, args[i], self.make_value(t['e'], mk('havoc', mk('k', name_of(ci)), st.ctr + 1, i)))
                        except Unsupported:
                            pass
                    st.ctr += 1
                st.ctr += 1
                return [(st, self.make_value(body.locals[0] if dty is None else dty, mk('call', name_of(ci), st.ctr)))]
            return self.run_body(st, body, args, fr)
        r = self.models.dynamic(self, st, ci, args, fr, dty)
        if r is not None:
            return r
        name = ci.get('r') or ci['p']
        if ci.get('never'):
            self.panic(st, name, True)
            return []
        self.note_unmodelled(name, st)
        return self.havoc_call(st, name, args, dty)

    def havoc_call(self, st, name, args, dty):
        """an unknown function: everything reachable through &mut may change"""
        st.ctr += 1
        n = st.ctr
        for i, a in enumerate(args):
            self.havoc_reach(st, a, name, n, i)
        self.event(st, 'unknown', mk('s', name), keep=False)
        return [(st, self.make_value(dty, mk('call', name, n, *[a if isinstance(a, T) else mk('k', a) for a in args])))]

    def havoc_reach(self, st, a, name, n, i, d=0):
        if d > 3 or not isT(a):
            return
        if isT(a, 'ref'):
            if isinstance(a.a[0], tuple) and a.a[0][0] in ('const', 'static'):
                return
            try:
                v = self.load(st, a)
            except Unsupported:
                return
            if isT(v, 'seq'):
                ln = seqlen(v)
                et = None
                self.store(st, a, mkseq([('o', mk('base', mk('havoc', v, n), ln, ty=et), 0, ln)]))
            elif isT(v):
                self.store(st, a, mk('symadt', mk('havoc', v, n), ty=None) if not isinstance(v.ty, str) else mk('havoc', v, n, ty=v.ty))
            else:
                self.store(st, a, mk('havoc', mk('k', v), n))
        elif a.op in ('agg', 'clo'):
            for x in a.a:
                self.havoc_reach(st, x, name, n, i, d + 1)

    def run_body(self, st, body, args, fr):
        if len(self.callstack) > 60 or sum(1 for k in self.callstack if k == body.key) > 3:
            self.note_unmodelled('recursion ' + body.path, st)
            return self.havoc_call(st, body.path, args, body.locals[0])
        self.callstack.append(body.key)
        self.visited_fns.add(body.key)
        self.frames[fr] = body
        saved = self.site
        try:
            for i, v in enumerate(args):
                st.mem[(fr, i + 1)] = v
            if len(args) != body.argc:
                if body.spread is not None or len(args) > body.argc or len(args) < body.argc:
                    # rust-call ABI: last argument is a tuple
                    if args and is_agg(args[-1], '()') and len(args) - 1 + len(args[-1].a) - 2 == body.argc:
                        ex = list(args[:-1]) + list(args[-1].a[2:])
                        for i, v in enumerate(ex):
                            st.mem[(fr, i + 1)] = v
                    else:
                        raise Unsupported('argument count for ' + body.path)
            cfg = body.cfg()
            backs, exits, rets = self.run_region(fr, body, cfg, None, 0, [st], None)
            outc = []
            nl = len(body.locals)
            for s, v in rets:
                for l in range(nl):
                    s.mem.pop((fr, l), None)
                if isT(v, 'agg') and v.a[0] == RES and v.a[1] == 1:
                    s.gh[('fail',)] = self.failmark()
                outc.append((s, v))
            return self.merge_outcomes(outc)
        finally:
            self.callstack.pop()
            self.site = saved

    def merge_outcomes(self, outc):
        if len(outc) < 2:
            return outc
        groups = {}
        for s, v in outc:
            k = (v, frozenset(s.mem.items()), frozenset(s.gh.items()), s.ev)
            groups.setdefault(k, []).append((s, v))
        r = []
        for g in groups.values():
            s = g[0][0]
            for s2, _ in g[1:]:
                s = self.join(s, s2)
            r.append((s, g[0][1]))
        if len(r) > self.opts.get('join_at', 12):
            r = self.join_similar(r, mk('jr', self.callstack[-1] if self.callstack else '', r[0][0].ctr))
        return r

    # ------------------------------------------------ joining by anti-unification
    def shape(self, v, memo):
        """structure of a value with its scalars blanked"""
        if isinstance(v, int):
            return '#' if memo.get('all') or v not in (0, 1) else ('#', v)
        if isT(v):
            s = memo.get(v)
            if s is None:
                if v.op in STRUCT_OPS or v.op in ('scparams', 'ev'):
                    s = (v.op,) + tuple(self.shape(x, memo) for x in v.a)
                elif v.op == 'seq':
                    s = ('seq',) + tuple(self.shape(x, memo) for x in v.a)
                elif self.is_scalar(v):
                    s = '#'
                elif v.op == 'k':
                    s = ('k',)
                else:
                    s = ('t', v.op) if v.op in ('symadt',) and isT(v.a[0], 'err') else v
                memo[v] = s
            return s
        if isinstance(v, tuple):
            return tuple(self.shape(x, memo) for x in v)
        return v

    def is_scalar(self, v):
        return isinstance(v, int) or (isT(v) and (isinstance(v.ty, str) or v.op in ('lin', 'at', 'len', 'byteof', 'slen', 'start')))

    def join_similar(self, outc, tag):
        """merge states of identical structure; scalars that differ become unknowns with hulled ranges"""
        r = self.join_shapes(outc, tag, {})
        if len(r) > 3 * self.opts.get('join_at', 12):
            r = self.join_shapes(r, tag, {'all': 1})      # flags are blanked as well
        return r

    def join_shapes(self, outc, tag, memo):
        groups = {}
        for s, v in outc:
            k = (self.shape(v, memo) if v is not None else None,
                 frozenset((k, self.shape(x, memo)) for k, x in s.mem.items()),
                 frozenset((k, self.shape(x, memo)) for k, x in s.gh.items()),
                 tuple(self.shape(x, memo) for x in s.ev))
            groups.setdefault(k, []).append((s, v))
        out = []
        for gi, g in enumerate(groups.values()):
            if len(g) == 1:
                out.append(g[0])
                continue
            sts = [s for s, _ in g]
            tab, lift = {}, {}

            def gen(vs):
                a = vs[0]
                if all(x is a or (isinstance(x, int) and isinstance(a, int) and x == a) for x in vs):
                    return a
                if isinstance(a, tuple):
                    return tuple(gen([x[i] for x in vs]) for i in range(len(a)))
                if all(self.is_scalar(x) for x in vs):
                    key = tuple(vs)
                    p = tab.get(key)
                    if p is None and isT(a) and a.op in LIFT_OPS and all(isT(x, a.op) and len(x.a) == len(a.a) for x in vs):
                        # the same operation on arguments that differ: f(x), f(y) become f(phi)
                        try:
                            return lift[key]
                        except KeyError:
                            pass
                        try:
                            if a.op == 'bitxor':
                                com = [y for y in a.a if all(y in x.a for x in vs)]
                                rest = [[y for y in x.a if y not in com] for x in vs]
                                if any(len(y) != len(rest[0]) for y in rest):
                                    raise Unsupported('join of sums')
                                ars = com + [gen(list(y)) for y in zip(*rest)]
                                ars.sort(key=lambda y: (isinstance(y, int), 0 if isinstance(y, int) else y.id))
                            else:
                                ars = [gen([x.a[i] for x in vs]) for i in range(len(a.a))]
                            r = lift[key] = mk(a.op, *ars, ty=a.ty)
                            return r
                        except Unsupported:
                            pass
                    if p is None:
                        ty = next((x.ty for x in vs if isT(x) and isinstance(x.ty, str)), None)
                        p = tab[key] = mk('phi', tag, gi, len(tab), max(s.ctr for s in sts), ty=ty)
                    return p
                if isT(a, 'seq'):
                    return mkseq([tuple(gen([x.a[i][j] for x in vs]) if j else a.a[i][0] for j in range(len(a.a[i]))) for i in range(len(a.a))])
                if isT(a, 'k') and all(isT(x, 'k') for x in vs):
                    r = gen([x.a[0] for x in vs])
                    return r if isT(r) else mk('k', r)
                if isT(a, 'symadt') and isT(a.a[0], 'err'):
                    return a
                if isT(a) and all(isT(x, a.op) and len(x.a) == len(a.a) for x in vs):
                    return mk(a.op, *[gen([x.a[i] for x in vs]) for i in range(len(a.a))], ty=a.ty)
                raise Unsupported('join of %r' % (a,))
            try:
                j = State()
                j.ctr = max(s.ctr for s in sts) + 1    # keeps the unknowns of later joins distinct
                j.mem = {k: gen([s.mem[k] for s in sts]) for k in sts[0].mem}
                j.gh = {k: gen([s.gh[k] for s in sts]) for k in sts[0].gh}
                j.ev = tuple(gen([s.ev[i] for s in sts]) for i in range(len(sts[0].ev)))
                v = gen([v for _, v in g]) if g[0][1] is not None else None
            except Unsupported:
                out.extend(g)
                continue
            acc = sts[0].copy()
            for s in sts[1:]:
                acc = self.join(acc, s)
            j.facts, j.rng, j.lins = acc.facts, acc.rng, acc.lins
            for vs, p in tab.items():
                rs = [self.trange(s, x) for s, x in zip(sts, vs)]
                j.rng[p] = (min(a for a, b in rs), max(b for a, b in rs))
            out.append((j, v))
        return out

    def join(self, a, b):
        f = {}
        for k, v in a.facts.items():
            if b.facts.get(k) == v:
                f[k] = v
            elif k not in b.facts and k.ty == 'bool' and self.truth(b, k) == v:
                f[k] = v
        for k, v in b.facts.items():
            if k not in f and k not in a.facts and k.ty == 'bool' and self.truth(a, k) == v:
                f[k] = v
        if self.opts.get('disjunctions'):
            ds = []
            for x in (a, b):
                ds.append(mk('and', *[k if v == 1 else mk('not', k, ty='bool') if v == 0 else mk('eq', k, v, ty='bool')
                                      for k, v in x.facts.items() if k not in f], ty='bool'))
            if all(d.a for d in ds) and ds[0] is not ds[1]:
                f[mk('or', *ds, ty='bool')] = 1
        rng = {}
        for k, (lo, hi) in a.rng.items():
            l2, h2 = self.trange(b, k)
            rng[k] = (min(lo, l2), max(hi, h2))
        for k, (lo, hi) in b.rng.items():
            if k not in rng:
                l2, h2 = self.trange(a, k)
                rng[k] = (min(lo, l2), max(hi, h2))
        if a.lins is b.lins:
            lins = a.lins
        else:
            lins = a.lins & b.lins
            for l in a.lins - b.lins:
                if self.nonneg(b, l, 1):
                    lins = lins | {l}
            for l in b.lins - a.lins:
                if self.nonneg(a, l, 1):
                    lins = lins | {l}
        a.facts = f
        a.rng = rng
        a.lins = frozenset(lins)
        a.ctr = max(a.ctr, b.ctr)
        return a

    def prune(self, fr, body, cfg, b, st):
        livein, addr = cfg.live()
        dead = cfg.dead.get(b)
        if dead is None:
            lv = livein.get(b, ())
            dead = cfg.dead[b] = frozenset(l for l in range(len(body.locals)) if l not in lv and l not in addr)
        mem = st.mem
        for l in dead:
            mem.pop((fr, l), None)

    def merge_states(self, fr, body, cfg, b, sts):
        if len(sts) == 1 and len(cfg.pred[b]) == 1 and b not in cfg.loops:
            return sts           # nothing to merge: dead locals can wait
        for s in sts:
            self.prune(fr, body, cfg, b, s)
        if len(sts) < 2:
            return sts
        groups = {}
        for s in sts:
            k = (frozenset(s.mem.items()), frozenset(s.gh.items()), s.ev)
            g = groups.get(k)
            if g is None:
                groups[k] = s
            else:
                groups[k] = self.join(g, s)
        r = list(groups.values())
        if len(r) > self.opts.get('join_at', 12):
            r = [s for s, _ in self.join_similar([(s, None) for s in r], mk('jn', fr, body.key, b))]
        lim = self.opts.get('max_states', 400)
        if len(r) > lim:
            raise Budget('more than %d distinct abstract states in %s' % (lim, body.path))
        return r

    # ------------------------------------------------------------ regions
    def run_region(self, fr, body, cfg, blocks, entry, states, header):
        pend = {entry: list(states)}
        backs, exits, rets = [], {}, []

        def emit(target, s):
            if target == header:
                backs.append(s)
            elif blocks is None or target in blocks:
                pend.setdefault(target, []).append(s)
            else:
                exits.setdefault(target, []).append(s)

        def out(kind, target, s, v):
            if kind == 'ret':
                rets.append((s, v))
            else:
                emit(target, s)

        for b in cfg.rpo:
            if b not in pend:
                continue
            sts = pend.pop(b)
            if body.blocks[b] is None:
                continue
            sts = self.merge_states(fr, body, cfg, b, sts)
            if b in cfg.loops and b != header:
                for s in sts:
                    ex, rt = self.run_loop(fr, body, cfg, b, s)
                    rets.extend(rt)
                    for tg, ss in ex.items():
                        for x in ss:
                            emit(tg, x)
            else:
                for s in sts:
                    self.step_block(fr, body, b, s, out)
        return backs, exits, rets

    def run_loop(self, fr, body, cfg, head, s0):
        loop = cfg.loops[head]
        exits, rets = {}, []
        cur = [s0]
        first = s0.copy()
        for it in range(self.maxloop):
            snap = [c.copy() for c in cur] if it < 2 else None
            backs, ex, rt = self.run_region(fr, body, cfg, loop, head, cur, head)
            backs = self.merge_states(fr, body, cfg, head, backs)
            if it == 0:
                # decide between unrolling and a fixpoint
                if not backs:
                    return ex, rt
                self.prune(fr, body, cfg, head, first)
                if not self.opts.get('unrollall') and not all(self.progresses(first, s) for s in backs):
                    return self.fixpoint(fr, body, cfg, head, first, backs)
            rets.extend(rt)
            for tg, ss in ex.items():
                exits.setdefault(tg, []).extend(ss)
            if not backs:
                # merge what left the loop
                for tg in exits:
                    exits[tg] = self.merge_states(fr, body, cfg, tg, exits[tg])
                return exits, rets
            if len(backs) > self.opts.get('max_backs', 64):
                break
            cur = backs
        # did not finish: generalise from the entry
        return self.fixpoint(fr, body, cfg, head, first, None)

    def progresses(self, a, b):
        """does one trip change some constant that could decide the loop exit?"""
        for k, v in b.gh.items():
            if k[0] == 'pos' and a.gh.get(k, gh_default(k)) is not v:
                return False
        def concrete_change(x, y, d=0):
            if x is y:
                return False
            if isinstance(x, int) and isinstance(y, int):
                return x != y
            if isinstance(x, T) and isinstance(y, T) and x.op == y.op and d < 8:
                if x.op == 'enumr':
                    return concrete_change(x.a[0], y.a[0], d + 1)
                if x.op in PROGRESS_OPS:
                    if len(x.a) == len(y.a):
                        return any(concrete_change(p, q, d + 1) for p, q in zip(x.a, y.a))
                if x.op in ('sit', 'vit'):
                    # iterator over a concrete number of elements
                    n0, n1 = lsub(x.a[2], x.a[1]), lsub(y.a[2], y.a[1])
                    return isinstance(n0, int) and isinstance(n1, int) and n0 != n1
                if x.op == 'seq':
                    l0, l1 = seqlen(x), seqlen(y)
                    return isinstance(l0, int) and isinstance(l1, int) and l0 != l1
                if x.op == 'ref':
                    p, q = x.a[1], y.a[1]
                    if p and q and p[-1][0] == 's' and q[-1][0] == 's':
                        n0, n1 = lsub(p[-1][2], p[-1][1]), lsub(q[-1][2], q[-1][1])
                        return isinstance(n0, int) and isinstance(n1, int) and n0 != n1
            return False
        for k, v in b.mem.items():
            w = a.mem.get(k)
            if w is not None and w is not v and concrete_change(w, v):
                return True
        return False

    # ------------------------------------------------------------ fixpoints
    def fixpoint(self, fr, body, cfg, head, s0, backs):
        loop = cfg.loops[head]
        lid = mk('loop', fr, body.key, head, s0.ctr)
        s0 = s0.copy()
        self.prune(fr, body, cfg, head, s0)
        if backs is None:
            c = s0.copy()
            backs, ex, rt = self.run_region(fr, body, cfg, loop, head, [c], head)
            backs = self.merge_states(fr, body, cfg, head, backs)
            if not backs:
                return ex, rt
        pex, prt = {}, []
        backs = self.peel(fr, body, cfg, head, s0, backs, pex, prt)
        g = Gen(self, lid, s0)
        for bst in backs:
            g.add(bst)
        outer = self.hook
        for rnd in range(12):
            G = g.state()
            run = G.copy()
            held = []

            def hold(kind, st, data, site):
                # obligations met on the way to the invariant count only in the round that establishes it
                if kind in ('unchecked', 'panic'):
                    held.append((kind, st if kind == 'unchecked' and data[1] == 1 else st.copy(), data, site))
                else:
                    outer(kind, st, data, site)
            self.hook = hold
            try:
                backs, ex, rt = self.run_region(fr, body, cfg, loop, head, [run], head)
                backs = self.merge_states(fr, body, cfg, head, backs)
                backs = self.peel(fr, body, cfg, head, G, backs, ex, rt)
                stable = True
                trips = []
                for bst in backs:
                    if not g.covers(bst):
                        stable = False
                    trips.append((bst, g.sub))
            finally:
                self.hook = outer
            if stable:
                for h in held:
                    self.hook(*h)
                self.recs[lid] = (g, G, trips)
                # zero-trip executions are instances of G by construction
                self.loop_notes.append((body.path, head, rnd, g.describe()))
                for ss in ex.values():
                    for x in ss:
                        self.settle(x, g)
                rt = [(x, self.settle(x, g, v)) for x, v in rt]
                return ex, rt
        raise Unsupported('no loop invariant found in %s' % body.path)


    def settle(self, st, g, v=None):
        """after the loop: an unknown that is known to have reached its bound is that bound"""
        sub = {}
        for p, us in g.high.items():
            if p not in g.phis:
                continue
            for u in us:
                if not (isT(u) and any(x in g.phis for x in subterms(u))) and self.nonneg(st, lsub(p, u)):
                    sub[p] = u
                    break
        if sub:
            memo = {}
            st.mem = {k: substitute(x, sub, memo) for k, x in st.mem.items()}
            st.gh = {k: substitute(x, sub, memo) for k, x in st.gh.items()}
            st.ev = tuple(substitute(x, sub, memo) for x in st.ev)
            if v is not None:
                v = substitute(v, sub, memo)
        return v

    def peel(self, fr, body, cfg, head, s0, backs, ex, rt):
        """back states in which the input just ended and that leave the loop without another trip need no invariant: their exits are
        collected directly"""
        keep = []
        for b in backs:
            if any(k[0] == 'eof' and b.gh.get(k) == 1 and s0.gh.get(k, gh_default(k)) != 1 for k in b.gh):
                b2, e2, r2 = self.run_region(fr, body, cfg, cfg.loops[head], head, [b.copy()], head)
                if not b2:
                    rt.extend(r2)
                    for tg, ss in e2.items():
                        ex.setdefault(tg, []).extend(ss)
                    continue
            keep.append(b)
        return keep


UNINIT = mk('uninit')

STRUCT_OPS = {'agg', 'zip', 'adapt', 'clo', 'sit', 'vit', 'sha', 'b2', 'ref', 'fn', 'cursor', 'lines', 'box', 'rev', 'map', 'lit', 'ev',
              'enumr', 'cloned', 'take', 'skip', 'chain', 'chunks', 'windows', 'stepby', 'peek', 'inspect', 'takew', 'filter', 'filtermap',
              'flatmap', 'optit'}
PROGRESS_OPS = {'agg', 'zip', 'adapt', 'clo', 'lit', 'map', 'cloned', 'rev', 'take', 'skip', 'chain', 'chunks', 'windows', 'stepby', 'peek',
                'inspect', 'takew', 'filter', 'filtermap', 'flatmap', 'optit'}


LINEAR_OPS = ('lin', 'sym', 'len', 'slen', 'start', 'phi', 'at', 'fld', 'cat', 'byteof', 'nread')


def num_index(num, p):
    for i, x in enumerate(num):
        if x[0] is p:
            return i


class Gen:
    """generalised loop-head state: common structure with phi symbols for what varies"""

    def __init__(self, eng, lid, s0):
        self.e = eng
        self.lid = lid
        self.s0 = s0
        self.mem = dict(s0.mem)
        self.gh = dict(s0.gh)
        self.ev = s0.ev
        self.facts = dict(s0.facts)
        self.rng = dict(s0.rng)
        self.lins = set(s0.lins)
        self.phis = {}      # phi term -> initial value
        self.low = {}       # phi -> candidate lower bound (value), checked inductively
        self.high = {}
        self.pairs = {}
        self.ctr = s0.ctr + 1
        self.first = True
        self.stars = None
        self.sub = None
        self.xl = set()     # further inequalities over the unknowns, checked inductively
        self.gone = {}      # unknowns replaced by expressions in others
        self.later = []     # matches that need the values of other unknowns

    def phi(self, a, b, ty=None, isseq=False, flen=None):
        key = (a, b, isseq)
        p = self.pairs.get(key)
        if p is None:
            p = mk('phi', self.lid, len(self.phis) + len(self.gone), ty=ty)
            self.pairs[key] = p
            self.phis[p] = a
            if not isseq:
                self.new.append((p, a, b))
        return p

    def gen(self, a, b):
        if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
            return a
        if isT(a, 'phi') and a in self.phis:
            return a     # keep; covers() re-checks
        e = self.e
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) == len(b):
                return tuple(self.gen(x, y) if isinstance(x, (T, int, tuple)) and not isinstance(x, str) else x for x, y in zip(a, b))
            return a
        if isinstance(a, str) or isinstance(b, str):
            return a if a == b else mk('phi', self.lid, 'str')
        if isT(a, 'seq') and isT(b, 'seq'):
            return self.genseq(a, b)
        if isT(a) and isT(b) and a.op == b.op and a.op in STRUCT_OPS and len(a.a) == len(b.a):
            if a.op == 'agg' and (a.a[0] != b.a[0] or a.a[1] != b.a[1]):
                return mk('symadt', self.phi(a, b), ty=None)
            if a.op == 'ref' and (a.a[0] != b.a[0] or len(a.a[1]) != len(b.a[1])):
                return mk('symadt', self.phi(a, b), ty=None)
            return mk(a.op, *[self.gen(x, y) for x, y in zip(a.a, b.a)], ty=a.ty)
        sc = lambda v: isinstance(v, int) or (isT(v) and (isinstance(v.ty, str) or v.op in ('lin', 'at', 'len', 'byteof', 'slen')))
        if sc(a) and sc(b):
            ty = None
            for v in (a, b):
                if isT(v) and isinstance(v.ty, str):
                    ty = v.ty
            return self.phi(a, b, ty=ty)
        return mk('symadt', self.phi(a, b), ty=None)

    def genseq(self, a, b):
        sa, sb = list(a.a), list(b.a)
        pre = []
        while sa and sb and sa[0] == sb[0]:
            pre.append(sa.pop(0))
            sb.pop(0)
        post = []
        while sa and sb and sa[-1] == sb[-1]:
            post.insert(0, sa.pop())
            sb.pop()
        if len(sa) <= 1 and len(sb) == 1 and sb[0][0] == 'o':
            g = sb[0]
            if not sa:
                return mkseq(pre + [('o', g[1], g[2], self.phi(g[2], g[3], ty='usize'))] + post)
            f = sa[0]
            if f[0] == 'o' and f[1] is g[1]:
                lo = f[2] if f[2] == g[2] else self.phi(f[2], g[2], ty='usize')
                hi = f[3] if f[3] == g[3] else self.phi(f[3], g[3], ty='usize')
                return mkseq(pre + [('o', g[1], lo, hi)] + post)
        if len(sa) == 1 and not sb and sa[0][0] == 'o':
            g = sa[0]
            return mkseq(pre + [('o', g[1], g[2], self.phi(g[3], g[2], ty='usize'))] + post)
        if len(sb) == 1 and sb[0][0] == 'e' and (not sa or len(sa) == 1 and sa[0][0] == 'e' and sb[0][1][:len(sa[0][1])] == sa[0][1]) \
                and len(sb[0][1]) == (len(sa[0][1]) if sa else 0) + 1:
            # one known element was appended: the next one of a sequence that is being walked over?
            q = self.walked(sb[0][1][-1])
            if q is not None:
                return mkseq(pre + sa + [('o', mk('base', mk('view', q), seqlen(q)), 0, self.phi(0, 1, ty='usize'))] + post)
        la, lb = seqlen(a), seqlen(b)
        if len(sa) == 2 and len(sb) == 2 and not pre and not post and (la is lb or la == lb) and sa[0][0] == sb[0][0] == 'o' \
                and sa[0][1] is sb[0][1] and sa[1][0] == sb[1][0] == 'o' and sa[1][2] == 0 and sb[1][2] == 0 and sa[1][1] is not sb[1][1]:
            # a read into the front of a buffer: the part that was read, and the rest
            lo = sa[0][2] if sa[0][2] == sb[0][2] else self.phi(sa[0][2], sb[0][2], ty='usize')
            hi = sa[0][3] if sa[0][3] == sb[0][3] else self.phi(sa[0][3], sb[0][3], ty='usize')
            rest = lsub(la, lsub(hi, lo))
            p = self.phi(sa[1][1], sb[1][1], isseq=True)
            return mkseq([('o', sa[0][1], lo, hi), ('o', mk('base', p, rest), 0, rest)])
        if la is lb or la == lb:
            if isinstance(la, int) and la <= 300:
                ea, eb = elements(a), elements(b)
                if ea is not None and eb is not None:
                    return sq_elems([self.gen(x, y) for x, y in zip(ea, eb)])
            p = self.phi(a, b, isseq=True)
            bb = mk('base', p, la)
            return mkseq([('o', bb, 0, la)])
        p = self.phi(a, b, isseq=True)
        bb = mk('base', p, mk('len', p, ty='usize'))
        return sq_base(bb)

    def walked(self, x):
        """a byte sequence of several parts, with first element x, whose iterator went from 0 to 1 in this trip"""
        if self.trip is None:
            return None

        def walk(a, b, s):
            if not (isT(a) and isT(b) and a.op == b.op and len(a.a) == len(b.a)):
                return None
            if a.op in ('vit', 'sit') and a.a[1] == 0 and b.a[1] == 1:
                q = a.a[0] if a.op == 'vit' else self.e.load(s, a.a[0])
                if isT(q, 'seq') and len(q.a) > 1 and q.a[0][0] == 'e' and self.e.seq_at(s, q, 0) == x:
                    return q
                return None
            if a.op in STRUCT_OPS:
                for y, z in zip(a.a, b.a):
                    r = walk(y, z, s)
                    if r is not None:
                        return r
            return None
        for k, v in self.trip.mem.items():
            if k in self.s0.mem and self.s0.mem[k] is not v:
                try:
                    r = walk(self.s0.mem[k], v, self.trip)
                except Unsupported:
                    r = None
                if r is not None:
                    return r
        return None

    trip = None

    def add(self, s):
        e = self.e
        self.new = []
        self.trip = s
        for k in list(self.mem):
            if k not in s.mem:
                # a lazily created root keeps its default
                if isinstance(k[0], str):
                    continue
                self.mem.pop(k)
                continue
            self.mem[k] = self.gen(self.mem[k], s.mem[k])
        for k, v in s.mem.items():
            if k not in self.mem and isinstance(k[0], str):
                try:
                    d = e.root_value(self.s0, k)
                except Unsupported:
                    continue
                self.mem[k] = self.gen(d, v)
        for k in set(self.gh) | set(s.gh):
            a = self.gh.get(k, gh_default(k))
            b = s.gh.get(k, gh_default(k))
            self.gh[k] = self.gen(a, b)
        # events: common prefix, then the set of what the loop may add
        if s.ev != self.ev:
            n = 0
            while n < len(self.ev) and n < len(s.ev) and self.ev[n] is s.ev[n]:
                n += 1
            if self.stars is None:
                self.stars = len(self.s0.ev)
            cur = set()
            for x in list(self.ev[self.stars:]) + list(s.ev[self.stars:]):
                if x.op == 'evstar':
                    cur |= set(x.a[0])
                else:
                    cur.add(x)
            self.ev = self.s0.ev + (mk('evstar', frozenset(cur)),)
        # facts that hold on every entry
        for k in list(self.facts):
            if e.truth(s, k) != self.facts[k] and s.facts.get(k) != self.facts[k]:
                del self.facts[k]
        for k in list(self.rng):
            lo, hi = e.trange(s, k)
            a, b = self.rng[k]
            if lo < a or hi > b:
                self.rng[k] = (min(a, lo), max(b, hi))
        self.lins = {l for l in self.lins if e.nonneg(s, l)}
        for p, a, b in self.new:
            if isinstance(a, int) or isT(a):
                try:
                    if e.nonneg(s, lsub(b, a)):
                        self.low[p] = a
                    if e.nonneg(s, lsub(a, b)):
                        self.high.setdefault(p, []).append(a)
                except Exception:
                    pass
                # upper bounds known on arrival that mention the new value
                cands = set()
                for l in s.lins:
                    d, c = lin_parts(l)
                    db, cb = lin_parts(b)
                    if isT(b) and b.op != 'lin' and d.get(b) == -1 and not any(isT(x, 'phi') and x.a[0] is self.lid for x in d):
                        ub = lin_make({x: k for x, k in d.items() if x is not b}, c)
                        cands.add(ub)
                    elif isT(b, 'lin'):
                        # l = ub - b
                        ub = ladd(l, b)
                        if not isT(ub, 'lin') or len(lin_parts(ub)[0]) <= 1:
                            cands.add(ub)
                for ub in cands:
                    try:
                        if e.nonneg(self.s0, lsub(ub, a)) and e.nonneg(s, lsub(ub, b)):
                            self.high.setdefault(p, []).append(ub)
                    except Exception:
                        pass
        # Range { start, end }: start stays below end
        self.range_bounds(s)
        self.relate(s)
        if s.ctr > self.ctr and self.first:
            self.ctr = s.ctr
            self.first = False

    def relate(self, s):
        """candidate affine relations between unknowns: those that hold on entry and after one trip replace an unknown;
        covers() then proves them for every trip (or gives them up)"""
        num = [(p, a, b) for p, a, b in self.new if p in self.phis and p.ty != 'bool' and p.ty != 'char' and not (isT(p.ty) or False)
               and all(isinstance(v, int) or (isT(v) and v.op in LINEAR_OPS) for v in (a, b))]
        if len(num) < 2 or len(num) > 12:
            return
        step = {p: lsub(b, a) for p, a, b in num}
        rep = {}
        const = [p for p, a, b in num if isinstance(step[p], int) and step[p] != 0]
        if len(const) > 1:
            base = min(const, key=lambda p: (abs(step[p]), num_index(num, p)))
            ib = next(a for p, a, b in num if p is base)
            for p, a, b in num:
                if p is not base and p in const and step[p] % step[base] == 0 and step[p] // step[base] > 0:
                    rep[p] = ladd(a, lmul(lsub(base, ib), step[p] // step[base]))
        var = [(p, a, b) for p, a, b in num if not isinstance(step[p], int)]
        for x, ax, bx in reversed(var):
            if x in rep:
                continue
            for q, aq, bq in var:
                if q is x or q in rep:
                    continue
                if step[q] == step[x]:
                    rep[x] = ladd(q, lsub(ax, aq))
                    break
                for p, ap, bp in var:
                    if p is q or p is x or p in rep:
                        continue
                    t = lsub(ax, lsub(aq, ap))
                    if t == lsub(bx, lsub(bq, bp)):
                        rep[x] = ladd(lsub(q, p), t)
                        break
                if x in rep:
                    break
        if not rep:
            return
        # resolve chains
        for x in list(rep):
            rep[x] = substitute(rep[x], {k: v for k, v in rep.items() if k is not x})
        for x, ax, bx in num:
            # constant bounds
            (l1, h1), (l2, h2) = self.e.trange(self.s0, ax), self.e.trange(s, bx)
            if x in rep:
                if min(l1, l2) > -INF:
                    self.xl.add(lsub(rep[x], min(l1, l2)))
                if max(h1, h2) < LENMAX:
                    self.xl.add(lsub(max(h1, h2), rep[x]))
        for x, r in rep.items():
            lo = self.low.pop(x, None)
            if lo is not None:
                self.xl.add(substitute(lsub(r, lo), rep))
            for u in self.high.pop(x, []):
                self.xl.add(substitute(lsub(u, r), rep))
        self.low = {p: substitute(v, rep) if isT(v) else v for p, v in self.low.items()}
        self.high = {p: [substitute(u, rep) if isT(u) else u for u in us] for p, us in self.high.items()}
        self.mem = {k: substitute(v, rep) for k, v in self.mem.items()}
        self.gh = {k: substitute(v, rep) for k, v in self.gh.items()}
        for x in rep:
            self.phis.pop(x, None)
            self.gone[x] = rep[x]

    def range_bounds(self, s):
        e = self.e

        def walk(g, a, b):
            if isT(g, 'agg') and isinstance(g.a[0], str) and g.a[0] == 'std::ops::Range' and len(g.a) == 4 and is_agg(a) and is_agg(b):
                p, end = g.a[2], g.a[3]
                if p in self.phis and isinstance(end, (int, T)) and end not in self.phis:
                    try:
                        if e.nonneg(self.s0, lsub(end, a.a[2])) and e.nonneg(s, lsub(end, b.a[2])):
                            self.high.setdefault(p, []).append(end)
                    except Exception:
                        pass
            if isT(g) and isT(a) and isT(b) and g.op == a.op == b.op and g.op in STRUCT_OPS and len(g.a) == len(a.a) == len(b.a):
                for x, y, z in zip(g.a, a.a, b.a):
                    walk(x, y, z)
            # iterator positions: front <= back
            if isT(g) and g.op in ('sit', 'vit') and isT(a) and isT(b) and a.op == g.op == b.op:
                f, bk = g.a[1], g.a[2]
                if f in self.phis and bk not in self.phis:
                    try:
                        if e.nonneg(self.s0, lsub(bk, a.a[1])) and e.nonneg(s, lsub(bk, b.a[1])):
                            self.high.setdefault(f, []).append(bk)
                    except Exception:
                        pass
                elif bk in self.phis and f not in self.phis:
                    try:
                        if e.nonneg(self.s0, lsub(a.a[2], f)) and e.nonneg(s, lsub(b.a[2], f)):
                            self.low.setdefault(bk, f)
                    except Exception:
                        pass
        for k, g in self.mem.items():
            if k in self.s0.mem and k in s.mem:
                walk(g, self.s0.mem[k], s.mem[k])

    def state(self):
        st = State()
        st.mem = dict(self.mem)
        st.gh = dict(self.gh)
        st.ev = self.ev
        st.facts = dict(self.facts)
        st.rng = dict(self.rng)
        st.lins = frozenset(self.lins)
        st.ctr = self.ctr
        for p, a in self.low.items():
            self.e.add_lin(st, lsub(p, a))
        for p, ubs in self.high.items():
            for u in dict.fromkeys(ubs):
                self.e.add_lin(st, lsub(u, p))
        for l in self.xl:
            if isT(l):
                self.e.add_lin(st, l)
        return st

    # -------- inductive check
    def match(self, g, v, sub):
        if isT(g, 'phi') and g in self.phis:
            if g in sub:
                return sub[g] is v or sub[g] == v
            sub[g] = v
            return True
        if g is v:
            return not self.has_phi(g) or self.same_phi(g, sub)
        if isinstance(g, int) or isinstance(v, int):
            if isinstance(g, int) and isinstance(v, int):
                return g == v
        if isinstance(g, tuple):
            return isinstance(v, tuple) and len(g) == len(v) and all(self.match(x, y, sub) for x, y in zip(g, v))
        if isinstance(g, str):
            return g == v
        if isT(g, 'lin') and isinstance(v, (int, T)):
            ps = [(t, c) for t, c in g.a[0] if t in self.phis]
            if len(ps) == 1 and ps[0][1] in (1, -1):
                p, c = ps[0]
                rest = lsub(g, lmul(p, c))
                val = lsub(v, rest)
                if c == -1:
                    val = lmul(val, -1)
                if p in sub:
                    return sub[p] is val or sub[p] == val
                sub[p] = val
                return True
            if ps and any(t not in sub for t, _ in ps):
                self.later.append((g, v))
                return True
            return substitute(g, sub) is v or substitute(g, sub) == v
        if isT(g, 'symadt') and isT(g.a[0], 'phi') and g.a[0] in self.phis:
            p = g.a[0]
            if p in sub:
                return sub[p] is v
            sub[p] = v
            return True
        if not isT(v) or not isT(g):
            return False
        if g.op == 'seq':
            if v.op != 'seq':
                return False
            return self.matchseq(g, v, sub)
        if g.op == v.op and len(g.a) == len(v.a):
            return all(self.match(x, y, sub) for x, y in zip(g.a, v.a))
        return False

    def has_phi(self, g):
        return any(isT(x, 'phi') and x in self.phis for x in subterms(g))

    def same_phi(self, g, sub):
        for x in subterms(g):
            if isT(x, 'phi') and x in self.phis:
                if x in sub:
                    if sub[x] is not x:
                        return False
                else:
                    sub[x] = x
        return True

    def matchseq(self, g, v, sub):
        gs, vs = list(g.a), list(v.a)
        if len(gs) == 1 and gs[0][0] == 'o' and isT(gs[0][1], 'base') and isT(gs[0][1].a[0], 'phi') and gs[0][1].a[0] in self.phis:
            p = gs[0][1].a[0]
            n = gs[0][1].a[1]
            if isT(n, 'len') and n.a[0] is p:
                pass
            elif not (seqlen(v) is n or seqlen(v) == n):
                return False
            if p in sub:
                return sub[p] is v
            sub[p] = v
            return True
        while gs and vs and gs[0] == vs[0] and not self.has_phi(gs[0]):
            gs.pop(0)
            vs.pop(0)
        post = []
        while gs and vs and gs[-1] == vs[-1] and not self.has_phi(gs[-1]):
            gs.pop()
            vs.pop()
        if not gs and not vs:
            return True
        if len(gs) == 1 and gs[0][0] == 'o':
            b, lo, hi = gs[0][1:]
            if not vs:
                if lo in self.phis and hi in self.phis:
                    return False
                if hi in self.phis:
                    return self.match(hi, lo, sub)
                if lo in self.phis:
                    return self.match(lo, hi, sub)
                return False
            if len(vs) == 1 and vs[0][0] == 'o' and vs[0][1] is b:
                return self.match(lo, vs[0][2], sub) and self.match(hi, vs[0][3], sub)
        if len(gs) == len(vs):
            for x, y in zip(gs, vs):
                if x[0] != y[0] or not all(self.match(p, q, sub) if not isinstance(p, str) else True for p, q in zip(x[1:], y[1:])):
                    return False
            return True
        eg, ev = elements(mkseq(gs)), elements(mkseq(vs))
        if eg is not None and ev is not None and len(eg) == len(ev):
            return all(self.match(x, y, sub) for x, y in zip(eg, ev))
        return False

    def covers(self, s):
        """is s an instance of the generalised state?  If not, weaken it."""
        e = self.e
        sub = self.sub = {}
        okm = True
        self.new = []
        self.later = []
        pend = []
        for k, g in list(self.mem.items()):
            v = s.mem.get(k)
            if v is None:
                if isinstance(k[0], str):
                    try:
                        v = e.root_value(s, k)
                    except Unsupported:
                        v = None
                if v is None:
                    del self.mem[k]
                    okm = False
                    continue
            save = dict(sub)
            self.later = []
            if not self.match(g, v, sub):
                sub.clear()
                sub.update(save)
                self.mem[k] = self.weaken(g, v)
                okm = False
            else:
                pend.extend((self.mem, k, a, b) for a, b in self.later)
        for k in set(self.gh) | set(s.gh):
            g = self.gh.get(k, gh_default(k))
            v = s.gh.get(k, gh_default(k))
            save = dict(sub)
            self.later = []
            if not self.match(g, v, sub):
                sub.clear()
                sub.update(save)
                self.gh[k] = self.weaken(g, v)
                okm = False
            else:
                pend.extend((self.gh, k, a, b) for a, b in self.later)
        self.later = []
        for tab, k, a, b in pend:
            bad = any(isT(x, 'phi') and x in self.phis and x not in sub for x in subterms(a))
            r = None if bad else substitute(a, sub)
            if bad or not (r is b or r == b):
                # the relation does not survive the trip: an unknown of its own
                p = mk('phi', self.lid, len(self.phis) + len(self.gone), 'rel', ty='usize')
                self.phis[p] = substitute(a, {x: y for x, y in self.phis.items() if not isT(y, 'seq')})
                tab[k] = substitute(tab[k], {a: p})
                okm = False
        # events
        n0 = len(self.s0.ev)
        have = set()
        for x in self.ev[n0:]:
            if x.op == 'evstar':
                have |= set(x.a[0])
            else:
                have.add(x)
        got = set()
        for x in s.ev[n0:]:
            if x.op == 'evstar':
                got |= set(x.a[0])
            else:
                got.add(x)
        if not got <= have:
            self.ev = self.s0.ev + (mk('evstar', frozenset(have | got)),)
            okm = False
        for k in list(self.facts):
            if s.facts.get(k) != self.facts[k] and e.truth(s, k) != self.facts[k]:
                del self.facts[k]
                okm = False
        for k in list(self.rng):
            lo, hi = e.trange(s, k)
            a, b = self.rng[k]
            if lo < a or hi > b:
                del self.rng[k]
                okm = False
        for l in list(self.lins):
            if not e.nonneg(s, l):
                self.lins.discard(l)
                okm = False
        for p in list(self.low):
            v = sub.get(p)
            if v is None or not e.nonneg(s, lsub(v, self.low[p])):
                if v is not None or not okm:
                    if v is not None:
                        del self.low[p]
                        okm = False
        for p in list(self.high):
            v = sub.get(p)
            if v is None:
                continue
            keep = [u for u in self.high[p] if e.nonneg(s, lsub(substitute(u, sub) if isT(u) else u, v))]
            if len(keep) != len(self.high[p]):
                self.high[p] = keep
                okm = False
        for l in list(self.xl):
            if not isT(l):
                continue
            if any(isT(x, 'phi') and x in self.phis and x not in sub for x in subterms(l)) or not e.nonneg(s, substitute(l, sub)):
                self.xl.discard(l)
                okm = False
        for p, a, b in self.new:
            try:
                if e.nonneg(s, lsub(b, a)):
                    self.low[p] = a
            except Exception:
                pass
        return okm

    def weaken(self, g, v):
        if isT(g, 'phi') and g in self.phis:
            # same phi used for two different evolutions: give this location its own
            k = ('split', g, len(self.phis))
            p = mk('phi', self.lid, len(self.phis), ty=g.ty)
            self.phis[p] = self.phis[g]
            return p
        if isT(g, 'seq') and isT(v, 'seq'):
            r = self.genseq(g, v)
            if r is g or r == g:
                p = mk('phi', self.lid, len(self.phis))
                self.phis[p] = g
                lg, lv = seqlen(g), seqlen(v)
                n = lg if (lg is lv or lg == lv) else mk('len', p, ty='usize')
                return mkseq([('o', mk('base', p, n), 0, n)])
            return r
        if isT(g) and isT(v) and g.op == v.op and g.op in STRUCT_OPS and len(g.a) == len(v.a) and not (g.op == 'agg' and g.a[:2] != v.a[:2]):
            if not (g.op == 'ref' and (g.a[0] != v.a[0] or len(g.a[1]) != len(v.a[1]))):
                return mk(g.op, *[self.weaken_sub(x, y) for x, y in zip(g.a, v.a)], ty=g.ty)
        r = self.gen(g, v)
        if r is g:
            p = mk('phi', self.lid, len(self.phis), ty=g.ty if isT(g) else None)
            self.phis[p] = g
            return mk('symadt', p) if isT(g) and not isinstance(g.ty, str) and g.op not in ('lin',) else p
        return r

    def weaken_sub(self, x, y):
        if x is y or (not isT(x) and x == y):
            return x
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.weaken_sub(p, q) for p, q in zip(x, y))
        if isinstance(x, str):
            return x
        sub = {}
        if isT(x) and self.has_phi(x) and self.match(x, y, sub):
            return x
        return self.weaken(x, y)

    def describe(self):
        return len(self.phis)
