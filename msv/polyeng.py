"""The engine with machine integers as bounded integer polynomials (see polydom)."""
from .terms import mk, isT, ladd
from .engine import Engine, WID, signed, wrap
from .polydom import Poly

OPS = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'Shl': 'shl', 'Shr': 'shr', 'Div': 'div', 'Rem': 'rem'}


class PolyEngine(Engine):
    def __init__(self, prog, dom, **kw):
        super().__init__(prog, **kw)
        self.dom = dom

    # ------------------------------------------------------------ terms <-> polynomials
    def inp(self, name, lo, hi, ty):
        return self.term(self.dom.atom(('in',) + tuple(name), lo, hi, name='.'.join(map(str, name))), ty)

    def term(self, v, ty):
        c = self.dom.constant(v)
        return c if c is not None else mk('pv', v.id, ty=ty)

    def pv(self, t):
        """the polynomial of a term, or None"""
        if isinstance(t, int):
            return self.dom.const(t)
        if t.op == 'pv':
            return self.dom.vals[t.a[0]]
        if t.op == 'k' and isinstance(t.a[0], int):
            return self.dom.const(t.a[0])
        if t.op == 'lin':
            xs = [(self.pv(x), k) for x, k in t.a[0]]
            if all(x is not None for x, _ in xs):
                return self.dom.lin(xs, t.a[1])
            return None
        if t.op == 'b2i':
            return self.bitof(t.a[0])
        if t.ty == 'bool':
            return self.bitof(t)
        return None

    def poly(self, t):
        return isT(t) and (t.op == 'pv' or (t.op == 'lin' and any(isT(x, 'pv') for x, _ in t.a[0]))
                           or (t.op == 'b2i' and self.haspv(t.a[0])))

    def haspv(self, t):
        if not isT(t):
            return False
        return t.op in ('pge0', 'peq0') or (t.op in ('not', 'and', 'or') and any(self.haspv(x) for x in t.a))

    def bitof(self, t):
        """a boolean as an integer 0 or 1"""
        d = self.dom
        if isinstance(t, int):
            return d.const(t)
        if t.op == 'not':
            return d.lin([(self.bitof(t.a[0]), -1)], 1)
        if t.op == 'pge0':
            v = d.vals[t.a[0]]
            k = max(abs(v.lo), abs(v.hi) + 1).bit_length()
            return d.lin([(d.quo(v, k), 1)], 1)
        return d.atom(('bool', t), 0, 1, 'in')

    # ------------------------------------------------------------ overrides
    def trange(self, st, t):
        if isT(t, 'pv'):
            f = st.facts.get(t)
            if f is not None:
                return (f, f)
            v = self.dom.vals[t.a[0]]
            lo, hi = st.rng.get(t, (v.lo, v.hi))
            return max(lo, v.lo), min(hi, v.hi)
        return super().trange(st, t)

    def arith(self, op, x, y, ty):
        d = self.dom
        w, sg = WID[ty], signed(ty)
        if op == 'Add':
            return d.wrap(d.add(x, y), w, sg)
        if op == 'Sub':
            return d.wrap(d.sub(x, y), w, sg)
        if op == 'Mul':
            return d.wrap(d.mul(x, y), w, sg)
        k = d.constant(y)
        if op == 'Shl' and k is not None:
            return d.wrap(d.lin([(x, 1 << (k % w))]), w, sg)
        if op == 'Shr' and k is not None:
            return d.quo(x, k % w)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return d.bitop(OPS[op], x, y, w, sg)
        if op in ('Div', 'Rem') and k and k > 0 and k & (k - 1) == 0 and x.lo >= 0:
            n = k.bit_length() - 1
            return d.quo(x, n) if op == 'Div' else d.mod(x, n)
        return None

    def binop(self, st, op, a, b, ty, tyb=None):
        if op.endswith('Unchecked'):
            op = op[:-9]
        if op in OPS and ty in WID and ty not in ('bool', 'char') and (self.poly(a) or self.poly(b)):
            x, y = self.pv(a), self.pv(b)
            if x is not None and y is not None:
                r = self.arith(op, x, y, ty)
                if r is not None:
                    return self.term(r, ty)
        return super().binop(st, op, a, b, ty, tyb)

    def rvalue(self, st, fr, body, r, dest_ty):
        if r[0] == 'un' and r[1] in ('Not', 'Neg'):
            a = self.operand(st, fr, ['c'] + list(r[2][1:]) if r[2][0] == 'm' else r[2])
            if self.poly(a):
                tn = self.scalar_name(self.operand_ty(body, r[2]))
                x = self.pv(a)
                if tn in WID and tn != 'bool' and x is not None:
                    d = self.dom
                    w, sg = WID[tn], signed(tn)
                    v = d.wrap(d.lin([(x, -1)]), w, sg) if r[1] == 'Neg' else d.lin([(x, -1)], -1 if sg else (1 << w) - 1)
                    return self.term(v, tn)
        return super().rvalue(st, fr, body, r, dest_ty)

    def conv(self, st, v, frm, to):
        if isT(v) and to in WID:
            x = None
            if self.poly(v):
                x = self.pv(v)
            elif (frm == 'bool' or v.ty == 'bool') and self.haspv(v):
                x = self.bitof(v)
            if x is not None:
                return self.term(self.dom.wrap(x, WID[to], signed(to)), to)
        return super().conv(st, v, frm, to)

    def compare(self, st, op, a, b):
        if op != 'Cmp' and isinstance(a, (int,) + (type(UNIT_),)) and isinstance(b, (int, type(UNIT_))) and (self.poly(a) or self.poly(b)):
            x, y = self.pv(a), self.pv(b)
            if x is not None and y is not None:
                if op in ('Gt', 'Ge'):
                    x, y = y, x
                    op = 'Lt' if op == 'Gt' else 'Le'
                d = self.dom.sub(y, x)
                if op in ('Eq', 'Ne'):
                    if d.lo > 0 or d.hi < 0:
                        r = 0
                    elif self.dom.constant(d) == 0:
                        r = 1
                    else:
                        e = self.dom.sub(x, y)
                        r = mk('peq0', min(d.id, e.id), ty='bool')
                    return r if op == 'Eq' else self.mk_not(r)
                if op == 'Lt':
                    d = self.dom.lin([(d, 1)], -1)
                if d.lo >= 0:
                    return 1
                if d.hi < 0:
                    return 0
                return mk('pge0', d.id, ty='bool')
        return super().compare(st, op, a, b)

    def eq_terms(self, st, a, b):
        if self.poly(a) or self.poly(b):
            if isinstance(a, (int, type(UNIT_))) and isinstance(b, (int, type(UNIT_))):
                return self.compare(st, 'Eq', a, b)
        return super().eq_terms(st, a, b)

    def byteof(self, v, i):
        if isT(v, 'pv'):
            d = self.dom
            return self.term(d.mod(d.quo(d.vals[v.a[0]], 8 * i), 8), 'u8')
        return super().byteof(v, i)

    def as_bytes(self, v, w):
        if isT(v, 'pv'):
            n = WID.get(v.ty, 64) // 8
            return [self.byteof(v, i) if i < n or signed(v.ty) else 0 for i in range(w)]
        return super().as_bytes(v, w)

    def mk_cat(self, bs, ty):
        bs = list(bs)[:WID[ty] // 8]
        if any(self.poly(b) for b in bs):
            xs = [self.pv(b) for b in bs]
            if all(x is not None for x in xs):
                d = self.dom
                return self.term(d.wrap(d.lin([(x, 1 << (8 * i)) for i, x in enumerate(xs)]), WID[ty], signed(ty)), ty)
        return super().mk_cat(bs, ty)

    def byteform(self, v):
        if isT(v, 'pv'):
            return False
        return super().byteform(v)


UNIT_ = mk('pv', -1)
