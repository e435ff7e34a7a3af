"""Machine integers as integer polynomials with ranges.

A value is a polynomial with integer coefficients in atoms, together with an interval that contains it.  An atom is an
input (a limb or byte) or the floor quotient or the remainder of another polynomial by a power of two.  Additions,
subtractions and products of machine integers are the polynomial operations when the interval shows they cannot wrap, and
otherwise the remainder by the width, so nothing is assumed about overflow.  Shifts, masks, truncations and disjoint ors
become quotients and remainders.  Replacing each remainder by `P - 2^k * quotient(P)` turns an output into a polynomial in
inputs and quotients; the output is congruent to a wanted polynomial modulo n for every input when all coefficients of
the difference are 0 modulo n.
"""


def tz(c):
    return (c & -c).bit_length() - 1


class Atom:
    __slots__ = ('id', 'lo', 'hi', 'kind', 'k', 'of', 'name')

    def __repr__(self):
        return self.name or '%s%d#%d' % (self.kind, self.k or 0, self.id)


class Val:
    """an interned polynomial with the best interval known for it"""
    __slots__ = ('id', 'p', 'lo', 'hi')

    def __hash__(self):
        return self.id


LIMIT = 60000


class Poly:
    def __init__(self):
        self.tab = {}
        self.vals = []
        self.atoms = []
        self.akey = {}
        self.memo = {}
        self.xmemo = {}

    # ------------------------------------------------------------ construction
    def val(self, p, lo=None, hi=None):
        """the value of polynomial p (dict monomial -> coefficient)"""
        if len(p) > LIMIT:
            raise ValueError('polynomial too large')
        key = frozenset(p.items())
        v = self.tab.get(key)
        if v is None:
            v = Val()
            v.id = len(self.vals)
            v.p = p
            self.vals.append(v)
            self.tab[key] = v
            v.lo, v.hi = self.span(p)
        if lo is not None and lo > v.lo:
            v.lo = lo
        if hi is not None and hi < v.hi:
            v.hi = hi
        return v

    def const(self, c):
        return self.val({(): c} if c else {})

    def atom(self, key, lo, hi, kind='in', k=None, of=None, name=None):
        a = self.akey.get(key)
        if a is None:
            a = Atom()
            a.id = len(self.atoms)
            a.lo, a.hi, a.kind, a.k, a.of, a.name = lo, hi, kind, k, of, name
            self.atoms.append(a)
            self.akey[key] = a
        else:
            a.lo, a.hi = max(a.lo, lo), min(a.hi, hi)
        return self.val({(a.id,): 1}, a.lo, a.hi)

    def span(self, p):
        lo = hi = 0
        for m, c in p.items():
            l, h = self.mspan(m)
            if c < 0:
                l, h = h, l
            lo += c * l
            hi += c * h
        return lo, hi

    def mspan(self, m):
        l = h = 1
        for i in m:
            a = self.atoms[i]
            xs = (l * a.lo, l * a.hi, h * a.lo, h * a.hi)
            l, h = min(xs), max(xs)
        return l, h

    @staticmethod
    def constant(v):
        """the integer v is, or None"""
        if not v.p:
            return 0
        if len(v.p) == 1 and () in v.p:
            return v.p[()]
        if v.lo == v.hi:
            return v.lo
        return None

    # ------------------------------------------------------------ ring operations
    def lin(self, parts, c=0):
        """sum of coefficient * value plus c"""
        p = {}
        lo = hi = c
        if c:
            p[()] = c
        for v, k in parts:
            for m, x in v.p.items():
                n = p.get(m, 0) + k * x
                if n:
                    p[m] = n
                else:
                    p.pop(m, None)
            lo += k * (v.lo if k > 0 else v.hi)
            hi += k * (v.hi if k > 0 else v.lo)
        p = self.contract(p)
        return self.val(p, lo, hi)

    def contract(self, p):
        """P - 2^k * floor((P + c) / 2^k)  ->  remainder(P + c) - c"""
        for m in list(p):
            if len(m) != 1:
                continue
            a = self.atoms[m[0]]
            if a.kind != 'q' or p.get(m) is None:
                continue
            c = p[m]
            if c % (1 << a.k) or c == 0:
                continue
            f = -(c >> a.k)
            # p contains f * (P - 2^k q) when the terms of P occur with factor f
            q = a.of.p
            if len(q) > len(p) + 1 or any(p.get(n) != f * x for n, x in q.items() if n):
                continue
            r = dict(p)
            del r[m]
            for n, x in q.items():
                y = r.get(n, 0) - f * x
                if y:
                    r[n] = y
                else:
                    r.pop(n, None)
            mv = self.mod(a.of, a.k)
            for n, x in mv.p.items():
                y = r.get(n, 0) + f * x
                if y:
                    r[n] = y
                else:
                    r.pop(n, None)
            p = r
        return p

    def add(self, a, b):
        return self.lin([(a, 1), (b, 1)])

    def sub(self, a, b):
        return self.lin([(a, 1), (b, -1)])

    def mul(self, a, b):
        ca, cb = self.constant(a), self.constant(b)
        if ca is not None:
            return self.lin([(b, ca)])
        if cb is not None:
            return self.lin([(a, cb)])
        key = ('*', min(a.id, b.id), max(a.id, b.id))
        r = self.memo.get(key)
        if r is None:
            p = {}
            for m, x in a.p.items():
                for n, y in b.p.items():
                    mn = self.mono(m, n)
                    z = p.get(mn, 0) + x * y
                    if z:
                        p[mn] = z
                    else:
                        p.pop(mn, None)
                if len(p) > LIMIT:
                    raise ValueError('polynomial too large')
            xs = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
            r = self.memo[key] = self.val(p, min(xs), max(xs))
        return r

    def bit(self, i):
        a = self.atoms[i]
        return a.lo >= 0 and a.hi <= 1

    def mono(self, m, n):
        """product of monomials; a bit is its own square"""
        if not m or not n:
            return m or n
        s = sorted(m + n)
        return tuple(x for k, x in enumerate(s) if not (k and s[k - 1] == x and self.bit(x)))

    # ------------------------------------------------------------ powers of two
    def parts(self, v, k):
        """v = 2^k * B + lo + 2^j * hi with 0 <= lo < 2^j  ->  (B, lo, j, hi) as polynomials"""
        n = 1 << k
        B, A = {}, {}
        for m, c in v.p.items():
            if m == ():
                b, a = c >> k, c & (n - 1)
            elif c % n == 0:
                b, a = c >> k, 0
            else:
                b, a = 0, c
            if b:
                B[m] = b
            if a:
                A[m] = a
        return B, A

    def low(self, A, k):
        """largest j <= k with the terms of A below 2^j in [0, 2^j)"""
        js = sorted({tz(c) for m, c in A.items() if c}, reverse=True)
        for j in js:
            if not 0 < j <= k:
                continue
            lo = {m: c for m, c in A.items() if tz(c) < j}
            hi = {m: c >> j for m, c in A.items() if tz(c) >= j}
            if () in A and tz(A[()]) >= j:
                pass
            if () in A:
                c = A[()]
                lo.pop((), None)
                hi.pop((), None)
                if c & ((1 << j) - 1):
                    lo[()] = c & ((1 << j) - 1)
                if c >> j:
                    hi[()] = c >> j
            l, h = self.best(lo)
            if l >= 0 and h < 1 << j:
                return j, lo, hi
        return None

    def best(self, p):
        key = frozenset(p.items())
        v = self.tab.get(key)
        if v is not None:
            return v.lo, v.hi
        return self.span(p)

    def quo(self, v, k):
        """floor(v / 2^k)"""
        if k == 0:
            return v
        key = ('q', v.id, k)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._quo(v, k)
        return r

    def _quo(self, v, k):
        n = 1 << k
        lo, hi = v.lo >> k, v.hi >> k
        if lo == hi:
            return self.const(lo)
        B, A = self.parts(v, k)
        if B:
            a = self.val(A, *self.shifted(v, B, k))
            q = self.quo(a, k)
            return self.clip(self.lin([(self.val(B), 1), (q, 1)]), lo, hi)
        # a bit times a constant
        if len(A) == 1:
            (m, c), = A.items()
            if m and all(self.bit(i) for i in m):
                return self.lin([(self.val({m: 1}, 0, 1), c >> k)])
        s = self.low(A, k)
        if s is not None:
            j, _, h = s
            hv = self.val(h)
            hv.lo, hv.hi = max(hv.lo, v.lo >> j), min(hv.hi, v.hi >> j)
            return self.clip(self.quo(hv, k - j), lo, hi)
        if len(v.p) == 1:
            (m, c), = v.p.items()
            if c == 1 and len(m) == 1:
                a = self.atoms[m[0]]
                if a.kind == 'q':
                    return self.quo(a.of, a.k + k)
                if a.kind == 'm' and k >= a.k:
                    return self.const(0)
        return self.atom(('q', v.id, k), lo, hi, 'q', k, v)

    def shifted(self, v, B, k):
        """interval for v - 2^k * B, when B is constant"""
        if len(B) == 1 and () in B:
            return v.lo - (B[()] << k), v.hi - (B[()] << k)
        return None, None

    @staticmethod
    def clip(v, lo, hi):
        if lo > v.lo:
            v.lo = lo
        if hi < v.hi:
            v.hi = hi
        return v

    def mod(self, v, k):
        """v mod 2^k"""
        key = ('m', v.id, k)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._mod(v, k)
        return r

    def _mod(self, v, k):
        n = 1 << k
        if v.lo >> k == v.hi >> k:
            return self.lin([(v, 1)], -((v.lo >> k) << k))
        B, A = self.parts(v, k)
        if B:
            return self.clip(self.mod(self.val(A, *self.shifted(v, B, k)), k), 0, n - 1)
        if len(A) == 1:
            (m, c), = A.items()
            if m and all(self.bit(i) for i in m):
                return self.lin([(self.val({m: 1}, 0, 1), c % n)])
        s = self.low(A, k)
        if s is not None and s[0] < k:
            j, l, h = s
            r = self.lin([(self.val(l), 1), (self.mod(self.val(h), k - j), 1 << j)])
            return self.clip(r, 0, n - 1)
        return self.atom(('m', v.id, k), 0, n - 1, 'm', k, v)

    def wrap(self, v, w, signed):
        if signed:
            if -(1 << (w - 1)) <= v.lo and v.hi < 1 << (w - 1):
                return v
            h = 1 << (w - 1)
            return self.lin([(self.mod(self.lin([(v, 1)], h), w), 1)], -h)
        if 0 <= v.lo and v.hi < 1 << w:
            return v
        return self.mod(v, w)

    # ------------------------------------------------------------ bitwise
    def subst(self, v, i, c):
        """v with bit atom i fixed to c"""
        p = {}
        for m, x in v.p.items():
            if i in m:
                if not c:
                    continue
                m = tuple(j for j in m if j != i)
            y = p.get(m, 0) + x
            if y:
                p[m] = y
            else:
                p.pop(m, None)
        return self.val(p)

    def a_bit(self, *vs):
        """a bit atom on which the values depend directly"""
        best = None
        for v in vs:
            if len(v.p) <= 4:
                for m in v.p:
                    for i in m:
                        if self.bit(i) and (best is None or len(v.p) < best[0]):
                            best = (len(v.p), i)
        return None if best is None else best[1]

    def select(self, i, one, zero):
        """one if bit i is 1 else zero"""
        a = self.atoms[i]
        b = self.val({(i,): 1}, a.lo, a.hi)
        r = self.add(zero, self.mul(b, self.sub(one, zero)))
        return self.clip(r, min(one.lo, zero.lo), max(one.hi, zero.hi))

    def mask(self, v, c, w):
        """v & c for a constant 0 <= c < 2^w"""
        r = []
        i = 0
        while c >> i:
            if not c >> i & 1:
                i += 1
                continue
            j = i
            while c >> j & 1:
                j += 1
            q = self.quo(v, i)
            r.append((self.mod(q, j - i) if not (j >= w and v.lo >= 0 and v.hi < 1 << w) else q, 1 << i))
            i = j
        return self.clip(self.lin(r), 0, c)

    def bitop(self, op, a, b, w, signed, depth=0):
        """and / or / xor of two w-bit integers"""
        ca, cb = self.constant(a), self.constant(b)
        if ca is not None and cb is not None:
            r = {'and': ca & cb, 'or': ca | cb, 'xor': ca ^ cb}[op]
            return self.const(r)
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        full = (1 << w) - 1
        if a is b:
            return self.const(0) if op == 'xor' else a
        if cb is not None:
            u = cb & full
            if u == 0:
                return self.const(0) if op == 'and' else a
            if u == full:
                return a if op == 'and' else self.const(cb) if op == 'or' else self.lin([(a, -1)], -1 if signed else full)
            if op == 'and':
                r = self.mask(a, u, w)
                return self.wrap(r, w, signed) if cb >= 0 else self.signed(r, w)
            x = self.mask(a, u, w)
            # a | c = a + c - (a & c),  a ^ c = a + c - 2 (a & c)
            if cb >= 0:
                return self.lin([(a, 1), (x, -1 if op == 'or' else -2)], cb)
        if op != 'and':
            for x, y in ((a, b), (b, a)):
                j = min((tz(c) for c in x.p.values()), default=w)
                if j and 0 <= y.lo and y.hi < 1 << j:
                    return self.add(a, b)
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if len(x.p) == 1:
                    (m, c), = x.p.items()
                    if m and c > 0 and all(self.bit(i) for i in m):
                        return self.mul(self.val({m: 1}, 0, 1), self.mask(y, c & full, w))
        i = self.a_bit(a, b)
        if i is not None and depth < 6:
            rs = [self.bitop(op, self.subst(a, i, c), self.subst(b, i, c), w, signed, depth + 1) for c in (0, 1)]
            return self.select(i, rs[1], rs[0])
        if signed and (a.lo < 0 or b.lo < 0):
            return self.atom((op, min(a.id, b.id), max(a.id, b.id)), -(1 << (w - 1)), (1 << (w - 1)) - 1, op)
        n = max(a.hi, b.hi).bit_length()
        hi = min(a.hi, b.hi) if op == 'and' else (1 << n) - 1
        return self.atom((op, min(a.id, b.id), max(a.id, b.id)), 0, hi, op)

    def signed(self, v, w):
        return self.wrap(v, w, True)

    # ------------------------------------------------------------ deciding
    def expand(self, v, n=None):
        """v as a polynomial in inputs and quotients, with coefficients modulo n"""
        out = {}
        for m, c in v.p.items():
            p = {(): c}
            for i in m:
                x = self.xatom(i)
                if len(x) == 1 and (i,) in x:
                    p = {self.mono(k, (i,)): y for k, y in p.items()}
                else:
                    r = {}
                    for k, y in p.items():
                        for l, z in x.items():
                            kl = self.mono(k, l)
                            r[kl] = r.get(kl, 0) + y * z
                    p = r
            for k, y in p.items():
                y += out.get(k, 0)
                if n:
                    y %= n
                if y:
                    out[k] = y
                else:
                    out.pop(k, None)
        return out

    def xatom(self, i):
        r = self.xmemo.get(i)
        if r is None:
            a = self.atoms[i]
            if a.kind == 'm':
                r = dict(self.expand(a.of))
                q = self.expand(self.quo(a.of, a.k))
                for m, c in q.items():
                    y = r.get(m, 0) - (c << a.k)
                    if y:
                        r[m] = y
                    else:
                        r.pop(m, None)
            else:
                r = {(i,): 1}
            self.xmemo[i] = r
        return r

    def congruent(self, a, b, n):
        """residue of a - b modulo n: an empty polynomial when they are congruent for all values of the atoms"""
        return self.expand(self.lin([(a, 1), (b, -1)]), n)
