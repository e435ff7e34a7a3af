"""Canonical forms of machine words, for comparing word-level code with its definition.

A word is a tuple of bits, least significant first; a bit is a polynomial over GF(2) in bit atoms (a frozenset of monomials,
a monomial being a frozenset of atoms).  Rotations, shifts, masks and byte shuffles permute or drop bits; xor, and, or, not
are polynomial operations.  A sum modulo 2^w is not expanded into carries: it is an atom word named by its multiset of
summands, after flattening nested sums, folding constants and merging summands whose bits do not overlap.  Two words with
the same form are equal for every value of the atoms; nothing is searched or solved.
"""
from .terms import isT, T
from .engine import WID

ZERO = frozenset()
ONE = frozenset([frozenset()])


class Word:
    __slots__ = ('bits', 'sum', 'id', 'val', 'w')

    def __repr__(self):
        return 'word%d' % self.id if self.val is None else '%#x' % self.val


def mulbit(x, y):
    if not x or not y:
        return ZERO
    if x == ONE:
        return y
    if y == ONE:
        return x
    r = set()
    for m in x:
        for n in y:
            r ^= {m | n}
    if len(r) > 4096:
        raise ValueError('bit polynomial too large')
    return frozenset(r)


class Words:
    def __init__(self):
        self.tab = {}          # bits -> Word
        self.atoms = {}        # key -> atom number
        self.list = []
        self.memo = {}         # (term, width) -> Word
        self.ops = {}

    # ------------------------------------------------------------ atoms
    def word(self, bits):
        r = self.tab.get(bits)
        if r is None:
            r = Word()
            r.bits = bits
            r.w = len(bits)
            r.sum = None
            r.id = len(self.list)
            self.list.append(r)
            v = 0
            for k, x in enumerate(bits):
                if x == ONE:
                    v |= 1 << k
                elif x:
                    v = None
                    break
            r.val = v
            self.tab[bits] = r
        return r

    def atom(self, key, w):
        i = self.atoms.setdefault((key, w), len(self.atoms) + 1)
        return self.word(tuple(frozenset([frozenset([(i, k)])]) for k in range(w)))

    def const(self, v, w):
        k = ('c', v, w)
        r = self.ops.get(k)
        if r is None:
            r = self.ops[k] = self.word(tuple(ONE if v >> i & 1 else ZERO for i in range(w)))
        return r

    @staticmethod
    def value(b):
        return b.val

    # ------------------------------------------------------------ bitwise
    def op2(self, o, a, b, f):
        k = (o, a.id, b.id) if a.id <= b.id else (o, b.id, a.id)
        r = self.ops.get(k)
        if r is None:
            r = self.ops[k] = self.word(tuple(map(f, a.bits, b.bits)))
        return r

    def xor(self, a, b):
        return self.op2('^', a, b, frozenset.symmetric_difference)

    def band(self, a, b):
        return self.op2('&', a, b, mulbit)

    def bor(self, a, b):
        return self.op2('|', a, b, lambda x, y: x ^ y ^ mulbit(x, y))

    def bnot(self, a):
        return self.xor(a, self.const((1 << a.w) - 1, a.w))

    def shift(self, o, a, k):
        key = (o, a.id, -1 - k)
        r = self.ops.get(key)
        if r is None:
            b = a.bits
            n = len(b)
            if o == 'l':
                b = ((ZERO,) * k + b)[:n]
            elif o == 'r':
                b = (b[k:] + (ZERO,) * k)[:n] if k < n else (ZERO,) * n
            else:
                b = b[k:] + b[:k]
            r = self.ops[key] = self.word(b)
        return r

    def shl(self, a, k):
        return self.shift('l', a, k) if k else a

    def shr(self, a, k):
        return self.shift('r', a, k) if k else a

    def rotr(self, a, k):
        k %= a.w
        return self.shift('o', a, k) if k else a

    def byte(self, a, i):
        return self.word((a.bits[8 * i:8 * i + 8] + (ZERO,) * 8)[:8])

    def join(self, bs):
        """little-endian concatenation"""
        return self.word(sum((b.bits for b in bs), ()))

    def resize(self, a, w):
        if w == a.w:
            return a
        if w < a.w:
            if a.sum is not None:
                parts, c = a.sum
                return self.total([(self.resize(f, w), k) for f, k in parts], c, w)
            return self.word(a.bits[:w])
        return self.word(a.bits + (ZERO,) * (w - a.w))

    # ------------------------------------------------------------ sums
    def total(self, parts, c, w):
        """sum of coefficient * word, plus c, modulo 2^w"""
        mod = 1 << w
        acc = {}
        c %= mod
        for b, k in parts:
            k %= mod
            if not k:
                continue
            if b.val is not None:
                c = (c + k * b.val) % mod
            elif b.sum is not None and b.w == w:
                c = (c + k * b.sum[1]) % mod
                for f, q in b.sum[0]:
                    acc[f] = acc.get(f, 0) + k * q
            else:
                z = 0
                while not b.bits[z]:
                    z += 1
                if z or not k & 1:
                    # only the low bits of a word matter under an even factor
                    k <<= z
                    e = w - ((k & -k).bit_length() - 1)
                    if e <= 0:
                        continue
                    b = self.word((b.bits[z:] + (ZERO,) * z)[:e] + (ZERO,) * (w - e))
                    if b.val is not None:
                        c = (c + k * b.val) % mod
                        continue
                acc[b] = acc.get(b, 0) + k
        items = []
        for b, k in acc.items():
            k %= mod
            if k:
                z = 0
                while not b.bits[z]:
                    z += 1
                if (k << z) % mod:
                    items.append((b, k))
        # words that cannot overlap add without carries
        if len(items) < 9 and all(k & (k - 1) == 0 for _, k in items):
            bs = [self.shl(self.resize(b, w), k.bit_length() - 1) for b, k in items]
            if c:
                bs.append(self.const(c, w))
            if len(bs) < 2 or all(sum(1 for b in bs if b.bits[p]) <= 1 for p in range(w)):
                r = self.const(0, w)
                for b in bs:
                    r = self.xor(r, b)
                return r
        items.sort(key=lambda p: p[0].id)
        key = (tuple((b.id, k) for b, k in items), c, w)
        r = self.ops.get(key)
        if r is None:
            e = min(((k & -k).bit_length() - 1 for _, k in items), default=0)
            if e:
                # a common power of two leaves the low bits alone
                hi = self.total([(self.resize(b, w - e), k >> e) for b, k in items], c >> e, w - e)
                r = self.word(self.const(c & ((1 << e) - 1), e).bits + hi.bits)
            else:
                r = self.atom(key, w)
            self.ops[key] = r
            r.sum = (tuple(items), c)
        return r

    def add(self, *ws):
        return self.total([(x, 1) for x in ws], 0, ws[0].w)

    # ------------------------------------------------------------ terms
    def width(self, t):
        if isT(t, 'at'):
            return 8 if t.a[0].ty is None else WID.get(t.ty, 64)
        if t.op == 'byteof':
            return 8
        return WID.get(t.ty, 64) if isinstance(t.ty, str) else 64

    def of(self, v, w):
        """the form of a scalar value as a word of w bits"""
        if isinstance(v, int):
            return self.const(v & ((1 << w) - 1), w)
        key = (v, w)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._of(v, w)
        return r

    def _of(self, v, w):
        op = v.op
        a = v.a
        if op == 'k':
            return self.of(a[0], w)
        if op == 'lin':
            return self.total([(self.of(t, w), c) for t, c in a[0]], a[1], w)
        n = self.width(v)
        if op == 'cat':
            return self.resize(self.resize(self.join([self.of(b, 8) for b in a]), n), w)
        if op == 'byteof':
            x = self.of(a[0], self.width(a[0]) if isinstance(a[0], T) else 64)
            return self.resize(self.byte(x, a[1]), w)
        if op in ('shr', 'shl') and isinstance(a[1], int):
            x = self.of(a[0], n)
            return self.resize(self.shr(x, a[1]) if op == 'shr' else self.shl(x, a[1]), w)
        if op == 'rot':
            k = a[2].a[0] if isT(a[2], 'k') else a[2]
            if isinstance(k, int):
                x = self.of(a[1], n)
                return self.resize(self.rotr(x, k if a[0] == 'rotate_right' else -k), w)
        if op in ('bitand', 'bitor', 'bitxor'):
            f = {'bitand': self.band, 'bitor': self.bor, 'bitxor': self.xor}[op]
            r = self.of(a[0], n)
            for x in a[1:]:
                r = f(r, self.of(x, n))
            return self.resize(r, w)
        if op == 'bnot':
            return self.resize(self.bnot(self.of(a[0], n)), w)
        if op in ('wadd', 'wsub'):
            return self.resize(self.total([(self.of(a[0], n), 1), (self.of(a[1], n), 1 if op == 'wadd' else -1)], 0, n), w)
        if op == 'wneg':
            return self.resize(self.total([(self.of(a[0], n), -1)], 0, n), w)
        if op == 'wmul' and any(isinstance(x, int) for x in a):
            x, k = (a[1], a[0]) if isinstance(a[0], int) else a
            return self.resize(self.total([(self.of(x, n), k)], 0, n), w)
        if op in ('conv', 'trunc') and len(a) == 1:
            x = a[0]
            if isT(x, 'lin') or not isinstance(x, T):
                return self.resize(self.of(x, n), w)
            if not (isinstance(x.ty, str) and x.ty.startswith('i')):
                return self.resize(self.resize(self.of(x, max(n, self.width(x))), n), w)
        if op == 'div' and isinstance(a[1], int) and a[1] & (a[1] - 1) == 0:
            return self.resize(self.shr(self.of(a[0], n), a[1].bit_length() - 1), w)
        if op == 'rem' and isinstance(a[1], int) and a[1] & (a[1] - 1) == 0:
            return self.resize(self.band(self.of(a[0], n), self.const(a[1] - 1, n)), w)
        return self.resize(self.atom(('t', v), n), w)
