"""C30: a signature just made verifies, before and after a round trip through its text."""
from .base import *
from .models import LOCAL_PRIMS, fixed, as_seq, deref, lastref, stream
from .rules_verify import L_BYTES, TAG_L, TAG_P, COMMENT_PREFIX, TRUSTED_PREFIX, same_int
from .rules_sign import byte_eval, one_base
from .rules_keys import scparams_ref, TAG_NONE, TAG_KDF, generation_roots, opt_string_args, is_protected, opening_roots, sym_text
from .rules_text import text_sym, inner, type_name, comment_arg

CURVE = 'crypto::curve25519::'
DIGITS = [k for k in range(31, -1, -1) if L_BYTES[k]]     # bytes in which a scalar below the group order can be smaller


def is_clamped(eng, s):
    """is the 32-byte scalar a multiple of 8 in [2^254, 2^255), whatever the bytes it is made from"""
    if not isT(s, 'seq') or seqlen(s) != 32:
        return False
    lo, hi = byte(eng, State(), s, 0), byte(eng, State(), s, 31)

    def all_values(t, good):
        if isinstance(t, int):
            return good(t)
        xs = [x for x in subterms(t) if isT(x, 'at')]
        return len(set(xs)) == 1 and all((lambda r: r is not None and good(r))(byte_eval(t, xs[0], v)) for v in range(256))
    return all_values(lo, lambda v: v & 7 == 0) and all_values(hi, lambda v: 64 <= v < 128)


class Algebra:
    """the curve functions with the identities of the group applied to the terms they build.  Every scalar they return is below the group
    order: it equals the order above byte k and is smaller in byte k; every encoding they return is that of a point of prime order, whose
    bytes are not all zero: the first byte that is not zero has index j"""

    def __init__(self, j, k):
        self.j = j
        self.k = k
        self.sums = {}        # bytes of h*a + r -> (h, a, r)
        self.points = {}      # bytes of the encoding of a*B -> a
        self.matched = 0
        self.other = []
        self.nsum = 0

    def primitives(self):
        p = dict(LOCAL_PRIMS)
        for n, f in (('is_identity', self.identity), ('GeP3::from_bytes_negate_vartime', self.decode), ('sc_muladd', self.muladd),
                     ('GeP3::to_bytes', self.encode), ('GeP2::to_bytes', self.encode)):
            if CURVE + n not in p:
                raise Gap('no model of %s' % n)
            p[CURVE + n] = f
        return p

    def scalar_of(self, eng, s):
        a = self.points.get(s)
        return a if a is not None and is_clamped(eng, a) else None

    def identity(self, eng, st, ci, args, fr, dty):
        # a multiple of 8 between 2^254 and 2^255 is not a multiple of the (prime) group order
        if self.scalar_of(eng, as_seq(eng, st, args[0])) is not None:
            return [(st, 0)]
        return LOCAL_PRIMS[CURVE + 'is_identity'](eng, st, ci, args, fr, dty)

    def decode(self, eng, st, ci, args, fr, dty):
        s = fixed(eng, st, args[0], 32, 'from_bytes_negate_vartime')
        if s is not None and self.points.get(s) is not None:
            return [(st, some(mk('negpt', s)))]
        return LOCAL_PRIMS[CURVE + 'GeP3::from_bytes_negate_vartime'](eng, st, ci, args, fr, dty)

    def muladd(self, eng, st, ci, args, fr, dty):
        r = lastref(eng, st, args[0])
        xs = [fixed(eng, st, a, 32, 'sc_muladd') for a in args[1:4]]
        if any(x is None for x in xs) or fixed(eng, st, r, 32, 'sc_muladd') is None:
            return []
        s = self.sum(eng, st, *xs)
        eng.store(st, eng.extend_path(st, r, ('s', 0, 32)), s)
        return [(st, UNIT)]

    def sum(self, eng, st, *xs):
        """the bytes of h*a + r, reduced"""
        b = mk('muladd', *xs)
        k = DIGITS[(self.k + self.nsum) % len(DIGITS)]
        self.nsum += 1
        x = at(b, k)
        eng.by_cases([x])
        st.rng[x] = (0, L_BYTES[k] - 1)
        s = mkseq([('e', tuple(at(b, i) for i in range(k)) + (x,) + tuple(L_BYTES[k + 1:]))])
        self.sums[s] = list(xs)
        return s

    def point(self, eng, st, a):
        b = mk('enc', mk('smb', a))
        x = at(b, self.j)
        eng.by_cases([x])
        st.rng[x] = (1, 255)
        s = mkseq([('e', (0,) * self.j + (x,) + tuple(at(b, i) for i in range(self.j + 1, 32)))])
        self.points[s] = a
        return s

    def small(self, eng, a):
        """is the scalar below 2^255, as multiplication by the base point and its recoding need"""
        return a in self.sums or one_base(a, 'scred', 32) is not None or is_clamped(eng, a)

    def encode(self, eng, st, ci, args, fr, dty):
        v = deref(eng, st, args[0])
        if isT(v, 'smb') and self.small(eng, v.a[0]):
            return [(st, self.point(eng, st, v.a[0]))]
        if isT(v, 'dsm'):
            h, p, s = v.a
            m = self.sums.get(s)
            a = self.points.get(p.a[0]) if isT(p, 'negpt') else None
            if m is not None and a is not None and self.small(eng, h) and same(eng, st, m[0], h) and same(eng, st, m[1], a):
                # h*(-a*B) + (h*a + r)*B = r*B
                self.matched += 1
                return [(st, self.point(eng, st, m[2]))]
            self.other.append('the scalar is not one that signing computed' if m is None else 'the point is not the public key' if a is None
                              else 'another hash: %s instead of %s' % (show(h)[:300], show(m[0])[:300]) if not same(eng, st, m[0], h) else 'another key')
        return LOCAL_PRIMS[CURVE + 'GeP2::to_bytes'](eng, st, ci, args, fr, dty)


def same(eng, st, x, y):
    """are two values equal, given that positions known to be equal are equal"""
    if x is y:
        return True
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if isT(x, 'seq') and isT(y, 'seq'):
        xs, ys = joined(eng, st, x), joined(eng, st, y)
        return len(xs) == len(ys) and all(same(eng, st, a, b) for a, b in zip(xs, ys))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same(eng, st, a, b) for a, b in zip(x, y))
    if isT(x) and isT(y) and x.op == y.op and x.ty == y.ty and len(x.a) == len(y.a) and x.op not in ('sym', 'phi', 'lin'):
        if all(same(eng, st, a, b) for a, b in zip(x.a, y.a)):
            return True
    if isinstance(x, (int, T)) and isinstance(y, (int, T)) and number(x) and number(y):
        return same_int(eng, st, x, y)
    return False


def number(x):
    return isinstance(x, int) or x.op in ('lin', 'slen', 'start', 'phi', 'len') or x.ty in ('u64', 'usize')


def joined(eng, st, s):
    """segments, adjoining ones of one source joined and empty ones dropped"""
    out = []
    for g in s.a:
        if g[0] == 'o':
            if same_int(eng, st, g[2], g[3]):
                continue
            if out and out[-1][0] == 'o' and out[-1][1] is g[1] and same_int(eng, st, out[-1][3], g[2]):
                out[-1] = ('o', g[1], out[-1][2], g[3])
                continue
        out.append(g)
    return out


def again(st):
    """the state in which the same data can be read from the start once more"""
    st = st.copy()
    for q in list(st.gh):
        if q[0] in ('pos', 'eof', 'out', 'fail', 'flushed'):
            del st.gh[q]
    return st


def keys(ctx, eng, st, f, text):
    """(state, public key, secret key) of a generated key pair; text: after a round trip of both through their texts"""
    kp = ctx.view('KeyPair')
    args = [None] * len(f['in'])
    pw = sym_text(eng, 'password')
    for i, kind in opt_string_args(ctx, f).items():
        args[i] = some(pw) if kind == 'password' else NONE
    r = ctx.run(f, args, eng=eng, st=st)
    out = []
    for s, v in r.oks():
        pk, sk = kp.get(v, 'pk') if kp.has('pk') else v.a[2], kp.get(v, 'sk') if kp.has('sk') else v.a[3]
        if not text:
            out.append((s, pk, sk))
            continue
        for s1, t in chain(ctx, eng, s, ('PublicKey::to_box', [cref(pk)]), ('PublicKeyBox::into_public_key', [])):
            last = ('SecretKeyBox::into_secret_key', [some(pw)]) if is_protected(f) else ('SecretKeyBox::into_unencrypted_secret_key', [])
            for s2, u in chain(ctx, eng, s1, ('SecretKey::to_box', [cref(sk), NONE]), last):
                out.append((s2, t, u))
    return out


def chain(ctx, eng, st, first, second):
    """successful executions of the second function on the result of the first"""
    out = []
    for s, b in ctx.run(first[0], first[1], eng=eng, st=st.copy()).oks():
        out += ctx.run(second[0], [b] + second[1], eng=eng, st=s.copy()).oks()
    return out


def writers(ctx):
    """public functions that give the text of a signature"""
    r = []
    for f in ctx.public():
        if len(f['in']) == 1 and type_name(ctx, f['in'][0]) == 'SignatureBox' and type_name(ctx, f['out']) == 'String' and ctx.prog.types[f['out']]['k'] == 'adt':
            r.append(f)
    return r


def allowed(st, v):
    """an operation may fail when reading, seeking or writing did, and signing when it does not permit the comment"""
    return any(x and q[0] in ('rerr', 'werr') for q, x in st.gh.items()) or any(isT(t, 'err') and t.a and t.a[0] in ('read', 'seek', 'write') for t in subterms(v))


def not_permitted(st):
    return any(isT(t) and t.op in ('hasch', 'hasx') and x == 1 and t.a[-1] is not mk('exact') for t, x in st.facts.items())


def random_failure(v):
    return any(isT(t, 'err') and 'rng' in t.a for t in subterms(v))


class Trip:
    """one key pair, one signature, and what verification says about it"""

    def __init__(self, ctx, j, k, gen, text, haspk, tc, uc):
        self.ctx = ctx
        self.alg = Algebra(j, k)
        self.eng = Engine(ctx.prog, primitives=self.alg.primitives(), hook=lambda *a: None, opts={})
        self.label = '[%s%s, public key %s, trusted comment %s, untrusted comment %s] ' % ((canon(gen['p']), ' and read back' if text else '') + tuple('given' if x else 'not given' for x in (haspk, tc, uc)))
        self.gen, self.text, self.haspk, self.tc, self.uc = gen, text, haspk, tc, uc
        self.verified = 0

    def run(self, writers):
        ctx, eng = self.ctx, self.eng
        st = State()
        tcs, ucs = text_sym(eng, st, 'trusted'), text_sym(eng, st, 'untrusted')
        body = ctx.body('sign')
        if body.argc != 5:
            raise Gap('sign takes %d arguments' % body.argc)
        rid = eng.make_value(body.locals[3], mk('sym', 'reader'))
        for st, pk, sk in keys(ctx, eng, st, self.gen, self.text):
            r = ctx.run('sign', [some(cref(pk)) if self.haspk else NONE, cref(sk), rid, some(cref(tcs)) if self.tc else NONE,
                                 some(cref(ucs)) if self.uc else NONE], eng=eng, st=st.copy())
            for s, e in r.errs():
                ctx.ob(allowed(s, e) or random_failure(e) or not_permitted(s), 'sign', 'signing fails only if the data cannot be read or there is no randomness', self.label + show(e)[:200])
            for s, box in r.oks():
                self.check(s, rid, pk, box, 'the signature made verifies with the matching public key and the same data')
                for f in writers:
                    byref = ctx.prog.types[f['in'][0]]['k'] == 'ref'
                    for s2, text in ctx.run(f, [cref(box) if byref else box], eng=eng, st=s.copy()).outs:
                        q = ctx.run('SignatureBox::from_string', [cref(text)], eng=eng, st=s2.copy())
                        for s3, e in q.errs():
                            ctx.ob(False, 'SignatureBox::from_string', 'the text of a signature just made can be read', self.label + canon(f['p']) + ': ' + show(e)[:200])
                        for s3, b in q.oks():
                            self.check(s3, rid, pk, b, 'the signature verifies after a round trip through its text')

    def check(self, st, rid, pk, box, what):
        ctx, eng = self.ctx, self.eng
        body = ctx.body('verify')
        if body.argc != 6:
            raise Gap('verify takes %d arguments' % body.argc)
        flags = [mk('sym', n, ty='bool') for n in ('quiet', 'output', 'allow_legacy')]
        del self.alg.other[:]
        r = ctx.run('verify', [cref(pk), cref(box), rid] + flags, eng=eng, st=again(st))
        self.verified += len(r.oks())
        for s, e in r.errs():
            ctx.ob(allowed(s, e), 'verify', what, self.label + show(e)[:200] + ' ' + '; '.join(self.alg.other[:1]))


def c30(ctx):
    """the public functions are run one after the other on the same symbolic values: key generation (with and without password, directly and
    after writing both keys as text and reading them back), signing with symbolic comments and data, verification of the signature object,
    and verification of the object read back from each of its text forms; every execution of signing and verification that fails must have
    had a failed read, seek, write or random generator or a comment that signing does not permit, and every text written must be readable.
    The group is abstracted by its laws (established for the code by the curve arithmetic property): encoding then decoding a point gives
    its negation as documented, h*(-a*B) + (h*a + r)*B is r*B, an encoded multiple by a clamped scalar is not a point of small order, and
    sums of scalars are below the group order; the bytes of such values are split into classes (first byte that is not zero; highest byte
    that differs from the group order), each of which is run"""
    gens = [(f, t) for f in generation_roots(ctx) for t in (0, 1) if not any(i not in opt_string_args(ctx, f) for i in range(len(f['in']))) and (t or not is_protected(f))]
    if len(gens) < 3:
        raise Gap('the functions that generate a key pair with and without a password')
    ws = writers(ctx)
    ctx.ob(len(ws) >= 2, 'SignatureBox', 'the functions giving the text of a signature were found', str(len(ws)))
    combos = [(a, b, c) for a in (1, 0) for b in (1, 0) for c in (1, 0)]
    n = verified = 0
    for j in range(32):
        for m, (g, text) in enumerate(gens):
            for k, c in enumerate(combos):
                if ctx.tier != 'thorough' and (j or m) and k != j % 8 or m and j:
                    continue
                for d in range(len(DIGITS) if ctx.tier == 'thorough' and m == k == 0 else 1):
                    t = Trip(ctx, j, j + d, g, text, *c)
                    t.run(ws)
                    n += 1
                    verified += t.verified
                    ctx.ob(t.verified > 0 and t.alg.matched > 0, 'verify', 'some execution succeeds (the rule is not vacuous)', t.label + '; '.join(t.alg.other[:1]))
    ctx.notes.append('%d cases, %d successful verifications' % (n, verified))


# ------------------------------------------------------------------ C32
def b64(s):
    """the base64 form of a byte string of known length"""
    return sq_base(mk('base', mk('b64e', 'Base64', s), (seqlen(s) + 2) // 3 * 4))


class Genuine:
    """a key pair and a signature made as the format prescribes by any signer, and what the crate says about it"""
    FORMS = ('as an object', 'read from its text', 'read from its text without a final line break', 'read from its text with CR LF line breaks',
             'trimmed to its bare form and back', 'read from its bare bytes', 'read from a file')

    def __init__(self, ctx, j, k, prehashed, form):
        self.ctx, self.prehashed, self.form = ctx, prehashed, form
        self.alg = Algebra(j, k)
        self.eng = Engine(ctx.prog, primitives=self.alg.primitives(), hook=lambda *a: None, opts={})
        self.label = '[%s signature %s] ' % ('prehashed' if prehashed else 'legacy', self.FORMS[form])
        self.verified = 0

    def scalar(self, nm):
        return sq_base(mk('scred', sq_base(mk('base', mk('sym', nm), 64))))

    def signed(self, st, key, a, nonce, msg):
        """the signature of a message: R and h*a + r"""
        eng, alg = self.eng, self.alg
        r = self.scalar(nonce)
        R = alg.point(eng, st, r)
        h = sq_base(mk('scred', sq_base(mk('sha512', concat(R, key, msg)))))
        return concat(R, alg.sum(eng, st, h, a, r))

    def run(self):
        ctx, eng, alg = self.ctx, self.eng, self.alg
        st = State()
        pv, sv = ctx.view('PublicKey'), ctx.view('SignatureBox')
        body = ctx.body('verify')
        if body.argc != 6:
            raise Gap('verify takes %d arguments' % body.argc)
        rid = eng.make_value(body.locals[3], mk('sym', 'reader'))
        tc, uc = text_sym(eng, st, 'trusted'), text_sym(eng, st, 'untrusted')
        sec = mk('base', mk('sym', 'secret'), 32)
        op = lambda o, x, y: eng.binop(st, o, x, y, 'u8')
        a = mkseq([('e', (op('BitAnd', at(sec, 0), 248),) + tuple(at(sec, i) for i in range(1, 31)) + (op('BitOr', op('BitAnd', at(sec, 31), 63), 64),))])
        if not is_clamped(eng, a):
            raise Gap('the secret scalar')
        key = alg.point(eng, st, a)
        kn = mk('base', mk('sym', 'keynum'), 8)
        kn = mkseq([('e', tuple(at(kn, i) for i in range(8)))])
        pk = pv.set(pv.set(pv.set(pv.fresh(eng, 'pk'), 'sig_alg', sq_bytes(TAG_L)), 'pk', key), 'keynum', kn)
        src = mk('start', rid, ty='u64')
        data = mkseq([('o', stream(rid), src, mk('slen', rid, ty='u64'))])
        msg = sq_base(mk('blake2b', 64, data)) if self.prehashed else data
        sig = self.signed(st, key, a, 'nonce', msg)
        whole = concat(sig, tc)
        gs = self.signed(st, key, a, 'second nonce', whole)
        tag = sq_bytes(TAG_P if self.prehashed else TAG_L)
        raw = concat(tag, kn, sig)
        box = sv.set(sv.fresh(eng, 'sigbox'), 'sig_alg', tag)
        if sv.has('is_prehashed'):
            box = sv.set(box, 'is_prehashed', int(self.prehashed))
        for n, v in (('keynum', kn), ('sig', sig), ('untrusted_comment', uc), ('sig_and_trusted_comment', some(whole)), ('global_sig', some(gs))):
            box = sv.set(box, n, v)
        end = sq_bytes(b'\r\n' if self.form == 3 else b'\n')
        text = concat(sq_bytes(COMMENT_PREFIX), uc, end, b64(raw), end, sq_bytes(TRUSTED_PREFIX), tc, end, b64(gs), EMPTY if self.form == 2 else end)
        for s0, pub in self.public_key(st, pk, pv):
            if self.form == 0:
                got = [(s0, box)]
            elif self.form in (1, 2, 3):
                got = self.oks(s0, ctx.fn('SignatureBox::from_string'), [cref(text)])
            elif self.form == 6:
                eng.opts['file'] = text
                got = self.oks(s0, ctx.fn('SignatureBox::from_file'), [None])
            else:
                got = []
                for s, b in self.infallible(s0, 'SignatureBones', 'SignatureBox', box) if self.form == 4 else self.oks(s0, ctx.fn('SignatureBones::from_bytes'), [cref(raw)]):
                    got += self.infallible(s, 'SignatureBox', 'SignatureBones', b)
            for s, b in got:
                self.check(s, rid, pub, b)

    def public_key(self, st, pk, pv):
        """the key as an object, or read from one of its texts"""
        if self.form % 2 == 0:
            return [(st.copy(), pk)]
        raw = concat(pv.get(pk, 'sig_alg'), pv.get(pk, 'keynum'), pv.get(pk, 'pk'))
        return self.oks(st, self.ctx.fn('PublicKey::from_base64'), [cref(b64(raw))])

    def oks(self, st, f, args):
        q = self.ctx.run(f, args, eng=self.eng, st=st.copy())
        for s, e in q.errs():
            self.ctx.ob(file_failed(e), canon(f['p']), 'what is well-formed is read', self.label + show(e)[:200])
        return q.oks()

    def infallible(self, st, out, arg, v):
        r = []
        for f in self.ctx.prog.fns:
            if f['body'] and len(f['in']) == 1 and f['p'].endswith('::from') and type_name(self.ctx, f['in'][0]) == arg and type_name(self.ctx, f['out']) == out:
                r += self.ctx.run(f, [v], eng=self.eng, st=st.copy()).outs
        if not r:
            raise Gap('the conversion from %s to %s' % (arg, out))
        return r

    def check(self, st, rid, pk, box):
        ctx, eng = self.ctx, self.eng
        flags = [mk('sym', n, ty='bool') for n in ('quiet', 'output')] + [mk('sym', 'allow_legacy', ty='bool') if self.prehashed else 1]
        del self.alg.other[:]
        r = ctx.run('verify', [cref(pk), cref(box), rid] + flags, eng=eng, st=again(st))
        self.verified += len(r.oks())
        for s, e in r.errs():
            ctx.ob(allowed(s, e), 'verify', 'a genuine signature is accepted', self.label + show(e)[:200] + ' ' + '; '.join(self.alg.other[:1]))


def c32(ctx):
    """a key pair, a message of any length, comments without line breaks and the two signatures of RFC 8032 over them (any nonces) are built
    as symbolic values, prehashed and legacy; the signature is given to `verify` as an object, or after being read from the text of the
    format (final line break present or not, LF or CR LF), trimmed to its bare form and back, or read from its bare bytes; the key as an
    object or read from base64; every execution that fails must have had a failed read, seek or write"""
    n = verified = 0
    for j in range(32):
        for pre in (1, 0):
            for form in range(len(Genuine.FORMS)):
                if ctx.tier != 'thorough' and (j + form + 3 * pre) % 8:
                    continue
                for d in range(len(DIGITS) if ctx.tier == 'thorough' and form == 0 and j == 0 else 1):
                    g = Genuine(ctx, j, j + d, pre, form)
                    g.run()
                    n += 1
                    verified += g.verified
                    ctx.ob(g.verified > 0 and g.alg.matched > 0, 'verify', 'some execution succeeds (the rule is not vacuous)', g.label + '; '.join(g.alg.other[:1]))
    ctx.notes.append('%d cases, %d successful verifications' % (n, verified))


# ------------------------------------------------------------------ C33
LIMITS = ((1048576, 33554432), (33554432, 1073741824), (524288, 16777216), (4194304, 134217728), (32768, 16777216), (1048576, 1 << 30), (1 << 25, 1 << 24))
ENDS = ((b'\n', b'\n'), (b'\n', b''), (b'\r\n', b'\r\n'))


def text_of(comment, line, ends):
    return concat(sq_bytes(COMMENT_PREFIX), comment, sq_bytes(ends[0]), line, sq_bytes(ends[1]))


def boxed(ctx, f, i, text):
    """the argument of a function that takes a text, a box around one, or bytes"""
    t = ctx.prog.types[f['in'][i]]
    if t['k'] == 'ref':
        return cref(text)
    return agg(t['p'], 0, text) if t['k'] == 'adt' and t.get('local') else text


def fields_equal(ctx, eng, st, view, v, want):
    for n, w in want.items():
        s = view.get(v, n)
        if not isT(s, 'seq') or seqlen(s) != seqlen(w):
            return '%s has another length' % n
        for i in range(seqlen(w)):
            if not eqk(eng, st, byte(eng, st, s, i), byte(eng, st, w, i)):
                return 'byte %d of %s is %s' % (i, n, show(byte(eng, st, s, i))[:100])
    return None


def file_failed(v):
    """the file itself cannot be read"""
    return any(isT(t, 'err') and 'fs' in t.a for t in subterms(v))


def params_failed(v):
    """the key derivation itself reports a failure, which it does not do for valid parameters and output length"""
    return any(isT(t, 'err') and any(x in ('params', 'kdf') for x in t.a) for t in subterms(v))


def c33(ctx):
    """key files are built as symbolic texts: comment, salt, key id, secret key bytes and password arbitrary, the checksum and the encryption
    computed as the format prescribes, the limits those that minisign and rsign write (and others within the bounds), lines ended by LF or CR
    LF, the last one ended or not; every function that opens a secret key with a password or reads a public key is run on them: no execution
    may fail (the key derivation reports no failure for valid parameters), and the key obtained has the bytes that were put in"""
    pv, kv = ctx.view('PublicKey'), ctx.view('SecretKey')
    n = good = 0
    # ---- public keys
    for nm in ('PublicKey::from_box', 'PublicKeyBox::into_public_key', 'PublicKey::from_file', 'PublicKey::from_base64', 'PublicKey::from_bytes'):
        f = ctx.fn(nm)
        for ends in ENDS if nm.endswith(('box', 'into_public_key', 'from_file')) else ENDS[:1]:
            eng, st = ctx.engine(), State()
            comment = text_sym(eng, st, 'comment')
            want = {'keynum': sq_base(mk('base', mk('sym', 'keynum'), 8)), 'pk': sq_base(mk('base', mk('sym', 'pk'), 32))}
            raw = concat(sq_bytes(TAG_L), want['keynum'], want['pk'])
            text = eng.opts['file'] = text_of(comment, b64(raw), ends)
            arg = None if nm.endswith('file') else boxed(ctx, f, 0, text) if 'ox' in nm else cref(b64(raw) if nm.endswith('64') else raw)
            r = ctx.run(f, [arg], eng=eng, st=st)
            n += 1
            ctx.ob(all(file_failed(e) for _, e in r.errs()), nm, 'a well-formed public key is read', '[lines end with %r] ' % (ends,) + '; '.join(show(e)[:160] for _, e in r.errs()[:2]))
            for s, v in r.oks():
                good += 1
                why = fields_equal(ctx, eng, s, pv, v, want)
                ctx.ob(why is None, nm, 'the key read has the bytes of the file', str(why))
            ctx.ob(bool(r.oks()), nm, 'some execution succeeds (the rule is not vacuous)')
    # ---- secret keys
    for nm in ('SecretKey::from_box', 'SecretKeyBox::into_secret_key', 'SecretKey::from_file', 'SecretKey::from_unencrypted_box', 'SecretKeyBox::into_unencrypted_secret_key'):
        f = ctx.fn(nm)
        plain = 'unencrypted' in nm
        for k, (ops, mem) in enumerate(LIMITS[:1] if plain else LIMITS):
            for ends in ENDS if k == 0 or ctx.tier == 'thorough' else ENDS[k % 3:k % 3 + 1]:
                eng, st = ctx.engine(), State()
                comment, pw = text_sym(eng, st, 'comment'), sym_text(eng, 'password')
                want = {'keynum': sq_base(mk('base', mk('sym', 'keynum'), 8)), 'sk': sq_base(mk('base', mk('sym', 'sk'), 64))}
                salt = sq_base(mk('base', mk('sym', 'salt'), 32))
                tag = sq_bytes(TAG_L)
                want['chk'] = sq_base(mk('blake2b', 32, concat(tag, want['keynum'], want['sk'])))
                secret = concat(want['keynum'], want['sk'], want['chk'])
                if not plain:
                    key = mk('base', mk('scrypt', pw, salt, mk('scparams', *[mk('k', x) for x in scparams_ref(mem, ops)])), 104)
                    secret = sq_elems([eng.binop(st, 'BitXor', byte(eng, st, secret, i), at(key, i), 'u8') for i in range(104)])
                raw = concat(tag, sq_bytes(TAG_NONE if plain else TAG_KDF), sq_bytes(b'B2'), salt, sq_bytes(ops.to_bytes(8, 'little')), sq_bytes(mem.to_bytes(8, 'little')), secret)
                args = [None] * len(f['in'])
                text = eng.opts['file'] = text_of(comment, b64(raw), ends)
                args[0] = None if nm.endswith('file') else boxed(ctx, f, 0, text)
                for i, kind in opt_string_args(ctx, f).items():
                    args[i] = some(pw) if kind == 'password' else NONE
                r = ctx.run(f, args, eng=eng, st=st)
                n += 1
                label = '[limits %d and %d, lines end with %r] ' % (ops, mem, ends)
                for s, e in r.errs():
                    ctx.ob(params_failed(e) and not plain or file_failed(e) and nm.endswith('file'), nm, 'a genuine secret key opens', label + show(e)[:200])
                for s, v in r.oks():
                    good += 1
                    why = fields_equal(ctx, eng, s, kv, v, want)
                    ctx.ob(why is None, nm, 'the key opened has the bytes that were protected', label + str(why))
                ctx.ob(bool(r.oks()), nm, 'some execution succeeds (the rule is not vacuous)', label)
    ctx.notes.append('%d key files, %d successful readings' % (n, good))
