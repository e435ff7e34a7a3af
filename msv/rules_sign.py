"""Rules about signing: C14, C15, and the parts of C07 and C17 that concern `sign`."""
from .base import *
from .rules_verify import equation, whole_stream, TAG_P, same_int


# ------------------------------------------------------------------ byte functions over a finite domain
def byte_eval(t, x, v):
    """value of the byte expression t when the byte term x has value v, or None"""
    if isinstance(t, int):
        return t
    if t is x:
        return v
    xs = []
    for a in t.a:
        if isinstance(a, (int, T)):
            r = byte_eval(a, x, v)
            if r is None:
                return None
            xs.append(r)
        else:
            return None
    if t.op == 'bitand':
        r = 255
        for q in xs:
            r &= q
        return r
    if t.op == 'bitor':
        r = 0
        for q in xs:
            r |= q
        return r
    if t.op == 'bitxor':
        r = 0
        for q in xs:
            r ^= q
        return r
    if t.op == 'shl' and len(xs) == 2:
        return (xs[0] << xs[1]) & 255
    if t.op == 'shr' and len(xs) == 2:
        return xs[0] >> xs[1]
    if t.op in ('wadd', 'wsub', 'wmul') and len(xs) == 2:
        return {'wadd': xs[0] + xs[1], 'wsub': xs[0] - xs[1], 'wmul': xs[0] * xs[1]}[t.op] & 255
    if t.op == 'lin':
        r = t.a[1]
        for a, c in t.a[0]:
            y = byte_eval(a, x, v)
            if y is None:
                return None
            r += c * y
        return r & 255
    if t.op == 'cat' and all(isinstance(q, int) and q == 0 for q in t.a[1:]):
        return xs[0]
    if t.op in ('div', 'rem') and len(xs) == 2 and xs[1]:
        return xs[0] // xs[1] if t.op == 'div' else xs[0] % xs[1]
    return None


def same_byte_fn(t, x, f):
    """is the byte expression t the function f of the byte x, on all 256 values"""
    return all(byte_eval(t, x, v) == f(v) for v in range(256))


def one_base(s, op, n=None):
    """the opaque base of a sequence that is exactly base[0..n]"""
    if isT(s, 'seq') and len(s.a) == 1 and s.a[0][0] == 'o' and s.a[0][1].op == op and s.a[0][2] == 0 and (n is None or s.a[0][3] == n):
        return s.a[0][1]
    return None


def is_clamped_digest(eng, st, s, seed):
    """is s the clamped first half of SHA-512(seed)"""
    d = mk('sha512', seed)
    if not isT(s, 'seq') or seqlen(s) != 32:
        return 'the secret scalar is not 32 bytes'
    for i in range(32):
        b = byte(eng, st, s, i)
        x = at(d, i)
        f = (lambda v: v & 248) if i == 0 else (lambda v: (v & 63) | 64) if i == 31 else None
        if f is None:
            if b is not x:
                return 'byte %d of the secret scalar is not byte %d of the seed digest' % (i, i)
        elif not same_byte_fn(b, x, f):
            return 'byte %d of the secret scalar is not clamped as specified' % i
    return None


class Sig:
    """decomposition of a produced signature"""
    def __init__(self):
        self.msg = self.pre = self.nonce = None
        self.why = None


def take_signature(eng, st, sig, sk):
    """recognise sig as an Ed25519 signature by sk -> Sig (why is None when it is one)"""
    r = Sig()

    def no(w):
        r.why = w
        return r
    if not isT(sig, 'seq') or seqlen(sig) != 64:
        return no('it is not 64 bytes')
    R, S = eng.subseq(st, sig, 0, 32), eng.subseq(st, sig, 32, 64)
    e = one_base(R, 'enc', 32)
    if e is None or not isT(e.a[0], 'smb'):
        return no('the first half is not an encoded multiple of the base point')
    r.nonce = nonce = e.a[0].a[0]
    m = one_base(S, 'muladd', 32)
    if m is None:
        return no('the second half is not hash * scalar + nonce')
    h, a, n2 = m.a
    if n2 is not nonce:
        return no('the two halves use different nonces')
    seed, pk = eng.subseq(st, sk, 0, 32), eng.subseq(st, sk, 32, 64)
    w = is_clamped_digest(eng, st, a, seed)
    if w:
        return no(w)
    hb = one_base(h, 'scred', 32)
    hs = one_base(hb.a[0], 'sha512', 64) if hb is not None else None
    if hs is None:
        return no('the challenge is not a reduced complete SHA-512')
    pre = hs.a[0]
    x = eng.seq_split(st, pre, 64)
    if x is None or x[0] is not concat(R, pk):
        return no('the challenge hash does not start with R and the public key of the secret key: %s' % show(pre)[:160])
    r.msg = x[1]
    nb = one_base(nonce, 'scred', 32)
    ns = one_base(nb.a[0], 'sha512', 64) if nb is not None else None
    r.pre = ns.a[0] if ns is not None else None
    return r


class SignRun:
    pass


def sign_runs(ctx, opts=None, hook=None):
    pv, sv = ctx.view('PublicKey'), ctx.view('SecretKey')
    out = []
    for haspk in (0, 1):
        for tc in (0, 1):
            for uc in (0, 1):
                s = SignRun()
                eng = s.eng = ctx.engine(**(opts or {}))
                s.label = 'pk=%s,trusted=%s,untrusted=%s' % tuple('given' if x else 'none' for x in (haspk, tc, uc))
                s.haspk, s.tc, s.uc = haspk, tc, uc
                s.sk = sv.fresh(eng, 'sk')
                s.pk = pv.fresh(eng, 'pk')
                s.tcs = eng.sym_seq(mk('sym', 'trusted'), mk('len', mk('sym', 'trusted'), ty='usize'), None)
                s.ucs = eng.sym_seq(mk('sym', 'untrusted'), mk('len', mk('sym', 'untrusted'), ty='usize'), None)
                body = ctx.body('sign')
                if body.argc != 5:
                    raise Gap('sign takes %d arguments' % body.argc)
                s.rid = eng.make_value(body.locals[3], mk('sym', 'reader'))
                s.run = ctx.run('sign', [some(cref(s.pk)) if haspk else NONE, cref(s.sk), s.rid,
                                         some(cref(s.tcs)) if tc else NONE, some(cref(s.ucs)) if uc else NONE], eng=eng,
                                hook=(lambda *a, s=s: hook(s, *a)) if hook else None)
                out.append(s)
    return out


def main_sig(ctx, sr, st, v):
    view = ctx.view('SignatureBox')
    sk = ctx.view('SecretKey').get(sr.sk, 'sk')
    return take_signature(sr.eng, st, view.get(v, 'sig'), sk)


def prehashed_data(m):
    """the data whose 64-byte BLAKE2b digest is m"""
    b = one_base(m, 'blake2b', 64)
    if b is None or b.a[0] != 64:
        return None
    return b.a[1]


# ------------------------------------------------------------------ C14
def c14(ctx):
    """`sign` for all eight combinations of optional arguments, all paths, all values: in each Ok state the object carries the prehashed tag and the
    secret key's id; the main signature has the form (R, S) of an Ed25519 signature by the secret key over the 64-byte BLAKE2b digest of the
    whole source; the global one over the main signature bytes followed by the caller's comment; and a public key given has the same id and
    makes one of the two verify (or is byte-equal to the one in the secret key)."""
    view, skv, pkv = ctx.view('SignatureBox'), ctx.view('SecretKey'), ctx.view('PublicKey')
    n = 0
    for sr in sign_runs(ctx):
        eng = sr.eng
        oks = sr.run.oks()
        ctx.ob(bool(oks), 'sign', 'some execution of sign succeeds (the rule is not vacuous)', sr.label)
        sk = skv.get(sr.sk, 'sk')
        for st, v in oks:
            n += 1
            lab = '[%s] ' % sr.label
            ctx.ob(is_bytes(eng, st, view.get(v, 'sig_alg'), TAG_P), 'sign', 'the signature is tagged as prehashed', lab + show(view.get(v, 'sig_alg'))[:80])
            if view.has('is_prehashed'):
                ctx.ob(eng.truth(st, view.get(v, 'is_prehashed')) == 1, 'sign', 'the signature object is marked as prehashed', lab)
            bad = seq_known_eq(eng, st, view.get(v, 'keynum'), skv.get(sr.sk, 'keynum'), 8)
            ctx.ob(bad is None, 'sign', 'the key id of the signature is that of the secret key', lab + 'byte %s' % bad)
            s1 = main_sig(ctx, sr, st, v)
            if not ctx.ob(s1.why is None, 'sign', 'the main signature is an Ed25519 signature by the secret key', lab + str(s1.why)):
                continue
            d = prehashed_data(s1.msg)
            if ctx.ob(d is not None, 'sign', 'the main signature is made over the 64-byte BLAKE2b digest of the data', lab + show(s1.msg)[:160]):
                why, _ = whole_stream(eng, st, d, sr.rid)
                ctx.ob(why is None, 'sign', 'the digest signed covers the whole data', lab + str(why))
            stc, gs = view.get(v, 'sig_and_trusted_comment'), view.get(v, 'global_sig')
            if not ctx.ob(is_agg(stc, OPT, 1) and is_agg(gs, OPT, 1), 'sign', 'comment and global signature are present', lab):
                continue
            stc, gs = stc.a[2], gs.a[2]
            head = eng.seq_split(st, stc, 64)
            ctx.ob(head is not None and head[0] is eng.subseq(st, view.get(v, 'sig'), 0, 64), 'sign',
                   'the globally signed bytes start with the main signature', lab + show(stc)[:160])
            if sr.tc and head is not None:
                ctx.ob(head[1] is sr.tcs, 'sign', 'the trusted comment is exactly the caller\'s', lab + show(head[1])[:160])
            if sr.uc:
                ctx.ob(view.get(v, 'untrusted_comment') is sr.ucs, 'sign', 'the untrusted comment is exactly the caller\'s', lab + show(view.get(v, 'untrusted_comment'))[:160])
            s2 = take_signature(eng, st, gs, sk)
            if ctx.ob(s2.why is None, 'sign', 'the global signature is an Ed25519 signature by the same secret key', lab + str(s2.why)):
                ctx.ob(s2.msg is stc, 'sign', 'the global signature is made over the main signature followed by the trusted comment', lab + show(s2.msg)[:200])
            if sr.haspk:
                pk, kn = pkv.get(sr.pk, 'pk'), pkv.get(sr.pk, 'keynum')
                bad = seq_known_eq(eng, st, kn, skv.get(sr.sk, 'keynum'), 8)
                ctx.ob(bad is None, 'sign', 'with a public key given, success only if its key id is the secret key\'s', lab + 'byte %s' % bad)
                same = seq_known_eq(eng, st, pk, eng.subseq(st, sk, 32, 64), 32) is None
                if not same:
                    m1, w1 = equation(eng, st, pk, view.get(v, 'sig'))
                    m2, w2 = equation(eng, st, pk, gs)
                    same = m1 is s1.msg or m2 is stc
                ctx.ob(same, 'sign', 'with a public key given, success only if a produced signature verifies under it', lab)
    ctx.ob(n >= 8, 'sign', 'successful executions were analysed for every combination of arguments', str(n))


# ------------------------------------------------------------------ C15
def rand_bytes(pre):
    """random atoms completely included in a sequence -> {base: length}"""
    r = {}
    for g in pre.a:
        if g[0] == 'o' and isT(g[1], 'base') and isT(g[1].a[0], 'rand') and isinstance(g[2], int) and isinstance(g[3], int):
            r[g[1]] = r.get(g[1], 0) + g[3] - g[2]
    return r


def c15(ctx):
    """For both signatures `sign` produces, in every Ok state of every combination of optional arguments: R encodes r*B and S = r + h*a with the same
    r, a the clamped digest of the seed and h = SHA-512(R, A, M); r is the reduced SHA-512 of at least 32 bytes of system randomness drawn for this
    signature only, the secret half of the seed digest and that same complete M."""
    view, skv = ctx.view('SignatureBox'), ctx.view('SecretKey')
    n = 0
    for sr in sign_runs(ctx):
        eng = sr.eng
        sk = skv.get(sr.sk, 'sk')
        for st, v in sr.run.oks():
            lab = '[%s] ' % sr.label
            gs = view.get(v, 'global_sig')
            used = []
            for what, sig in (('main', view.get(v, 'sig')), ('global', gs.a[2] if is_agg(gs, OPT, 1) else None)):
                if sig is None:
                    continue
                n += 1
                s = take_signature(eng, st, sig, sk)
                if not ctx.ob(s.why is None, 'sign', 'the %s signature is (r*B, r + h*a)' % what, lab + str(s.why)):
                    continue
                if not ctx.ob(s.pre is not None, 'sign', 'the nonce of the %s signature is a reduced complete SHA-512' % what, lab + show(s.nonce)[:160]):
                    continue
                rb = rand_bytes(s.pre)
                ctx.ob(sum(rb.values()) >= 32, 'sign', 'the nonce of the %s signature hashes at least 32 fresh random bytes' % what, lab + show(s.pre)[:160])
                ctx.ob(not any(b in rb for b in used), 'sign', 'the %s signature draws its own randomness' % what, lab)
                used += list(rb)
                d = mk('sha512', eng.subseq(st, sk, 0, 32))
                have = any(g[0] == 'o' and g[1] is d and same_int(eng, st, g[2], g[2]) and isinstance(g[2], int) and g[2] <= 32 and g[3] == 64 for g in s.pre.a)
                ctx.ob(have, 'sign', 'the nonce of the %s signature hashes the secret half of the seed digest' % what, lab + show(s.pre)[:160])
                # the message hashed into the nonce is the message hashed into the challenge
                k = len(s.msg.a)
                tail = mkseq(list(s.pre.a[-k:])) if k else EMPTY
                ctx.ob(k > 0 and tail is s.msg or contains_run(s.pre, s.msg), 'sign', 'the nonce of the %s signature hashes the whole message' % what,
                       lab + 'nonce preimage %s, message %s' % (show(s.pre)[:200], show(s.msg)[:200]))
    ctx.ob(n >= 16, 'sign', 'signatures were analysed for every combination of arguments', str(n))


def contains_run(pre, msg):
    """does the sequence contain the segments of msg contiguously (split points aligned)"""
    a, b = list(pre.a), list(msg.a)
    if not b:
        return False
    return any(a[i:i + len(b)] == b for i in range(len(a) - len(b) + 1))
