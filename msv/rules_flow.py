"""Rules about secrets: C17 (where they may go)."""
from .base import *
from .rules_keys import opt_string_args, layout, sym_text
from .rules_misc import writer_args
from .models import deep

ONEWAY = ('enc', 'muladd', 'blake2b', 'len', 'eq', 'seqeq', 'le', 'lt', 'ge0', 'not', 'hasch', 'hasx', 'starts', 'ends', 'utf8ok', 'nlines', 'isPt', 'isid', 'cmp')
SECRET_TYPES = ('SecretKey', 'KeynumSK', 'KeyPair', 'SecretKeyBox')


class Secrets:
    """what counts as secret in one analysed function: ranges of opaque byte strings"""

    oneway = ONEWAY

    def __init__(self):
        self.all = set()        # texts and byte strings secret as a whole
        self.ranges = {}        # base -> [(lo, hi)]
        self.boxes = set()      # texts of boxed secret keys
        self.key_at = (62, 94)
        self.rand = set()
        self.memo = {}

    def base_kind(self, b):
        """None | True (all of it) | [(lo, hi)]"""
        if b in self.memo:
            return self.memo[b]
        r = None
        if b in self.ranges:
            r = self.ranges[b]
        elif b in self.all or b in self.rand:
            r = True
        elif isT(b, 'base') and b.a and isinstance(b.a[0], T):
            nm = b.a[0]
            if nm in self.all:
                r = True
            elif nm.op == 'typed':
                r = True
            elif nm.op == 'scrypt':
                r = True
            elif nm.op == 'line' and self.inside_box(nm.a[0]) and nm.a[1] != 0:
                r = True
            elif nm.op in ('text', 'fsread') and self.inside_box(nm):
                r = True
            elif nm.op == 'b64d' and self.inside_box(nm.a[1]):
                r = [self.key_at]
            elif nm in self.boxes:
                r = True
        elif isT(b, 'sha512') or isT(b, 'scred'):
            r = True if self.leak(b.a, ()) is not None else None
        self.memo[b] = r
        return r

    def inside_box(self, t):
        return mentions(t, lambda q: q in self.boxes) and not mentions(t, lambda q: q.op == 'line' and q.a[1] == 0)

    def leak(self, t, seen=None):
        """a secret that is readable from t, or None"""
        seen = set() if seen is None or seen == () else seen
        if isinstance(t, tuple):
            if len(t) == 4 and t[0] == 'o' and isinstance(t[1], T):
                k = self.base_kind(t[1])
                if k is True:
                    return t[1]
                if k:
                    for lo, hi in k:
                        a, b = t[2], t[3]
                        if not (isinstance(a, int) and a >= hi) and not (isinstance(b, int) and b <= lo):
                            return t[1]
                    return None
                return self.leak(t[1], seen)
            for x in t:
                r = self.leak(x, seen)
                if r is not None:
                    return r
            return None
        if not isinstance(t, T) or t in seen:
            return None
        seen.add(t)
        if t.op in self.oneway:
            return None
        if t in self.all or t in self.boxes:
            return t
        if t.op == 'at':
            k = self.base_kind(t.a[0])
            if k is True:
                return t
            if k:
                i = t.a[1]
                return t if not isinstance(i, int) or any(lo <= i < hi for lo, hi in k) else None
            return self.leak(t.a, seen)
        if t.op == 'base':
            k = self.base_kind(t)
            if k:
                return t
            return self.leak(t.a[0], seen)
        return self.leak(t.a, seen)


def peeled(ctx, ti):
    while ctx.prog.types[ti]['k'] in ('ref', 'ptr'):
        ti = ctx.prog.types[ti]['e']
    return ti


def local_name(ctx, ti):
    t = ctx.prog.types[peeled(ctx, ti)]
    return t['p'].rsplit('::', 1)[-1] if t['k'] == 'adt' and t['local'] else None


def holds_secret(ctx, ti, d=0):
    """does a type carry a secret key"""
    t = ctx.prog.types[peeled(ctx, ti)]
    if t['k'] == 'adt':
        if t['local'] and t['p'].rsplit('::', 1)[-1] in SECRET_TYPES:
            return True
        return d < 4 and any(a is not None and holds_secret(ctx, a, d + 1) for a in (t['a'] or []) if isinstance(a, int))
    if t['k'] == 'tuple':
        return any(holds_secret(ctx, x, d + 1) for x in t['f'])
    return False


def c17(ctx):
    """All public functions that are given or make secrets (secret keys, boxed secret keys, passwords, key generation), on all paths: no byte
    of the first 32 secret key bytes, of a typed or supplied password, of a boxed secret key, of the seed, of its SHA-512, of the nonce or of
    the scrypt keystream occurs (outside one-way functions) in an error value, in a result other than the secret key itself and its own
    serialization or debug rendering, in anything handed to standard output or standard error, or to the public-key writer."""
    kv = ctx.view('SecretKey')
    off = layout(ctx)
    n = m = 0
    for f in ctx.public():
        nm = canon(f['p'])
        sec_in = [i for i, t in enumerate(f['in']) if holds_secret(ctx, t)]
        pws = [i for i, k in opt_string_args(ctx, f).items() if k == 'password']
        makes = holds_secret(ctx, f['out'])
        mayread = any(is_path_arg(ctx, t) for t in f['in'])
        if not (sec_in or pws or makes):
            continue
        eng = ctx.engine()
        S = Secrets()
        S.key_at = (off['sk'], off['sk'] + 32)
        args = [None] * len(f['in'])
        st0 = State()
        for i, t in enumerate(f['in']):
            name = local_name(ctx, t)
            isref = ctx.prog.types[t]['k'] == 'ref'
            v = None
            if i in pws:
                pw = sym_text(eng, 'password')
                S.all.add(pw.a[0][1])
                # given or not: both are explored
                args[i] = eng.make_value(t, mk('sym', 'arg%d' % i))
                S.all.add(pw)
                continue
            if name in SECRET_TYPES or is_text(ctx, t) and makes:
                v = eng.make_value(peeled(ctx, t), mk('sym', 'arg%d' % i))
                mark(ctx, S, name, v)
                if isref:
                    root = ('secarg', i)
                    st0.mem[root] = v
                    v = mk('ref', root, ())
                args[i] = v
        for i in pws:
            # the password argument as an optional text, given and typed
            pass
        variants = [None]
        if pws:
            variants = [1, 0]
        for given in variants:
            st = st0.copy()
            a2 = list(args)
            for i in pws:
                pw = sym_text(eng, 'password')
                S.all |= {pw, pw.a[0][1]}
                a2[i] = some(pw) if given else NONE
            writes = []

            def hook(kind, s, data, site):
                if kind == 'write' and len(data) > 1:
                    writes.append((data[0], data[1], site))
            r = ctx.run(f, a2, eng=eng, st=st, hook=hook)
            for s, v in r.outs:
                for e in s.ev:
                    if isT(e, 'ev') and e.a[0] == 'fsread' and makes:
                        S.boxes |= {x for x in e.a if isinstance(x, T)}
            # the seed: random bytes that are hashed into a key or a nonce
            for s, v in r.outs:
                for t in list(subterms(deep_out(eng, s, v))) + [x for w in writes for x in subterms(w[1])]:
                    if isT(t, 'sha512'):
                        for q in subterms(t):
                            if isT(q, 'base') and isT(q.a[0], 'rand'):
                                S.rand.add(q)
            S.memo = {}
            wr = writer_args(ctx, f)
            for w, text, site in writes:
                std = isT(w, 'stdout') or isT(w, 'stderr')
                pkw = wr and mentions(w, lambda t: t.op == 'sym' and t.a[0] == 'arg%d' % wr[0])
                if not std and not pkw:
                    continue
                m += 1
                x = S.leak(text)
                ctx.ob(x is None, nm, 'no secret is written to %s' % ('the public-key writer' if pkw else 'a standard stream'),
                       '%s in %s' % (show(x)[:120], canon(site[1]) if site else '?') if x is not None else '')
            exempt = makes or is_export(ctx, f)
            for s, v in r.outs:
                if is_agg(v, RES, 1):
                    n += 1
                    x = S.leak(deep_out(eng, s, v.a[2]))
                    ctx.ob(x is None, nm, 'no secret is part of an error', show(x)[:160] if x is not None else '')
                    continue
                if exempt:
                    if local_kp(ctx, f, s, v):
                        pk = ctx.view('KeyPair').get(v.a[2] if is_agg(v, RES) else v, 'pk')
                        n += 1
                        x = S.leak(deep_out(eng, s, pk))
                        ctx.ob(x is None, nm, 'no secret is part of the public key', show(x)[:160] if x is not None else '')
                    continue
                n += 1
                x = S.leak(deep_out(eng, s, v))
                ctx.ob(x is None, nm, 'no secret is part of the result', show(x)[:160] if x is not None else '')
    ctx.ob(n >= 60 and m >= 10, '(all)', 'results, errors and writes were analysed', '%d, %d' % (n, m))


def deep_out(eng, st, v):
    try:
        return deep(eng, st, v) if isinstance(v, T) else v
    except Exception:
        raise Gap('a result could not be followed through its references')


def is_path_arg(ctx, ti):
    return ctx.prog.types[ti]['k'] == 'param'


def is_text(ctx, ti):
    d = ctx.prog.types[peeled(ctx, ti)]['d']
    return d in ('str', 'std::string::String') or d == '[u8]'


def mark(ctx, S, name, v):
    """register the secret parts of an argument value"""
    if name in ('SecretKey', 'KeynumSK', 'KeyPair'):
        for t in subterms(v):
            pass
        if name == 'KeyPair':
            v = ctx.view('KeyPair').get(v, 'sk')
        if name == 'KeynumSK':
            bs = [x.a[0][1] for x in v.a[2:] if isT(x, 'seq') and seqlen(x) == 64]
        else:
            bs = [ctx.view('SecretKey').get(v, 'sk').a[0][1]]
        for b in bs:
            S.ranges[b] = [(0, 32)]
    else:
        for t in subterms(v):
            if isT(t, 'base'):
                S.boxes.add(t)
                S.boxes.add(t.a[0])


def is_export(ctx, f):
    """the secret key's own serialization, rendering, copying and conversion"""
    if f.get('traitimpl') and f['p'].rsplit('::', 1)[-1] in ('fmt', 'clone', 'clone_from'):
        return True
    if not f['in'] or local_name(ctx, f['in'][0]) not in SECRET_TYPES:
        return False
    t = ctx.prog.types[f['out']]
    if t['k'] == 'adt' and t['p'] == RES and t['v'] and t['v'][0]['f']:
        t = ctx.prog.types[t['v'][0]['f'][0][1]]
    return t['d'] in ('std::string::String', 'std::vec::Vec<u8>')


def local_kp(ctx, f, st, v):
    w = v.a[2] if is_agg(v, RES, 0) else v
    return is_agg(w) and str(w.a[0]).rsplit('::', 1)[-1] == 'KeyPair'
