"""Rules about what secret-key operations depend on: C16."""
from .base import *
from .base import Gap, canon, cref
from .engine import OPT, RES, NONE, some
from .models import deep, LOCAL_PRIMS
from .prog import Program
from .rules_codec import eq_impls
from .rules_flow import Secrets, holds_secret, local_name, mark, peeled
from .rules_keys import generation_roots
from .rules_sign import sign_runs
from .taint import Taint

# comparisons and searches of external code that stop at the first difference or match
STOPS = {'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp', 'starts_with', 'ends_with', 'contains', 'any', 'all', 'position', 'rposition', 'find',
         'find_map', 'try_fold', 'try_for_each', 'is_sorted', 'is_subset', 'binary_search', 'eq_by', 'min', 'max', 'min_by', 'max_by', 'sort', 'sort_unstable',
         'strip_prefix', 'strip_suffix', 'take_while', 'skip_while', 'filter', 'filter_map', 'max_by_key', 'min_by_key', 'dedup', 'retain', 'equal'}


class KeySecrets(Secrets):
    """secret key bytes, their hash, the nonce.  A public point, a signature's second half and a checksum are not secret; a comparison of secrets is"""
    oneway = ('enc', 'muladd', 'blake2b', 'len', 'slen')

    def base_kind(self, b):
        if isT(b, 'base') and b.a and isinstance(b.a[0], T) and b.a[0].op in ('typed', 'scrypt') and b not in self.all and b.a[0] not in self.all:
            return None
        return super().base_kind(b)


class Watch:
    """what one analysed operation branches on, indexes by, and hands to primitives and comparisons"""

    def __init__(self):
        self.conds = {}         # (kind, term) -> site
        self.compares = {}      # (name, args) -> site
        self.prims = {}         # key -> (path, [argument tuples])
        self.n = 0

    def hook(self, eng):
        def h(kind, st, data, site):
            if kind in ('branch', 'index'):
                self.n += 1
                self.conds.setdefault((kind, data[0]), site)
            elif kind == 'call':
                ci, args, modelled = data
                name = (ci.get('r') or ci['p']).rsplit('::', 1)[-1]
                local = ci.get('rlocal') or (ci.get('local') and ci.get('r') is None)
                if local and modelled:
                    vals = tuple(self.deep(eng, st, a) for a in args)
                    e = self.prims.setdefault(ci.get('key'), (ci.get('r') or ci['p'], set()))
                    e[1].add(vals)
                elif not local and name in STOPS:
                    vals = tuple(self.deep(eng, st, a) for a in args)
                    self.compares.setdefault((ci['p'], vals), site)
        return h

    def deep(self, eng, st, a):
        try:
            return deep(eng, st, a)
        except Exception:
            return a


def judge(ctx, nm, w, S, whole=None):
    """obligations from what a run branched on"""
    for (kind, t), site in w.conds.items():
        x = S.leak(t)
        ok = x is None or (whole is not None and whole(t))
        fn = canon(site[1]) if site else nm
        ctx.ob(ok, '%s -> %s' % (nm, fn) if fn != nm else nm, 'no %s depends on secret bytes' % ('branch or range check' if kind == 'branch' else 'index'),
               '' if ok else '%s depends on %s at %s' % (show(t)[:160], show(x)[:80], site[0] if site else '?'))
    for (p, vals), site in w.compares.items():
        x = None
        for v in vals:
            if isinstance(v, T) and not scalar(v):
                x = x or S.leak(v)
        fn = canon(site[1]) if site else nm
        ctx.ob(x is None, '%s -> %s' % (nm, fn) if fn != nm else nm, 'secret bytes are not given to comparisons or searches that stop early',
               '' if x is None else '%s sees %s at %s' % (p, show(x)[:80], site[0] if site else '?'))


def scalar(v):
    return not isinstance(v, T) or v.op in ('at', 'lin', 'cat', 'byteof') or (isinstance(v.ty, str) and v.op not in ('base', 'seq'))


def seeds(eng, outs, w):
    """random bytes that are hashed into a key"""
    found = set()
    terms = []
    for s, v in outs:
        try:
            terms.append(deep(eng, s, v) if isinstance(v, T) else v)
        except Exception:
            pass
    for p, vals in w.prims.values():
        terms.extend(x for vs in vals for x in vs)
    for t in terms:
        if isinstance(t, T):
            for x in subterms(t):
                if isT(x, 'sha512'):
                    for q in subterms(x):
                        if isT(q, 'base') and isinstance(q.a[0], T) and q.a[0].op == 'rand':
                            found.add(q)
    return found


def secret_prims(w, S):
    """keys of the primitives that some call hands secrets"""
    out = {}
    for key, (path, vals) in w.prims.items():
        if any(S.leak(x) is not None for vs in vals for x in vs if isinstance(x, T)):
            out[key] = path
    return out


def c16(ctx):
    """Two analyses of the source.  (1) Signing (every combination of optional arguments), every key generation function, deriving a public key
    and comparing secret keys are executed abstractly with every secret byte unknown; every branch condition, bounds check and index they
    evaluate, and every early-stopping comparison they call, must not depend on a secret key byte, the hash of the seed, or the nonce (a
    comparison of two keys may branch on the complete result).  (2) Every hash and curve routine those runs hand secrets to is followed by a
    taint analysis of the MIR, callees included, that starts from the contents of its byte-string arguments: no branch, bounds check, index,
    range or external call with contents-dependent behaviour may be tainted.  Encoding a computed public point is not followed."""
    kv = ctx.view('SecretKey')
    prims = {}
    total = 0

    def secrets_of(eng, bases=()):
        S = KeySecrets()
        for b in bases:
            S.ranges[b] = [(0, 32)]
        return S
    # signing
    w_of = {}

    def shook(s, kind, st, data, site):
        w = w_of.setdefault(id(s), Watch())
        w.hook(s.eng)(kind, st, data, site)
    for s in sign_runs(ctx, hook=shook, opts={'watch': 1}):
        w = w_of.get(id(s), Watch())
        S = secrets_of(s.eng, [kv.get(s.sk, 'sk').a[0][1]])
        total += w.n
        judge(ctx, 'sign', w, S)
        prims.update(secret_prims(w, S))
    ctx.ob(total >= 20, 'sign', 'branches of signing were analysed', str(total))
    ctx.ob(len(prims) >= 4, 'sign', 'hash and curve routines that receive secrets were identified', ', '.join(sorted(canon(p) for p in prims.values())))
    # key generation
    for f in generation_roots(ctx):
        nm = canon(f['p'])
        eng = ctx.engine(watch=1)
        w = Watch()
        r = ctx.run(f, [None] * len(f['in']), eng=eng, hook=w.hook(eng))
        S = secrets_of(eng)
        S.rand |= seeds(eng, r.outs, w)
        ctx.ob(bool(S.rand), nm, 'the random seed of the key was identified')
        total += w.n
        judge(ctx, nm, w, S)
        prims.update(secret_prims(w, S))
    # public key of a secret key
    for f in ctx.public():
        if f['in'] and len(f['in']) == 1 and holds_secret(ctx, f['in'][0]) and local_name(ctx, f['in'][0]) == 'SecretKey':
            t = ctx.prog.types[f['out']]
            if t['k'] == 'adt' and t['p'] == RES:
                t = ctx.prog.types[t['v'][0]['f'][0][1]]
            if not (t['k'] == 'adt' and t['local'] and t['p'].rsplit('::', 1)[-1] == 'PublicKey'):
                continue
            eng = ctx.engine(watch=1)
            v = kv.fresh(eng, 'arg0')
            w = Watch()
            ctx.run(f, [cref(v) if ctx.prog.types[f['in'][0]]['k'] == 'ref' else v], eng=eng, hook=w.hook(eng))
            judge(ctx, canon(f['p']), w, secrets_of(eng, [kv.get(v, 'sk').a[0][1]]))
    # comparison
    n = 0
    for m, f in eq_impls(ctx, 'SecretKey'):
        n += 1
        nm = canon(f['p'])
        eng = ctx.engine(watch=1)
        a, b = kv.fresh(eng, 'left'), kv.fresh(eng, 'right')
        w = Watch()
        r = ctx.run(f, [cref(a), cref(b)], eng=eng, hook=w.hook(eng))
        ba, bb = kv.get(a, 'sk').a[0][1], kv.get(b, 'sk').a[0][1]
        S = secrets_of(eng, [ba, bb])

        def whole(t):
            # the complete result of the comparison
            for base in (ba, bb):
                if any(isT(q, 'seq') and len(q.a) == 1 and q.a[0][0] == 'o' and q.a[0][1] is base and q.a[0][2] == 0 and q.a[0][3] in (32, 64) for q in subterms(t)):
                    continue
                got = {q.a[1] for q in subterms(t) if isT(q, 'at') and q.a[0] is base}
                if not set(range(32)) <= got:
                    return False
            return True
        total += w.n
        judge(ctx, nm, w, S, whole)
        prims.update(secret_prims(w, S))
    ctx.ob(n >= 1, 'SecretKey', 'the equality of secret keys was analysed')
    # the primitives
    prog = ctx.prog
    enc = LOCAL_PRIMS['crypto::curve25519::GeP3::to_bytes']
    barriers = {k for k, b in prog.bodies.items() if LOCAL_PRIMS.get(b.path) is enc}
    tt = Taint(prog, barriers)
    for key, path in sorted(prims.items(), key=str):
        if key in barriers:
            continue
        if key not in prog.bodies:
            raise Gap('no body for %s' % path)
        b = prog.bodies[key]
        tt.add(key)
        for i in range(1, b.argc + 1):
            ti = b.locals[i]
            ti = ti if isinstance(ti, int) else ti[0]
            t = prog.types[ti]
            o = tt.obj((key, i))
            if t['k'] == 'ref':
                o, t = tt.ptee(o), prog.types[t['e']]
            if t['k'] in ('array', 'slice'):
                tt.taint(o, 'contents of argument %d of %s' % (i, canon(path)))
    tt.run()
    tt.solve()
    bad = tt.violations()
    for fn, what, loc in bad:
        ctx.ob(False, canon(fn), 'the hash and curve routines branch on and index by public values only', '%s depends on secret bytes at %s' % (what, loc))
    for key in sorted(tt.done):
        p = prog.bodies[key].path
        if not any(fn == p for fn, _, _ in bad):
            ctx.ob(True, canon(p), 'the hash and curve routines branch on and index by public values only')
    ctx.ob(len(tt.done) >= 15 and len(tt.sinks) >= 200, '(all)', 'routines below the secret-key operations were analysed', '%d, %d' % (len(tt.done), len(tt.sinks)))
    ctx.notes.append('taint analysis: %d bodies, %d branches, indices and ranges, %d calls; abstract runs: %d branch conditions' %
                     (len(tt.done), len(tt.sinks), tt.calls, total))
