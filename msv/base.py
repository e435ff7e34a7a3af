"""Shared parts of the rules: roots, object views, runs and obligations."""
import re
import time
from .terms import *
from .terms import mk, isT
from .engine import (Engine, State, OPT, RES, NONE, UNIT, some, ok, err, tup, agg, is_agg, Unsupported, Budget)


class Gap(Exception):
    """the analysis could not decide (always reported, never swallowed)"""


def canon(p):
    """path of a function with module prefixes removed"""
    q = re.sub(r"(?:\b[a-z_][a-z_0-9]*::)+(?=[A-Z<])", '', p)
    q = re.sub(r"^(?:[a-z_][a-z_0-9]*::)+(?=[a-z_0-9]+$)", '', q)
    m = re.match(r'^<impl (.*) for (.*)>::(\w+)$', q)
    if m:
        q = '<%s as %s>::%s' % (m.group(2), m.group(1), m.group(3))
    return q


ROLES = {
    # leaf name, byte length (None: variable)
    'PublicKey': [('sig_alg', 2), ('keynum', 8), ('pk', 32)],
    'SecretKey': [('sig_alg', 2), ('kdf_alg', 2), ('chk_alg', 2), ('kdf_salt', 32), ('kdf_opslimit_le', 8),
                  ('kdf_memlimit_le', 8), ('keynum', 8), ('sk', 64), ('chk', 32)],
    'SignatureBox': [('untrusted_comment', None), ('sig_alg', 2), ('keynum', 8), ('sig', 64),
                     ('sig_and_trusted_comment', None), ('global_sig', None), ('is_prehashed', None)],
    'SignatureBones': [('sig_alg', 2), ('keynum', 8), ('sig', 64), ('is_prehashed', None)],
    'KeyPair': [('pk', None), ('sk', None)],
}


class View:
    """access to the parts of a key or signature object by role"""

    def __init__(self, ctx, name):
        self.ctx = ctx
        self.name = name
        self.ti = ctx.adt_type(name)
        self.paths = {}
        lv = list(self.leaves(self.ti, (), ()))
        roles = ROLES[name]
        for r, n in roles:
            c = [l for l in lv if l[0][-1] == r]
            if len(c) == 1:
                self.paths[r] = c[0]
        for r, n in roles:
            if r in self.paths:
                continue
            used = {l[1] for l in self.paths.values()}
            c = [l for l in lv if l[1] not in used and self.fits(l[2], r, n)]
            same = [x for x, k in roles if x not in self.paths and k == n and self.sort(x) == self.sort(r)]
            if len(c) == len(same) and c:
                # same number of candidates as roles of that shape: declaration order
                self.paths[r] = c[0]

    @staticmethod
    def sort(r):
        return {'untrusted_comment': 's', 'sig_and_trusted_comment': 'o', 'global_sig': 'o', 'is_prehashed': 'b'}.get(r, 'a')

    def fits(self, ti, r, n):
        t = self.ctx.prog.types[ti]
        if n is not None:
            return t['k'] == 'array' and t['l'] == n
        s = self.sort(r)
        if s == 'b':
            return t['k'] == 'bool'
        if s == 's':
            return t['k'] == 'adt' and t['p'] == 'std::string::String'
        if s == 'o':
            return t['k'] == 'adt' and t['p'] == OPT
        return False

    def leaves(self, ti, names, path):
        t = self.ctx.prog.types[ti]
        if t['k'] == 'adt' and t['local'] and t['ak'] == 'struct' and (self.name != 'KeyPair' or not path):
            for i, f in enumerate(t['v'][0]['f']):
                yield from self.leaves(f[1], names + (f[0],), path + (i,))
        else:
            yield (names, path, ti)

    def has(self, role):
        return role in self.paths

    def get(self, v, role, eng=None, st=None):
        if role not in self.paths:
            raise Gap('%s has no recognisable %s part' % (self.name, role))
        for i in self.paths[role][1]:
            if not is_agg(v):
                raise Gap('%s is not a structured value' % self.name)
            v = v.a[2 + i]
        return v

    def set(self, v, role, new):
        def go(v, path):
            if not path:
                return new
            a = list(v.a)
            a[2 + path[0]] = go(a[2 + path[0]], path[1:])
            return mk('agg', *a)
        return go(v, self.paths[role][1])

    def fresh(self, eng, nm):
        return eng.make_value(self.ti, mk('sym', nm))


class Run:
    def __init__(self, eng, name, body, outs, dt):
        self.eng = eng
        self.name = name
        self.body = body
        self.outs = outs
        self.dt = dt

    def oks(self, check=None):
        """states returning Ok(x) -> [(state, x)]; anything but a plain Ok/Err is a gap"""
        r = []
        for s, v in self.outs:
            if is_agg(v, RES, 0):
                r.append((s, v.a[2] if len(v.a) > 2 else UNIT))
            elif is_agg(v, RES, 1):
                continue
            else:
                raise Gap('%s returns a result the analysis cannot split: %s' % (self.name, show(v)[:200]))
        return r

    def errs(self):
        return [(s, v.a[2]) for s, v in self.outs if is_agg(v, RES, 1)]


class Ctx:
    """the program under analysis plus everything a check records"""

    def __init__(self, prog, tier='quick'):
        self.prog = prog
        self.tier = tier
        self.roots = {}
        for f in prog.fns:
            if f['body']:
                self.roots.setdefault(canon(f['p']), []).append(f)
        self.views = {}
        self.violations = []      # (construct, message, detail)
        self.obls = []            # (construct, what, holds)
        self.fns = set()
        self.blocks = set()
        self.steps = 0
        self.states = 0
        self.runs = []
        self.unmodelled = {}
        self.notes = []
        self.seen_v = set()

    # ---- lookup
    def adt_type(self, name):
        c = [i for i, t in enumerate(self.prog.types) if t['k'] == 'adt' and t['local'] and t['p'].rsplit('::', 1)[-1] == name]
        if not c:
            raise Gap('type %s not found' % name)
        return c[0]

    def view(self, name):
        if name not in self.views:
            self.views[name] = View(self, name)
        return self.views[name]

    def fn(self, name, required=True):
        fs = self.roots.get(name, [])
        pub = [f for f in fs if f['pub']]
        fs = pub or fs
        if not fs:
            if required:
                raise Gap('anchor function %s is missing' % name)
            return None
        return fs[0]

    def body(self, name):
        f = self.fn(name)
        return self.prog.bodies[f['key']]

    def public(self):
        """all public functions with a body"""
        return [f for f in self.prog.fns if f['pub'] and f['body']]

    # ---- runs
    def engine(self, hook=None, **opts):
        return Engine(self.prog, hook=hook, opts=opts)

    def run(self, name, args, eng=None, st=None, hook=None, opts=None):
        """abstractly execute a root on the given argument values"""
        f = name if isinstance(name, dict) else self.fn(name)
        nm = canon(f['p'])
        body = self.prog.bodies[f['key']]
        eng = eng or self.engine(hook, **(opts or {}))
        if hook is not None:
            eng.hook = hook
        st = st if st is not None else State()
        args = list(args)
        if len(args) != body.argc:
            raise Gap('%s takes %d arguments, expected %d' % (nm, body.argc, len(args)))
        for i in range(body.argc):
            if args[i] is None:
                args[i] = eng.make_value(body.locals[i + 1], mk('sym', 'arg%d' % i))
        t0 = time.time()
        try:
            outs = eng.run_body(st, body, args, mk('fr', nm))
        except (Unsupported, Budget) as x:
            raise Gap('analysis of %s stopped at %s: %s' % (nm, eng.site, x))
        r = Run(eng, nm, body, outs, time.time() - t0)
        r.args = args
        self.fns |= eng.visited_fns
        self.blocks |= eng.visited_blocks
        self.steps += eng.steps
        self.states += len(outs)
        self.runs.append((nm, len(outs), eng.steps))
        for (w, site), n in eng.unmodelled.items():
            k = '%s in %s' % (w, site[1] if site else '?')
            self.unmodelled[k] = self.unmodelled.get(k, 0) + n
        return r

    # ---- obligations
    def ob(self, cond, construct, what, detail=''):
        self.obls.append((construct, what, bool(cond)))
        if not cond:
            k = (construct, what)
            if k not in self.seen_v:
                self.seen_v.add(k)
                self.violations.append((construct, what, detail))
        return bool(cond)

    def fail(self, construct, what, detail=''):
        return self.ob(False, construct, what, detail)


# ------------------------------------------------------------------ small helpers
def cref(v):
    return mk('ref', ('const', v), ())


def holds(eng, st, t):
    """is the boolean term known to be 1 in st"""
    return eng.truth(st, t) == 1


def eqk(eng, st, a, b):
    """are two scalar values known equal"""
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return True
    sa, sb = eng.singleton(st, a), eng.singleton(st, b)
    if sa is not None and sb is not None:
        return sa == sb
    e = eng.mk_eq(a, b)
    if isinstance(e, int):
        return e == 1
    return holds(eng, st, e)


def byte(eng, st, s, i):
    return eng.seq_at(st, s, i)


def seq_known_eq(eng, st, a, b, n):
    """every one of the first n elements known equal -> index of the first that is not, or None"""
    for i in range(n):
        if not eqk(eng, st, byte(eng, st, a, i), byte(eng, st, b, i)):
            return i
    return None


def is_bytes(eng, st, s, bs):
    return isT(s, 'seq') and all(eqk(eng, st, byte(eng, st, s, i), b) for i, b in enumerate(bs)) and \
        eqk(eng, st, seqlen(s), len(bs))


def mentions(v, pred):
    return any(pred(t) for t in subterms(v) if isinstance(t, T))
