"""Rules about verification: C01-C07."""
from .base import *

TAG_L = b'Ed'      # legacy (raw) signatures
TAG_P = b'ED'      # prehashed signatures


# ------------------------------------------------------------------ inputs of `verify`
class Case:
    """one abstract call of `verify` on a consistent signature object"""

    def __init__(self, ctx, prehashed, comment, glob, fixed=None, prepare=None):
        self.prepare = prepare
        self.ctx = ctx
        self.prehashed = prehashed
        self.comment = comment
        self.glob = glob
        self.fixed = fixed or {}

    @property
    def label(self):
        return '%s,comment=%s,global=%s' % ('prehashed' if self.prehashed else 'legacy', 'yes' if self.comment else 'no', 'yes' if self.glob else 'no')

    def build(self, hook=None):
        ctx = self.ctx
        eng = self.eng = ctx.engine()
        sv, pv = ctx.view('SignatureBox'), ctx.view('PublicKey')
        sb = sv.fresh(eng, 'sigbox')
        sb = sv.set(sb, 'sig_alg', sq_bytes(TAG_P if self.prehashed else TAG_L))
        if sv.has('is_prehashed'):
            sb = sv.set(sb, 'is_prehashed', 1 if self.prehashed else 0)
        self.stc = eng.sym_seq(mk('sym', 'signed_and_comment'), mk('len', mk('sym', 'signed_and_comment'), ty='usize'), None)
        self.gs = eng.sym_seq(mk('sym', 'global_signature'), mk('len', mk('sym', 'global_signature'), ty='usize'), None)
        self.st = State()
        if self.prepare:
            pk0 = pv.fresh(eng, 'pk')
            over = self.prepare(self, sb, pk0)
            sb = sv.set(sb, 'sig', over['sig']) if 'sig' in over else sb
            self.gs = over.get('gs', self.gs)
        sb = sv.set(sb, 'sig_and_trusted_comment', some(self.stc) if self.comment else NONE)
        sb = sv.set(sb, 'global_sig', some(self.gs) if self.glob else NONE)
        pk = pv.fresh(eng, 'pk')
        if self.prepare and 'pk' in over:
            pk = pv.set(pk, 'pk', over['pk'])
        self.sb, self.pk = sb, pk
        self.key = pv.get(pk, 'pk')
        self.sig = sv.get(sb, 'sig')
        self.kn_sig = sv.get(sb, 'keynum')
        self.kn_pk = pv.get(pk, 'keynum')
        body = ctx.body('verify')
        if body.argc != 6:
            raise Gap('verify takes %d arguments' % body.argc)
        self.rid = eng.make_value(body.locals[3], mk('sym', 'reader'))
        self.quiet = self.fixed.get('quiet', mk('sym', 'quiet', ty='bool'))
        self.output = self.fixed.get('output', mk('sym', 'output', ty='bool'))
        self.legacy_ok = self.fixed.get('allow', mk('sym', 'allow_legacy', ty='bool'))
        self.args = [cref(pk), cref(sb), self.rid, self.quiet, self.output, self.legacy_ok]
        self.run = ctx.run('verify', self.args, eng=eng, st=self.st, hook=hook)
        return self

    # ---- obligations on a state
    def main_equation(self, st):
        """(message sequence, None) when the Ed25519 equation for the main signature is known to hold"""
        return equation(self.eng, st, self.key, self.sig)

    def keynum_ok(self, st):
        for i in range(8):
            if not eqk(self.eng, st, byte(self.eng, st, self.kn_sig, i), byte(self.eng, st, self.kn_pk, i)):
                return i
        return None

    def global_equation(self, st):
        r, why = equation(self.eng, st, self.key, self.gs)
        if r is None:
            return why
        if r is not self.stc:
            return 'the message checked is not the signed-and-comment bytes but %s' % show(r)[:160]
        return None

    def whole(self, st, m):
        """None if m is the complete data (digest or raw) of the reader, else why not; also the range"""
        if self.prehashed:
            if len(m.a) == 1 and m.a[0][0] == 'o' and m.a[0][1].op == 'blake2b' and m.a[0][2] == 0 and m.a[0][3] == 64 and m.a[0][1].a[0] == 64:
                m = m.a[0][1].a[1]
            else:
                return 'the message is not a 64-byte BLAKE2b digest: %s' % show(m)[:200], None
        return whole_stream(self.eng, st, m, self.rid)


def whole_stream(eng, st, m, rid):
    from .models import stream
    b = stream(rid)
    start = mk('start', rid, ty='u64')
    sl = mk('slen', rid, ty='u64')
    if not isT(m, 'seq'):
        return 'not a byte sequence', None
    if not m.a:
        if eng.nonneg(st, lsub(start, sl)):
            return None, (start, start)
        return 'no data is absorbed although the stream may be non-empty', None
    pos = start
    for g in m.a:
        if g[0] != 'o' or g[1] is not b:
            return 'contains bytes that are not data of the source: %s' % show(mkseq([g]))[:160], None
        if not same_int(eng, st, g[2], pos):
            return 'bytes from %s instead of %s' % (show(g[2])[:80], show(pos)[:80]), None
        pos = g[3]
    if not eng.nonneg(st, lsub(pos, sl)):
        return 'stops at %s, not provably the end of input' % show(pos)[:100], None
    return None, (start, pos)


def same_int(eng, st, a, b):
    d = lsub(a, b)
    if isinstance(d, int):
        return d == 0
    return eng.nonneg(st, d) and eng.nonneg(st, lsub(0, d))


def equation(eng, st, key, sig):
    """find the message M for which facts establish enc(h*(-A) + S*B) == R byte by byte,
    h = SHA512(R, A, M) reduced.  -> (M, None) or (None, reason)"""
    if isinstance(seqlen(sig), T):
        if not eng.nonneg(st, lsub(seqlen(sig), 64)):
            return None, 'the signature may be shorter than 64 bytes'
    R, S = eng.subseq(st, sig, 0, 32), eng.subseq(st, sig, 32, 64)
    A = eng.subseq(st, key, 0, 32)
    cands = {}
    for f, v in st.facts.items():
        if v != 1 or f.op != 'eq':
            continue
        for x in f.a:
            if isT(x, 'at') and isT(x.a[0], 'enc') and isT(x.a[0].a[0], 'dsm'):
                cands[x.a[0]] = 1
    why = 'no comparison with a recomputed point is known to have succeeded'
    for e in cands:
        a, P, b = e.a[0].a
        if P is not mk('negpt', A):
            why = 'the point used is not the decoded public key'
            continue
        if b is not S:
            why = 'the scalar used is not the second half of the signature'
            continue
        if not (isT(a, 'seq') and len(a.a) == 1 and a.a[0][0] == 'o' and isT(a.a[0][1], 'scred') and a.a[0][2] == 0 and a.a[0][3] == 32):
            why = 'the hash is not a reduced SHA-512'
            continue
        h = a.a[0][1].a[0]
        if not (isT(h, 'seq') and len(h.a) == 1 and h.a[0][0] == 'o' and isT(h.a[0][1], 'sha512') and h.a[0][2] == 0 and h.a[0][3] == 64):
            why = 'the reduced hash is not a complete SHA-512 output'
            continue
        pre = h.a[0][1].a[0]
        x = eng.seq_split(st, pre, 64)
        if x is None or x[0] is not concat(R, A):
            why = 'the hash does not start with R and the public key: %s' % show(pre)[:160]
            continue
        bad = [i for i in range(32) if not eqk(eng, st, at(e, i), byte(eng, st, R, i))]
        if bad:
            why = 'byte %d of the recomputed point is not compared' % bad[0]
            continue
        return x[1], None
    return None, why


def all_cases(ctx, **fixed):
    for pre in (1, 0):
        for c in (1, 0):
            for g in (1, 0):
                yield Case(ctx, pre, c, g, fixed)


def verify_oks(ctx, case):
    oks = case.run.oks()
    return oks


# ------------------------------------------------------------------ C01
def c01(ctx):
    """`verify` is executed abstractly for every kind of signature object (prehashed or legacy tag, trusted comment present or not, global
    signature present or not) with every byte of key, signature, comment and data source, every read size and every flag unknown.  Each state
    that returns Ok must have established R == enc(S*B - h*A) over all 32 bytes with A the 32 bytes of the key given, S and R the signature's
    halves and h the reduced SHA-512 of R, A and a message M, where M is the complete byte stream of the data source (legacy) or its
    64-byte BLAKE2b digest (prehashed)."""
    n = 0
    for case in all_cases(ctx):
        case.build()
        for st, _ in verify_oks(ctx, case):
            n += 1
            m, why = case.main_equation(st)
            if not ctx.ob(m is not None, 'verify', 'success only after the Ed25519 check of the main signature with the given key',
                          '[%s] %s' % (case.label, why)):
                continue
            why, rng = case.whole(st, m)
            ctx.ob(why is None, 'verify', 'the message checked is the complete data (its digest when prehashed)',
                   '[%s] %s' % (case.label, why))
    ctx.ob(n > 0, 'verify', 'some execution of verify succeeds (the rule is not vacuous)')


# ------------------------------------------------------------------ C02
def c02(ctx):
    """`verify` for every kind of signature object, all paths: in each state that returns Ok all eight key identifier bytes of the signature are
    known to be equal to the corresponding bytes of the key's identifier."""
    n = 0
    for case in all_cases(ctx):
        case.build()
        for st, _ in verify_oks(ctx, case):
            n += 1
            i = case.keynum_ok(st)
            ctx.ob(i is None, 'verify', 'success only if all 8 key id bytes of signature and key are equal',
                   '[%s] byte %s is not compared' % (case.label, i))
    ctx.ob(n > 0, 'verify', 'some execution of verify succeeds (the rule is not vacuous)')


# ------------------------------------------------------------------ C03
def flag_agrees(ctx, eng, st, view, v, construct):
    """flag is 1 exactly when the tag is the prehashed one, tag one of the two"""
    tag = view.get(v, 'sig_alg')
    if not view.has('is_prehashed'):
        return True
    flag = view.get(v, 'is_prehashed')
    good = True
    tv = eng.truth(st, flag) if isinstance(flag, (int, T)) else None
    cases = [(st, tv)]
    if tv is None:
        from .models import split_bool
        cases = split_bool(eng, st.copy(), flag)
    for s, f in cases:
        want = TAG_P if f else TAG_L
        good &= is_bytes(eng, s, tag, want)
    return good


def c03(ctx):
    """(1) `verify` on every object with the legacy tag and legacy signatures not allowed: no path returns Ok.  (2) Every public function that
    returns or modifies a signature object (full or trimmed-down), all paths: the stored prehashed flag agrees with the two tag bytes in every
    resulting object.  (3) is_prehashed() of an object with either tag reports that tag."""
    # refused unless allowed
    n = 0
    for c in (1, 0):
        for g in (1, 0):
            case = Case(ctx, 0, c, g, {'allow': 0}).build()
            oks = case.run.oks()
            ctx.ob(not oks, 'verify', 'a legacy signature is refused when legacy signatures are not allowed', '[%s]' % case.label)
            n += len(case.run.outs)
    # the flag is what the tag says, wherever such an object is made
    made = 0
    targets = {'SignatureBox', 'SignatureBones'}
    for f in ctx.public():
        nm = canon(f['p'])
        body = ctx.prog.bodies[f['key']]
        out, where = returns_object(ctx, f['out'], targets)
        muts = [i for i, t in enumerate(f['in']) if is_mut_ref_to(ctx, t, targets)]
        if not out and not muts:
            continue
        ins = [input_objects(ctx, t, targets) for t in f['in']]
        variants = [0, 1] if any(ins) else [None]
        for pre in variants:
            eng = ctx.engine()
            st = State()
            args = []
            for i, t in enumerate(f['in']):
                if ins[i]:
                    view = ctx.view(ins[i])
                    o = view.fresh(eng, 'in%d' % i)
                    o = view.set(o, 'sig_alg', sq_bytes(TAG_P if pre else TAG_L))
                    if view.has('is_prehashed'):
                        o = view.set(o, 'is_prehashed', pre)
                    tt = ctx.prog.types[t]
                    if tt['k'] == 'ref':
                        root = ('inobj', i)
                        st.mem[root] = o
                        args.append(mk('ref', root, ()))
                    else:
                        args.append(o)
                else:
                    args.append(None)
            r = ctx.run(f, args, eng=eng, st=st)
            for s, v in r.outs:
                if is_agg(v, RES):
                    if v.a[1] == 1:
                        continue
                    v = v.a[2]
                if out:
                    made += 1
                    view = ctx.view(out)
                    ctx.ob(flag_agrees(ctx, eng, s, view, v, nm), nm, 'the prehashed flag of the returned object is what its algorithm tag says')
                for i in muts:
                    made += 1
                    o = s.mem.get(('inobj', i))
                    ctx.ob(flag_agrees(ctx, eng, s, ctx.view(ins[i]), o, nm), nm, 'the prehashed flag still agrees with the algorithm tag')
    ctx.ob(made >= 5, 'SignatureBox', 'functions producing signature objects were found and analysed', 'only %d results' % made)
    # what is_prehashed() reports
    for name in ('SignatureBox', 'SignatureBones'):
        for pre in (0, 1):
            eng = ctx.engine()
            view = ctx.view(name)
            o = view.fresh(eng, 'obj')
            o = view.set(o, 'sig_alg', sq_bytes(TAG_P if pre else TAG_L))
            if view.has('is_prehashed'):
                o = view.set(o, 'is_prehashed', pre)
            r = ctx.run(name + '::is_prehashed', [cref(o)], eng=eng)
            for s, v in r.outs:
                ctx.ob(eng.truth(s, v) == pre, name + '::is_prehashed', 'reports whether the tag is the prehashed one')


def returns_object(ctx, ti, targets):
    t = ctx.prog.types[ti]
    if t['k'] == 'adt' and t['p'] == RES and t['a'] and t['a'][0] is not None:
        return returns_object(ctx, t['a'][0], targets)
    if t['k'] == 'adt' and t['local']:
        n = t['p'].rsplit('::', 1)[-1]
        if n in targets:
            return n, ti
    return None, None


def input_objects(ctx, ti, targets):
    t = ctx.prog.peel(ti)
    if t['k'] == 'adt' and t['local']:
        n = t['p'].rsplit('::', 1)[-1]
        if n in targets:
            return n
    return None


def is_mut_ref_to(ctx, ti, targets):
    t = ctx.prog.types[ti]
    return t['k'] == 'ref' and bool(t.get('m')) and input_objects(ctx, ti, targets) is not None


# ------------------------------------------------------------------ C04
def c04(ctx):
    """`verify` for the objects with a comment and a global signature: each Ok state has established the Ed25519 equation of the global signature
    over exactly the signed-and-comment bytes of the object; for the two kinds of object with only one of them no path returns Ok."""
    n = 0
    for case in all_cases(ctx):
        case.build()
        oks = verify_oks(ctx, case)
        n += len(case.run.outs)
        if case.comment != case.glob:
            ctx.ob(not oks, 'verify', 'an object with only one of comment and global signature never verifies', '[%s]' % case.label)
        elif case.comment:
            ctx.ob(bool(oks), 'verify', 'some execution of verify succeeds (the rule is not vacuous)')
            for st, _ in oks:
                why = case.global_equation(st)
                ctx.ob(why is None, 'verify', 'success only after the Ed25519 check of the global signature over the signed-and-comment bytes',
                       '[%s] %s' % (case.label, why))


# ------------------------------------------------------------------ C05
COMMENT_PREFIX = b'untrusted comment: '
TRUSTED_PREFIX = b'trusted comment: '


def line_seq(s, k):
    nm = mk('line', s, k)
    return sq_base(mk('base', nm, mk('len', nm, ty='usize')))


def c05(ctx):
    """Parsing is executed on a text of unknown content and length: in each Ok state the globally signed bytes are the 64 main-signature bytes
    followed by the rest of the trusted comment line after its prefix, the untrusted comment is the rest of its line, and the accessors run on
    that very object return those same byte ranges; on an arbitrary object they return the stored ranges."""
    eng = ctx.engine()
    view = ctx.view('SignatureBox')
    text = eng.sym_seq(mk('sym', 'text'), mk('len', mk('sym', 'text'), ty='usize'), None)
    r = ctx.run('SignatureBox::from_string', [cref(text)], eng=eng)
    oks = r.oks()
    nm = 'SignatureBox::from_string'
    ctx.ob(bool(oks), nm, 'some text is accepted (the rule is not vacuous)')
    l0, l2 = line_seq(text, 0), line_seq(text, 2)
    for st, v in oks:
        for ln, pre, what in ((l0, COMMENT_PREFIX, 'untrusted'), (l2, TRUSTED_PREFIX, 'trusted')):
            ctx.ob(holds(eng, st, mk('starts', ln, sq_bytes(pre), ty='bool')), nm, 'the %s comment line starts with its prefix' % what)
        uc = view.get(v, 'untrusted_comment')
        ctx.ob(uc is eng.subseq(st, l0, len(COMMENT_PREFIX), seqlen(l0)), nm, 'the untrusted comment is exactly the text after its prefix', show(uc)[:200])
        stc = view.get(v, 'sig_and_trusted_comment')
        want = concat(eng.subseq(st, view.get(v, 'sig'), 0, 64), eng.subseq(st, l2, len(TRUSTED_PREFIX), seqlen(l2)))
        good = is_agg(stc, OPT, 1) and stc.a[2] is want
        ctx.ob(good, nm, 'the globally signed bytes are the 64 signature bytes followed by the exact text after the trusted prefix', show(stc)[:300])
        # what the accessors report for this very object
        for acc, part in (('SignatureBox::trusted_comment', eng.subseq(st, l2, len(TRUSTED_PREFIX), seqlen(l2))),
                          ('SignatureBox::untrusted_comment', eng.subseq(st, l0, len(COMMENT_PREFIX), seqlen(l0)))):
            r2 = ctx.run(acc, [cref(v)], eng=eng, st=st.copy())
            got = r2.oks()
            ctx.ob(bool(got), acc, 'some execution succeeds (the rule is not vacuous)')
            for s2, c in got:
                ctx.ob(c is part, acc, 'reports exactly the text that was parsed', show(c)[:200])
    # the accessors on any object
    eng = ctx.engine()
    o = view.fresh(eng, 'obj')
    for acc, role in (('SignatureBox::trusted_comment', 'sig_and_trusted_comment'), ('SignatureBox::untrusted_comment', 'untrusted_comment')):
        stc = eng.sym_seq(mk('sym', 'signed_and_comment'), mk('len', mk('sym', 'signed_and_comment'), ty='usize'), None)
        x = view.set(o, 'sig_and_trusted_comment', some(stc))
        r = ctx.run(acc, [cref(x)], eng=eng)
        for st, v in r.oks():
            want = eng.subseq(st, stc, 64, seqlen(stc)) if role == 'sig_and_trusted_comment' else view.get(x, role)
            ctx.ob(v is want, acc, 'reports the stored comment unchanged', show(v)[:200])


# ------------------------------------------------------------------ C06
def c06(ctx):
    """At every write or flush to standard output or error reachable from `verify`, in every state that reaches it, the signature equation(s),
    the key id equality, the legacy permission and the output or quiet flag must already be known.  In each Ok state with output requested, the
    accumulated output is exactly the byte range of the source that was verified; without it, nothing."""
    n = [0, 0]
    std = (mk('stdout'), mk('stderr'))
    for case in all_cases(ctx):
        def hook(kind, st, data, site, case=case):
            if kind == 'stdin':
                ctx.fail(site_fn(site), 'verification reads standard input')
            if kind not in ('write', 'flush') or data[0] not in std:
                return
            n[0] += 1
            where = 'verify' if not site else '%s (called from verify)' % site[1] if site[1] != 'verify' else 'verify'
            eng = case.eng
            m, why = case.main_equation(st)
            lab = '[%s] %s to %s at %s: ' % (case.label, kind, data[0].op, site[0] if site else '?')
            ctx.ob(m is not None, where, 'standard streams are written only after the main signature was checked', lab + str(why))
            i = case.keynum_ok(st)
            ctx.ob(i is None, where, 'standard streams are written only after the key id was checked', lab + 'byte %s' % i)
            if case.comment and case.glob:
                why = case.global_equation(st)
                ctx.ob(why is None, where, 'standard streams are written only after the global signature was checked', lab + str(why))
            else:
                ctx.ob(not case.comment and not case.glob, where, 'nothing is written for an inconsistent signature object', lab)
            if not case.prehashed:
                ctx.ob(eng.truth(st, case.legacy_ok) == 1, where, 'nothing is written for a legacy signature that is not allowed', lab)
            if m is not None:
                why, _ = case.whole(st, m)
                ctx.ob(why is None, where, 'standard streams are written only after all data was checked', lab + str(why))
            if data[0].op == 'stdout':
                ctx.ob(eng.truth(st, case.output) == 1, where, 'data is written to standard output only when output was requested', lab)
            else:
                ctx.ob(eng.truth(st, case.quiet) == 0, where, 'messages are written to standard error only when not quiet', lab)
        case.build(hook)
        for st, _ in case.run.oks():
            eng = case.eng
            o = st.gh.get(('out', mk('stdout')), EMPTY)
            t = eng.truth(st, case.output)
            if t is None:
                # both settings reach here: only right when nothing at all is output
                ctx.ob(False, 'verify', 'the output setting decides what is output', '[%s] a successful run ignores it' % case.label)
            elif t == 0:
                ctx.ob(o is EMPTY, 'verify', 'no data is output when it was not requested', '[%s] %s' % (case.label, show(o)[:160]))
            else:
                n[1] += 1
                why, _ = whole_stream(eng, st, o, case.rid)
                ctx.ob(why is None, 'verify', 'what is output is the byte range of the source that was verified', '[%s] %s' % (case.label, why))
                ctx.ob(st.gh.get(('werr', mk('stdout')), 0) == 0, 'verify', 'success only if the output was written', case.label)
    ctx.ob(n[0] > 0 and n[1] > 0, 'verify', 'output events were found (the rule is not vacuous)', str(n))


def site_fn(site):
    return canon(site[1]) if site else '?'


# ------------------------------------------------------------------ C07
def c07(ctx):
    """`verify` and `sign`, all paths, with a data source whose reads return any length (short reads, interrupted reads) or fail: in each Ok state no
    read has failed (an interrupted one that was repeated has not) and the bytes absorbed, accumulated over the read loop by an inductive invariant, are the source's bytes from its first position
    to the end of input, each once and in order."""
    n = 0
    for case in all_cases(ctx):
        case.build()
        for st, _ in case.run.oks():
            n += 1
            ctx.ob(st.gh.get(('rerr', case.rid), 0) == 0, 'verify', 'a read error makes verification fail', case.label)
            ctx.ob(st.gh.get(('pend', case.rid), 0) == 0, 'verify', 'an interrupted read is repeated', case.label)
            m, why = case.main_equation(st)
            if m is None:
                continue          # C01 reports this
            why, _ = case.whole(st, m)
            ctx.ob(why is None, 'verify', 'every byte of the source is absorbed once, in order, to the end of input', '[%s] %s' % (case.label, why))
    ctx.ob(n > 0, 'verify', 'some execution of verify succeeds (the rule is not vacuous)')
    from .rules_sign import sign_runs, main_sig, prehashed_data
    n = 0
    for sr in sign_runs(ctx):
        for st, v in sr.run.oks():
            n += 1
            ctx.ob(st.gh.get(('rerr', sr.rid), 0) == 0, 'sign', 'a read error makes signing fail', sr.label)
            ctx.ob(st.gh.get(('pend', sr.rid), 0) == 0, 'sign', 'an interrupted read is repeated', sr.label)
            sg = main_sig(ctx, sr, st, v)
            m = prehashed_data(sg.msg) if sg.why is None else None
            if m is None:
                ctx.fail('sign', 'the message signed is recognisable', sg.why or show(sg.msg)[:160])
                continue
            why, _ = whole_stream(sr.eng, st, m, sr.rid)
            ctx.ob(why is None, 'sign', 'every byte of the source is absorbed once, in order, to the end of input', '[%s] %s' % (sr.label, why))
    ctx.ob(n > 0, 'sign', 'some execution of sign succeeds (the rule is not vacuous)')


# ------------------------------------------------------------------ C21
L_BYTES = (2 ** 252 + 27742317777372353535851937790883648493).to_bytes(32, 'little')


def scalar_classes():
    """a partition of all 32-byte scalars that are not below L: equal to L, or equal above byte k and larger at byte k"""
    yield None
    for k in range(31, -1, -1):
        if L_BYTES[k] < 255:
            yield k


def large_scalar(eng, st, nm, k):
    """a signature whose second half is an arbitrary member of the class"""
    b = mk('base', mk('sym', nm), 64)
    if k is None:
        return concat(mkseq([('o', b, 0, 32)]), sq_bytes(L_BYTES))
    x = at(b, 32 + k)
    eng.by_cases([x])
    st.rng[x] = (L_BYTES[k] + 1, 255)
    return concat(mkseq([('o', b, 0, 32)]), mkseq([('e', tuple(at(b, 32 + i) for i in range(k)) + (x,) + tuple(L_BYTES[k + 1:]))]))


def c21(ctx):
    """All paths of `verify` for every kind of signature object: a successful state has established, for each signature checked, that the
    public key decodes to a point, that it is not the neutral element, and that all 32 bytes of R equal the recomputed point computed from
    SHA-512(R, A, M), -A and both halves. With the 33 classes that partition the scalars not below the group order (equal to L; equal above byte k
    and larger in byte k, the lower bytes arbitrary) for either signature, and with an all-zero key, no successful state exists.
    The neutral-element test itself, evaluated on its own body, answers yes for each of the four encodings of the neutral element."""
    n = 0
    for case in all_cases(ctx):
        case.build()
        for st, _ in verify_oks(ctx, case):
            n += 1
            eng = case.eng
            A = eng.subseq(st, case.key, 0, 32)
            lab = '[%s] ' % case.label
            ctx.ob(eng.truth(st, mk('isPt', A, ty='bool')) == 1, 'verify', 'success only if the public key decodes to a curve point', lab)
            ctx.ob(eng.truth(st, mk('isid', A, ty='bool')) == 0, 'verify', 'success only if the public key is not the neutral element', lab)
            for what, sig in [('main', case.sig)] + ([('global', case.gs)] if case.glob else []):
                m, why = equation(eng, st, case.key, sig)
                ctx.ob(m is not None, 'verify', 'success only if all 32 bytes of R equal the point recomputed from hash, key and both halves (%s signature)' % what, lab + str(why))
    ctx.ob(n > 0, 'verify', 'some execution of verify succeeds (the rule is not vacuous)')
    for pre in (1, 0):
        for c in (1, 0):
            lab = 'prehashed' if pre else 'legacy'
            z = Case(ctx, pre, c, c, prepare=lambda cs, sb, pk: {'pk': sq_bytes(bytes(32))}).build()
            ctx.ob(not z.run.oks(), 'verify', 'an all-zero public key never verifies', lab)
            for which in ('sig', 'gs')[:1 + c]:
                bad = []
                for k in scalar_classes():
                    q = Case(ctx, pre, c, c, prepare=lambda cs, sb, pk: {which: large_scalar(cs.eng, cs.st, 'large', k)}).build()
                    if q.run.oks():
                        bad.append('equal to the group order' if k is None else 'first different from the group order, and larger, in byte %d' % k)
                ctx.ob(not bad, 'verify', 'a %s signature whose scalar is not below the group order never verifies' % ('main' if which == 'sig' else 'global'),
                       '[%s] accepted: scalars %s' % (lab, '; '.join(bad)[:400]))
    # the neutral element test, on its own body
    from .models import LOCAL_PRIMS
    fs = [f for f in ctx.prog.fns if f['body'] and canon(f['p']) == 'is_identity']
    if not fs:
        raise Gap('the neutral element test is missing')
    prims = {k: v for k, v in LOCAL_PRIMS.items() if not k.endswith('is_identity')}
    P = 2 ** 255 - 19
    encodings = [(y | sign << 255).to_bytes(32, 'little') for y in (1, P + 1) for sign in (0, 1)]
    for e in encodings:
        r = ctx.run(fs[0], [cref(sq_bytes(e))], eng=Engine(ctx.prog, primitives=prims))
        ctx.ob(bool(r.outs) and all(r.eng.truth(st, v) == 1 for st, v in r.outs), canon(fs[0]['p']), 'every encoding of the neutral element is recognised', 'key %s' % e.hex())
    eng = Engine(ctx.prog, primitives=prims)
    r = ctx.run(fs[0], [cref(eng.sym_seq(mk('sym', 'key'), 32, None))], eng=eng)
    ctx.ob(any(eng.truth(st, v) != 1 for st, v in r.outs), canon(fs[0]['p']), 'the neutral element test can answer no')
