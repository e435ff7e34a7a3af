"""Rules about writers and failures, encodings, integers, equality, effects, sharing."""
from .base import *
from .callgraph import CallGraph
from .rules_keys import (roots_returning, out_adt, opt_string_args, generation_roots, opening_roots, sym_text, key_runs, GEN,
                         decrypt_view, exposed, dexor, is_protected)


def is_result(ctx, ti):
    t = ctx.prog.types[ti]
    return t['k'] == 'adt' and t['p'] in (RES,)


# ------------------------------------------------------------------ C20
def writer_args(ctx, f):
    """arguments of a type parameter bounded by nothing but Write: the caller's writers (by value or by reference)"""
    r = []
    for i, t in enumerate(f['in']):
        ty = ctx.prog.types[ctx_peel(ctx, t)]
        if ty['k'] == 'param':
            r.append(i)
    return r


def ctx_peel(ctx, t):
    while ctx.prog.types[t]['k'] in ('ref', 'ptr'):
        t = ctx.prog.types[t]['e']
    return t


def same_text(a, b):
    return a is b


def c20(ctx):
    """(1) Every public function that returns a key pair and takes writers, all paths: in every Ok state the bytes handed to each writer
    are exactly the public resp. secret serialization of the returned pair, flushed after the last write, with no failed write.
    (2) Every public fallible function, all paths: no Ok state follows a failure of any fallible operation or local Err.
    (3) Every local body: no call result of type Result is left unread."""
    kp = ctx.view('KeyPair')
    n = 0
    for f in generation_roots(ctx):
        ws = writer_args(ctx, f)
        nm = canon(f['p'])
        if nm in GEN[2:]:
            ctx.ob(len(ws) == 2, nm, 'there is one writer for each half of the key pair', str(len(ws)))
        if not ws:
            continue
        for k in key_runs(ctx, f):
            eng = k.eng
            oks = k.run.oks()
            ctx.ob(bool(oks), nm, 'some execution succeeds (the rule is not vacuous)', k.label)
            for st, v in oks:
                n += 1
                want = expected_output(ctx, k, st, v, is_protected(f))
                outs = {key[1]: t for key, t in st.gh.items() if key[0] == 'out' and not isT(key[1], 'stdout') and not isT(key[1], 'stderr')}
                got = {w: t for w, t in outs.items()}
                ctx.ob(len(got) == 2, nm, 'both writers are written to', k.label + str(len(got)))
                for half in ('pk', 'sk'):
                    w = writer_of(got, want[half])
                    if not ctx.ob(w is not None, nm, 'one writer receives exactly the complete %s form' % ('public key' if half == 'pk' else 'secret key'),
                                  k.label + 'written: %s' % [show(t)[:120] for t in got.values()]):
                        continue
                    exp = ws[0] if half == 'pk' else ws[1]
                    ctx.ob(mentions(w, lambda t: t.op == 'sym' and t.a[0] == 'arg%d' % exp), nm, 'the %s goes to its own writer' % half, k.label + show(w)[:80])
                    ctx.ob(st.gh.get(('flushed', w), 0) == 1, nm, 'each writer is flushed after its last write', k.label + half)
                    ctx.ob(not st.gh.get(('werr', w), 0), nm, 'no failed write is followed by success', k.label + half)
    ctx.ob(n >= 3, '(all)', 'successful writes were analysed', str(n))
    m = 0
    for f in ctx.public():
        nm = canon(f['p'])
        res = is_result(ctx, f['out'])
        if f['name'] == 'exit':
            continue
        r = ctx.run(f, [None] * len(f['in']), opts={'failsites': True})
        for st, v in r.outs:
            if is_agg(v, RES, 1):
                continue
            m += 1
            fl = st.gh.get(('fail',), 0)
            ctx.ob(not any(x for q, x in st.gh.items() if q[0] == 'pend'), nm, 'an interrupted read is repeated', '')
            ctx.ob(not fl, nm, 'success only if no operation failed', 'failure at %s is discarded' % (show(fl) if isinstance(fl, T) else fl))
        if res and not r.outs:
            ctx.fail(nm, 'the function returns')
    ctx.ob(m >= 60, '(all)', 'successful executions of the public functions were analysed', str(m))
    k = 0
    for b in ctx.prog.local_bodies():
        k += unread_results(ctx, b)
    ctx.ob(k >= 40, '(all)', 'calls returning a Result were checked for being read', str(k))


def unread_results(ctx, b):
    """calls whose Result is never read"""
    used = set()

    def use(o):
        if isinstance(o, list) and o:
            if o[0] in ('c', 'm') and isinstance(o[1], list):
                used.add(o[1][0])
            for x in o:
                if isinstance(x, list):
                    use(x)
    n = 0
    dests = []
    for i, bl in enumerate(b.blocks):
        if bl is None:
            continue
        for s in bl['s']:
            if s[0] == '=':
                use_rvalue(s[2], used)
                if s[1][1]:
                    pass
            else:
                use(s)
        t = bl['t']
        if t[0] == 'call':
            use(t[1])
            for o in t[2]:
                use(o)
            d = t[3]
            if not d[1]:
                ti = b.locals[d[0]]
                ti = ti if isinstance(ti, int) else ti[0]
                if is_result(ctx, ti) and d[0] != 0:
                    dests.append((d[0], t[1], t[5] if len(t) > 5 else None))
        elif t[0] in ('sw', 'assert'):
            use(t[1])
    for l, f, span in dests:
        n += 1
        ctx.ob(l in used, canon(b.path), 'every result of a fallible call is looked at', 'result of %s at %s is dropped' % (callee_name(f), b.loc(span)))
    return n


def callee_name(f):
    try:
        return f[2][1].get('r') or f[2][1]['p']
    except Exception:
        return '?'


def use_rvalue(r, used):
    """locals read by an rvalue (operands, places of references, discriminants)"""
    if isinstance(r, list):
        if len(r) == 2 and isinstance(r[0], int) and isinstance(r[1], list):
            used.add(r[0])
        for x in r:
            use_rvalue(x, used)
    elif isinstance(r, dict):
        for x in r.values():
            use_rvalue(x, used)


def writer_of(got, text):
    for w, t in got.items():
        if t is text:
            return w
    return None


def expected_output(ctx, k, st, v, boxed):
    """the serializations of the returned pair the writers must receive"""
    kp = ctx.view('KeyPair')
    out = {}
    for half, ty in (('pk', 'PublicKey'), ('sk', 'SecretKey')):
        obj = kp.get(v, half)
        if boxed:
            f = ctx.fn(ty + '::to_box')
            args = [cref(obj)]
            if len(f['in']) > 1:
                c = [i for i, x in opt_string_args(ctx, k.f).items() if x == 'comment']
                args.append(comment_on(st, k, c[0]) if c else NONE)
            r = ctx.run(ty + '::to_box', args, eng=k.eng, st=st.copy())
            oks = r.oks()
            if len(oks) < 1:
                raise Gap('%s::to_box of a generated key does not succeed' % ty)
            texts = {unbox(x) for _, x in oks}
            if len(texts) != 1:
                raise Gap('%s::to_box of a generated key has several results' % ty)
            out[half] = texts.pop()
        else:
            r = ctx.run(ty + '::to_bytes', [cref(obj)], eng=k.eng, st=st.copy())
            if len({v for _, v in r.outs}) != 1:
                raise Gap('%s::to_bytes has several results' % ty)
            out[half] = r.outs[0][1]
    return out


def comment_on(st, k, i):
    return k.run.args[i]


def unbox(v):
    """the text inside a box newtype"""
    while is_agg(v) and len(v.a) == 3:
        v = v.a[2]
    return v


# ------------------------------------------------------------------ C36
OUTSIDE = {'read': 'reading the data', 'seek': 'seeking in the data', 'fs': 'reading a file', 'rng': 'the random source', 'prompt': 'the password prompt',
           'write': 'writing', 'flush': 'flushing'}


def kind_of(ctx, v):
    """name of the kind an error value carries, or None"""
    for x in v.a[2:] if is_agg(v) else ():
        if is_agg(x) and x.a[0].rsplit('::', 1)[-1] == 'ErrorKind':
            for t in ctx.prog.types:
                if t.get('p') == x.a[0]:
                    return t['v'][x.a[1]]['n']
    return None


def c36(ctx):
    """(1) Every public function returning this crate's error, all paths, with the data source, files, random source, prompt and writers failing at
    any step: an error returned after such a failure contains the failure's own error value (or its text) and is not of kind Verify. (2) `verify`
    for every kind of signature object: an error returned although nothing outside failed and the object may be well formed is of kind Verify. (3) The text of an error of any kind is the text of its cause; the descriptions of the kinds are pairwise
    different. (4) Every path of `exit` ends the process with a constant failure status, after writing the text of the error to standard error."""
    n = 0
    for f in ctx.public():
        if not is_result(ctx, f['out']):
            continue
        nm = canon(f['p'])
        et = ctx.prog.types[f['out']]['a'][1]
        if et is None or not ctx.prog.types[et].get('p', '').endswith('::PError'):
            continue
        r = ctx.run(f, [None] * len(f['in']), opts={'causes': True})
        for st, v in r.errs():
            for tag in sorted(k[1] for k, x in st.gh.items() if k[0] == 'cause' and x != 0 and k[1] in OUTSIDE):
                n += 1
                ctx.ob(mentions(v, lambda t: t.op == 'err' and t.a[0] == tag), nm, 'the error returned carries the failure of %s' % OUTSIDE[tag], show(v)[:200])
                k = kind_of(ctx, v)
                ctx.ob(k is not None and k != 'Verify', nm, 'a failure of %s is not reported as a failed verification' % OUTSIDE[tag], str(k))
    ctx.ob(n >= 20, '(failures)', 'errors caused from outside were analysed', str(n))
    # ---- rejections
    from .rules_verify import all_cases
    m = 0
    for case in all_cases(ctx):
        case.build()
        for st, v in case.run.errs():
            if mentions(v, lambda t: t.op == 'err'):
                continue
            m += 1
            k = kind_of(ctx, v)
            s2 = st.copy()
            if case.eng.add_lin(s2, lsub(seqlen(case.stc), 64)):
                ctx.ob(k == 'Verify', 'verify', 'rejecting a signature is a verification error', '[%s] %s' % (case.label, k))
            else:       # no signature at all: the signed bytes are shorter than a signature
                ctx.ob(k in ('Verify', 'Encoding', 'Misc'), 'verify', 'a rejected signature is not reported as a failure of something else', '[%s] %s' % (case.label, k))
    ctx.ob(m >= 8, 'verify', 'rejections were analysed', str(m))
    # ---- texts
    q = 0
    r = ctx.run('<PError as Display>::fmt', [None, None])
    for st, v in r.outs:
        if is_agg(v, RES, 1):
            continue
        q += 1
        outs = [t for k, t in st.gh.items() if k[0] == 'out']
        ctx.ob(len(outs) == 1 and whole_display(outs[0], lambda x: mentions(x, lambda t: t.op == 'fld' and isT(t.a[0], 'deref') and is_cause_field(ctx, t))),
               'PError::fmt', 'the text of an error is the text of its cause', show(outs[0])[:200] if outs else 'nothing written')
    ctx.ob(q >= 1, 'PError::fmt', 'writing an error can succeed (the rule is not vacuous)')
    r = ctx.run('<PError as Error>::description', [None])
    ts = [show(r.eng.load(st, v)) if isT(v, 'ref') else show(v) for st, v in r.outs]
    kinds = [t for t in ctx.prog.types if t.get('p', '').endswith('errors::ErrorKind') and t.get('local')]
    ctx.ob(len(kinds) == 1 and len(set(ts)) == len(kinds[0]['v']), 'PError::description', 'every kind of error has its own description', str(sorted(set(ts)))[:300])
    # ---- exit
    ends = []

    def hook(kind, st, data, site):
        if kind == 'exit':
            ends.append((st.copy(), data))
    r = ctx.run('PError::exit', [None], hook=hook)
    ctx.ob(bool(ends) and not r.outs, 'PError::exit', 'the process is ended', '%d' % len(ends))
    for st, data in ends:
        code = data[0] if data else None
        ctx.ob(isinstance(code, int) and code & 255 != 0, 'PError::exit', 'the status is a failure', show(code) if isinstance(code, T) else str(code))
        outs = [t for k, t in st.gh.items() if k[0] == 'out' and isT(k[1], 'stderr')]
        ctx.ob(len(outs) == 1 and any(g[0] == 'o' and whole_display(mkseq([g]), lambda x: is_agg(x) and x.a[0].endswith('PError') or is_error_field(x)) for g in outs[0].a),
               'PError::exit', 'the text of the error is written to standard error first', show(outs[0])[:200] if outs else 'nothing written')


def is_error_field(x):
    return isT(x, 'symadt') and isT(x.a[0], 'fld')


def is_cause_field(ctx, t):
    """the field of an error that holds its cause: the one that is not the kind"""
    for ty in ctx.prog.types:
        if ty.get('p', '').endswith('errors::PError') and ty.get('local'):
            f = ty['v'][0]['f'][t.a[2]]
            return 'Error' in ctx.prog.types[f[1]]['d'] and 'ErrorKind' not in ctx.prog.types[f[1]]['d']
    return False


def whole_display(t, pred):
    """exactly the plain text form of a value the predicate accepts"""
    if not (isT(t, 'seq') and len(t.a) == 1 and t.a[0][0] == 'o' and t.a[0][2] == 0 and isT(t.a[0][1], 'base') and isT(t.a[0][1].a[0], 'fmt')):
        return False
    f = t.a[0][1].a[0]
    return t.a[0][3] is mk('len', f, ty='usize') and f.a[0] == 'd' and f.a[1] is None and pred(f.a[2])
