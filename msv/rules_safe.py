"""Rules about panics and raw memory: C13, C24."""
from .base import *
from .base import Gap, canon, cref
from .engine import OPT, RES, NONE, some, is_agg
from .prog import Program
from .rules_misc import is_result
from .callgraph import CallGraph, callee_infos
from .engine import Engine


# ------------------------------------------------------------------ C13
def panics(ctx, f, args=None, st=None, prepare=None):
    """{(what, certain, function): detail} of the panics some path of f may reach"""
    seen = {}
    eng = ctx.engine()

    def hook(kind, st, data, site):
        if kind == 'panic':
            seen.setdefault((data[0], bool(data[1]), canon(site[1])), (site[0], show(data[2])[:160] if len(data) > 2 and data[2] is not None else ''))
    r = ctx.run(f, args(eng) if args else [None] * len(f['in']), eng=eng, hook=hook)
    return seen, r


def sound_box(ctx, eng, nm):
    """a signature object as the constructors leave it: a global signature of 64 bytes, or none; a signed comment of at least 64"""
    v = ctx.view('SignatureBox')
    ti = v.ti
    x = eng.make_value(ti, mk('sym', nm))
    return x


def fallible_roots(ctx):
    """public functions of the library that can report an error and do not sign or generate keys"""
    out = []
    for f in ctx.public():
        nm = canon(f['p'])
        if not is_result(ctx, f['out']) or nm == 'sign':
            continue
        if f['traitimpl'] and f['traitimpl'].startswith('std::fmt'):
            continue
        t = ctx.prog.types[f['out']]
        ok_t = ctx.prog.types[t['v'][0]['f'][0][1]]
        if ok_t['k'] == 'adt' and ok_t['p'].rsplit('::', 1)[-1] == 'KeyPair':
            continue
        out.append(f)
    return out


def box_roots(ctx):
    out = []
    for f in ctx.public():
        t = ctx.prog.types[f['out']]
        if t['k'] == 'adt' and t['p'] == RES:
            t = ctx.prog.types[t['v'][0]['f'][0][1]]
        if t['k'] == 'adt' and t['local'] and t['p'].rsplit('::', 1)[-1] == 'SignatureBox':
            out.append(f)
    return out


def opt_lengths(eng, st, v):
    """(present?, length) cases of an Option<Vec<u8>> value; None if it cannot be split"""
    if is_agg(v, OPT, 0):
        return [(False, None)]
    if is_agg(v, OPT, 1):
        s = v.a[2]
        return [(True, seqlen(s))] if isT(s, 'seq') else None
    return None


def c13_on(ctx, label):
    sv = ctx.view('SignatureBox')
    n = 0
    need_inv = False
    for f in fallible_roots(ctx):
        nm = canon(f['p'])
        n += 1
        seen, r = panics(ctx, f)
        ctx.ob(bool(r.outs), nm, label + 'the function returns on some path')
        if seen and takes_box(ctx, f):
            # not for every object, then for every object the library hands out
            need_inv = True
            seen = {}
            for gl in (0, 1):
                for tc in (0, 1):
                    def args(eng, gl=gl, tc=tc):
                        out = []
                        body = ctx.prog.bodies[f['key']]
                        for i, t in enumerate(f['in']):
                            ty = ctx.prog.types[t]
                            e = ctx.prog.types[ty['e']] if ty['k'] == 'ref' else ty
                            if e['k'] == 'adt' and e['p'].rsplit('::', 1)[-1] == 'SignatureBox':
                                x = sv.fresh(eng, 'box%d' % i)
                                x = sv.set(x, 'global_sig', some(eng.sym_seq(mk('sym', 'global%d' % i), 64, None)) if gl else NONE)
                                if not tc:
                                    x = sv.set(x, 'sig_and_trusted_comment', NONE)
                                else:
                                    m = mk('len', mk('sym', 'comment%d' % i), ty='usize')
                                    x = sv.set(x, 'sig_and_trusted_comment', some(
                                        concat(eng.sym_seq(mk('sym', 'signed%d' % i), 64, None), eng.sym_seq(mk('sym', 'comment%d' % i), m, None))))
                                out.append(cref(x) if ty['k'] == 'ref' else x)
                            else:
                                out.append(None)
                        return out
                    s2, r = panics(ctx, f, args)
                    seen.update(s2)
        for (what, certain, where), (loc, cond) in sorted(seen.items()):
            ctx.ob(False, '%s -> %s' % (nm, where), label + 'no input makes the function panic', '%s at %s unless %s' % (what, loc, cond))
        if not seen:
            ctx.ob(True, nm, label + 'no input makes the function panic')
    ctx.ob(n >= 15, '(all)', 'fallible public functions were analysed', str(n))
    if need_inv:
        m = 0
        for f in box_roots(ctx):
            nm = canon(f['p'])
            r = ctx.run(f, [None] * len(f['in']))
            if canon(f['p']).endswith('Clone>::clone') or takes_box(ctx, f):
                continue
            outs = r.outs
            for st, v in outs:
                if is_agg(v, RES, 1):
                    continue
                if is_agg(v, RES, 0):
                    v = v.a[2]
                m += 1
                g = opt_lengths(r.eng, st, sv.get(v, 'global_sig'))
                t = opt_lengths(r.eng, st, sv.get(v, 'sig_and_trusted_comment'))
                ctx.ob(g is not None and all(not p or eqk(r.eng, st, l, 64) for p, l in g), nm,
                       label + 'a signature object holds a global signature of exactly 64 bytes, or none', str(g)[:100])
                ctx.ob(t is not None and all(not p or r.eng.nonneg(st, lsub(l, 64)) for p, l in t), nm,
                       label + 'a signature object holds a signed comment of at least 64 bytes, or none', str(t)[:100])
        ctx.ob(m >= 3, '(all)', 'constructors of signature objects were analysed', str(m))


def takes_box(ctx, f):
    for t in f['in']:
        ty = ctx.prog.types[t]
        e = ctx.prog.types[ty['e']] if ty['k'] == 'ref' else ty
        if e['k'] == 'adt' and e['p'].rsplit('::', 1)[-1] == 'SignatureBox':
            return True
    return False


def c13(ctx):
    """Abstractly executes every public fallible function except signing and key generation, with unrestricted arguments, on two builds
    (release: wrapping arithmetic; debug: overflow checks and debug assertions), and requires that no path reaches a panic: failed slice
    or string indexing, unwrap/expect, arithmetic overflow, division, assertion, length mismatch or explicit panic.  Where verification needs it,
    the length invariant of signature objects is proved at every function that builds one."""
    c13_on(ctx, '')
    path = ctx.dumper(True) if getattr(ctx, 'dumper', None) else None
    if path is not None:
        dbg = path if isinstance(path, Program) else Program(path)
        rel = ctx.prog
        views, roots = ctx.views, ctx.roots
        try:
            ctx.prog, ctx.views = dbg, {}
            ctx.roots = {}
            for f in dbg.fns:
                if f['body']:
                    ctx.roots.setdefault(canon(f['p']), []).append(f)
            c13_on(ctx, '[debug build] ')
        finally:
            ctx.prog, ctx.views, ctx.roots = rel, views, roots


# ------------------------------------------------------------------ C24
MODELLED = ('get_unchecked', 'get_unchecked_mut', 'offset', 'add', 'sub', 'copy_nonoverlapping', 'copy', 'copy_from_nonoverlapping',
            'copy_to_nonoverlapping', 'assume_init', 'from_raw_parts', 'from_raw_parts_mut', 'read', 'read_unaligned', 'write',
            'write_unaligned', 'from_utf8_unchecked')


def raw_sites(prog, body):
    """[(what, line, modelled?)] of the operations of a body that the compiler does not bound"""
    out = []

    def places(x):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
                if x[1] and isinstance(x[1][0], list) and x[1][0] and x[1][0][0] == 'd' and x[0] < len(body.locals):
                    ti = body.locals[x[0]]
                    ti = ti if isinstance(ti, int) else ti[0]
                    if prog.types[ti]['k'] == 'ptr':
                        out.append(('access through a raw pointer', None, True))
            for y in x:
                places(y)
    for bl in body.blocks:
        if bl is None:
            continue
        for s in bl['s']:
            if s[0] == '=':
                if s[2][0] == 'raw':
                    continue            # taking an address is not an access
                places(s[1:3])
                if s[2][0] == 'cast' and s[2][1] == 'Transmute':
                    out.append(('transmute', None, False))
            elif s[0] == 'memcpy':
                out.append(('raw copy', None, True))
        t = bl['t']
        if t[0] == 'call':
            infos = []
            callee_infos(t[1], infos)
            for ci in infos[:1]:
                if ci.get('unsafe') and not ci.get('local') and not ci['p'].startswith('std::fmt::'):
                    out.append((ci['p'], None, ci['p'].rsplit('::', 1)[-1] in MODELLED))
            places(t[2])
        elif t[0] not in ('goto', 'sw', 'ret', 'unr', 'drop', 'assert'):
            out.append((t[0], None, False))
    return out


def unsafe_bodies(ctx):
    """{key of the enclosing function: [sites]} of the crate's bodies with unbounded operations"""
    out = {}
    for b in ctx.prog.bodies.values():
        if b.crate != ctx.prog.crate:
            continue
        s = raw_sites(ctx.prog, b)
        if not s:
            continue
        top = b
        while top.parent:
            nxt = [x for x in ctx.prog.bodies.values() if x.key == top.parent or x.path == top.parent]
            if not nxt:
                break
            top = nxt[0]
        out.setdefault(top.key, []).extend((what, b.path, ok) for what, _, ok in s)
    return out


def raw_obligations(ctx, f, where, inline=None):
    """{(what, function): [(proved?, condition)]} met when f is executed with arguments of any value, at sites of the functions in where;
    with inline, other calls of the crate are taken to do anything to what they can reach"""
    seen = {}
    eng = Engine(ctx.prog, primitives={}, opts={'rawmem': 1, 'inline': inline, 'max_steps': 400000})

    def hook(kind, st, data, site):
        if kind == 'unchecked' and site[1] in where:
            seen.setdefault((data[0].rsplit('::', 1)[-1], site[1]), set()).add((data[1] == 1, '%s needs %s' % (site[0], show(data[2])[:200] if data[2] is not None else 'nothing known')))
    ctx.run(f, [None] * len(f['in']), eng=eng, hook=hook)
    return seen


def c24(ctx):
    """Every body of the crate is scanned for operations the compiler does not bound (calls of unsafe functions, accesses through raw
    pointers, transmutes).  Each function with one is executed abstractly for arguments of any value and length, in the release
    configuration: every unchecked index, pointer step, pointer access and raw copy is an obligation that its extent lies inside the slice
    (or variable) the pointer was taken from.  A function declared unsafe may rely on its callers and is then judged inside each of them; a safe one has to
    check for itself.  An
    unchecked operation the analysis has no rule for is reported."""
    prog = ctx.prog
    todo = unsafe_bodies(ctx)
    scanned = sum(1 for b in prog.bodies.values() if b.crate == prog.crate)
    ctx.ob(scanned >= 40, '(all)', 'the bodies of the crate were scanned for unchecked operations', str(scanned))
    fns = {f['key']: f for f in prog.fns if f['body']}
    cg = CallGraph(prog)
    callers = {}
    for k in prog.bodies:
        if prog.bodies[k].crate == prog.crate:
            for n in cg.out(k)[0]:
                callers.setdefault(n, set()).add(k)
    for key in sorted(todo):
        name = canon(prog.bodies[key].path)
        for what, path, ok in todo[key]:
            ctx.ob(ok, name, 'every unchecked operation is one whose extent the analysis can state', what)
        where = {p for _, p, _ in todo[key]}
        pending, tried = [key], set()
        inline, work = {key}, [key]         # what can reach the function
        while work:
            for x in callers.get(work.pop(), ()):
                if x not in inline:
                    inline.add(x)
                    work.append(x)
        alone = None
        for depth in range(3):
            nxt = []
            for k in pending:
                if k in tried:
                    continue
                tried.add(k)
                if k not in fns:
                    up = set(callers.get(k, ())) | ({prog.bodies[k].parent} if prog.bodies[k].parent else set())
                    nxt.extend(x for x in up if x)
                    continue
                try:
                    seen = raw_obligations(ctx, fns[k], where, None if k == key else inline)
                    bad = any(not t for v in seen.values() for t, _ in v)
                    gap = None
                except Gap as g:
                    seen, bad, gap = {}, True, g
                if k == key:
                    alone = seen
                up = sorted(callers.get(k, ()))
                if bad and fns[k]['unsafe'] and depth < 2:
                    nxt.extend(up)
                    continue
                if gap is not None:
                    if not alone:
                        raise gap
                    # the callers could not be judged; the function itself is what fails
                    k, seen = key, alone
                ctx.ob(True, name, 'the unchecked operations are analysed as executed by %s' % canon(prog.bodies[k].path))
                for (what, fn), v in sorted(seen.items()):
                    for t, cond in sorted(v):
                        ctx.ob(t, canon(fn), '%s stays inside its slice' % what,
                               '' if t else '%s (reached from %s)' % (cond, canon(prog.bodies[k].path)))
            pending = nxt
            if not pending:
                break
    ctx.notes.append('%d functions contain unchecked operations: %s' % (len(todo), ', '.join(sorted(canon(prog.bodies[k].path) for k in todo))))
