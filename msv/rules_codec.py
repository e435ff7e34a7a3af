"""Rules about encodings: binary forms, text boxes, integers, equality."""
from .base import *
from .rules_keys import roots_returning, out_adt, sym_text, TAG_SIG

CODECS = (('PublicKey', ('sig_alg', 'keynum', 'pk')),
          ('SecretKey', ('sig_alg', 'kdf_alg', 'chk_alg', 'kdf_salt', 'kdf_opslimit_le', 'kdf_memlimit_le', 'keynum', 'sk', 'chk')),
          ('SignatureBones', ('sig_alg', 'keynum', 'sig')))


def alg_classes(name):
    """the tags under which an object of that type exists"""
    return {'PublicKey': [((69, 100), None)], 'SignatureBones': [((69, 100), 0), ((69, 68), 1)]}.get(name, [(None, None)])


def fresh_object(view, eng, tag, pre, nm='obj'):
    v = view.fresh(eng, nm)
    if tag is not None:
        v = view.set(v, 'sig_alg', sq_elems(tag))
    if pre is not None and view.has('is_prehashed'):
        v = view.set(v, 'is_prehashed', pre)
    return v


def field_of_byte(view, v, roles, eng, st):
    m = {}
    for r in roles:
        s = view.get(v, r)
        for i in range(seqlen(s)):
            m.setdefault(byte(eng, st, s, i), []).append((r, i))
    return m


def encoding_layout(ctx, name, roles):
    """the binary layout an encoder produces: list of (role, index) per output byte; obligations on the way"""
    view = ctx.view(name)
    nm = name + '::to_bytes'
    eng = ctx.engine()
    v = view.fresh(eng, 'obj')
    r = ctx.run(nm, [cref(v)], eng=eng)
    want = sum(n for x, n in ROLES[name] if x in roles)
    lay = None
    ctx.ob(bool(r.outs), nm, 'the encoder returns')
    for st, out in r.outs:
        if not ctx.ob(isT(out, 'seq') and seqlen(out) == want, nm, 'the encoding has the fixed length %d' % want, show(out)[:200]):
            continue
        m = field_of_byte(view, v, roles, eng, st)
        l = []
        for i in range(want):
            c = m.get(byte(eng, st, out, i))
            l.append(c[0] if c and len(c) == 1 else None)
        bad = [i for i, x in enumerate(l) if x is None]
        ctx.ob(not bad, nm, 'every output byte is one field byte', 'bytes %s' % bad[:8])
        miss = [x for x in ((q, i) for q in roles for i in range(seqlen(view.get(v, q)))) if x not in l]
        ctx.ob(not miss, nm, 'every field byte is written exactly once', 'missing %s' % miss[:4])
        if lay is None:
            lay = l
        ctx.ob(lay == l, nm, 'the layout does not depend on the values', '')
    return lay, want


def c18(ctx):
    """Every binary encoder is run on a fully symbolic object (all field values at once): the output has the fixed length, every output
    byte is one field byte and every field byte is written once. Every decoder is run on a symbolic byte string of symbolic length: in
    every Ok state each field byte is the input byte at the position the encoder gives it and the input is known to be at least that
    long. Decoding the encoder's symbolic output has only Ok outcomes and returns the encoded fields."""
    for name, roles in CODECS:
        view = ctx.view(name)
        lay, want = encoding_layout(ctx, name, roles)
        if lay is None or None in lay:
            continue
        pos = {x: i for i, x in enumerate(lay)}
        dec = name + '::from_bytes'
        f = ctx.fn(dec)
        eng = ctx.engine()
        data = sym_text(eng, 'input')
        r = ctx.run(f, [cref(data)], eng=eng)
        oks = r.oks()
        ctx.ob(bool(oks), dec, 'some input is accepted (the rule is not vacuous)')
        for st, v in oks:
            for q in roles:
                s = view.get(v, q)
                n = dict(ROLES[name])[q]
                bad = [i for i in range(n) if not eqk(eng, st, byte(eng, st, s, i), byte(eng, st, data, pos.get((q, i), 0)))]
                ctx.ob(not bad, dec, 'field %s is read from the position it is written to' % q,
                       'byte %s is %s' % (bad[:1], show(byte(eng, st, s, bad[0]))[:100] if bad else ''))
            lo = eng.trange(st, seqlen(data))
            ctx.ob(lo is not None and lo[0] is not None and lo[0] >= want, dec, 'input shorter than the encoding is refused',
                   'accepted length %s' % (lo,))
        enc = name + '::to_bytes'
        for tag, pre in alg_classes(name):
            eng = ctx.engine()
            v0 = fresh_object(view, eng, tag, pre)
            outs = ctx.run(enc, [cref(v0)], eng=eng).outs
            for st0, out in outs:
                r2 = ctx.run(f, [cref(out)], eng=eng, st=st0)
                ctx.ob(not r2.errs(), dec, 'every encoding is accepted again', show(r2.errs()[0][1])[:200] if r2.errs() else '')
                for st, v in r2.oks():
                    diff = [q for q in view.paths if not same_value(eng, st, view.get(v, q), view.get(v0, q))]
                    ctx.ob(not diff, dec, 'decoding an encoding returns the encoded object', 'field %s' % diff)
                ctx.ob(len(r2.outs) >= 1, dec, 'the decoder returns')


def same_value(eng, st, a, b):
    if a is b:
        return True
    if isT(a, 'seq') and isT(b, 'seq'):
        e = eng.seq_eq(st, a, b)
        if e is True or e == 1:
            return True
        n = seqlen(a)
        return isinstance(n, int) and n == seqlen(b) and seq_known_eq(eng, st, a, b, n) is None
    if is_agg(a) and is_agg(b):
        return a.a[:2] == b.a[:2] and all(same_value(eng, st, x, y) for x, y in zip(a.a[2:], b.a[2:]))
    try:
        return eqk(eng, st, a, b)
    except Exception:
        return False


# ------------------------------------------------------------------ C26
def byte_source(f, ctx):
    """does f turn one byte string into a 64-bit number, or one 64-bit number into bytes -> 'load' | 'store' | None"""
    ts = ctx.prog.types

    def isbytes(i):
        t = ts[i]
        while t['k'] == 'ref':
            t = ts[t['e']]
        if t['k'] == 'slice':
            return ts[t['e']]['d'] == 'u8'
        if t['k'] == 'array':
            return ts[t['e']]['d'] == 'u8' and t['l'] == 8
        return False
    o = ts[f['out']]
    if len(f['in']) == 1 and isbytes(f['in'][0]) and o['d'] in ('u64', 'usize'):
        return 'load'
    if len(f['in']) == 1 and ts[f['in'][0]]['d'] in ('u64', 'usize') and (
            (o['k'] == 'array' and o['l'] == 8 and ts[o['e']]['d'] == 'u8') or o['d'] == 'std::vec::Vec<u8>'):
        return 'store'
    return None


def numbers_over(v, atoms, seen=None, out=None):
    """maximal subterms of v that are integers made of the given bytes: 'cat' terms, and bytes met outside any 'cat'"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    if isinstance(v, tuple):
        for x in v:
            numbers_over(x, atoms, seen, out)
    elif isinstance(v, T) and v not in seen:
        seen.add(v)
        if v.op == 'cat' and any(isinstance(x, T) and x in atoms for x in v.a):
            out.append(v)
        elif v in atoms:
            out.append(v)
        else:
            for x in v.a:
                numbers_over(x, atoms, seen, out)
    return out


def is_le(v, bs):
    """v is the little-endian number of the bytes bs"""
    return isT(v, 'cat') and list(v.a[:len(bs)]) == list(bs) and all(x == 0 for x in v.a[len(bs):])


def c26(ctx):
    """Every local function from one byte string to a 64-bit number or back is run on symbolic input: byte k of the bytes must be bits
    8k..8k+7 of the number, and load after store must be the identity. Every place where a public function shows a key identifier as a
    number, and every condition and scrypt parameter of the key opening functions that depends on a stored limit, must use the
    little-endian number of all 8 bytes."""
    loads, stores = [], []
    for f in ctx.prog.fns:
        if f['body'] and f['body'] in ctx.prog.bodies or f['key'] in ctx.prog.bodies:
            k = byte_source(f, ctx)
            if k and not f['traitdecl'] and 'crypto' not in f['p'].split('::'):
                (loads if k == 'load' else stores).append(f)
    for f in loads:
        nm = canon(f['p'])
        eng = ctx.engine()
        n = sym_text(eng, 'bytes')
        body = ctx.prog.bodies[f['key']]
        r = ctx.run(f, [None], eng=eng)
        s = eng.load(State(), r.args[0]) if isT(r.args[0], 'ref') else r.args[0]
        outs = r.outs
        ctx.ob(bool(outs), nm, 'the loader returns')
        for st, v in outs:
            ok = False
            for w in (8, 4, 3):
                bs = [byte(eng, st, s, i) for i in range(w)] if loadable(eng, st, s, w) else None
                if bs and is_le(v, bs):
                    ok = w
                    break
            ctx.ob(ok, nm, 'a loaded number is the little-endian value of its bytes', show(v)[:160])
    for f in stores:
        nm = canon(f['p'])
        eng = ctx.engine()
        x = mk('sym', 'number', ty='u64')
        r = ctx.run(f, [x], eng=eng)
        ctx.ob(bool(r.outs), nm, 'the storing function returns')
        for st, v in r.outs:
            ok = isT(v, 'seq') and seqlen(v) == 8 and [byte(eng, st, v, i) for i in range(8)] == eng.as_bytes(x, 8)
            ctx.ob(ok, nm, 'a stored number is its little-endian bytes', show(v)[:160])
            for g in loads:
                if g['p'].rsplit('::', 1)[0] != f['p'].rsplit('::', 1)[0]:
                    continue
                r2 = ctx.run(g, [cref(v) if ctx.prog.types[g['in'][0]]['k'] == 'ref' else v], eng=eng, st=st.copy())
                ctx.ob(len(r2.outs) == 1 and r2.outs[0][1] is x, canon(g['p']), 'loading a stored number gives the same number',
                       show(r2.outs[0][1])[:160] if r2.outs else '')
    # use: key identifiers shown as numbers
    n = 0
    pv, sv, kv = ctx.view('PublicKey'), ctx.view('SignatureBox'), ctx.view('SecretKey')
    for nm in ('PublicKey::to_box', 'verify', 'sign', 'SecretKey::to_box'):
        f = ctx.fn(nm)
        eng = ctx.engine()
        r = ctx.run(f, [None] * len(f['in']), eng=eng)
        ids = []
        for a in r.args:
            ids += id_bytes(ctx, eng, a)
        for st, v in r.outs:
            shown = []
            for t in list(subterms(v)) + [y for k_, x in st.gh.items() if k_[0] == 'out' for y in subterms(x)]:
                if isT(t, 'fmt') and t.a[0] in ('x', 'X', 'u', 'd', '?'):
                    shown.append(t)
            for t in shown:
                for bs in ids:
                    for q in numbers_over(t.a[2], set(bs)):
                        n += 1
                        ctx.ob(is_le(q, bs), nm, 'a key id shown as a number is its little-endian value', show(q)[:160])
    ctx.ob(n >= 1, '(all)', 'key ids shown as numbers were analysed', str(n))
    # use: stored limits
    from .rules_keys import opening_roots, kdfs
    m = 0
    for f in opening_roots(ctx):
        nm = canon(f['p'])
        r = ctx.run(f, [None] * len(f['in']))
        for st, v in r.oks():
            for e in kdfs(st):
                for role in ('kdf_opslimit_le', 'kdf_memlimit_le'):
                    s = kv.get(v, role)
                    bs = [byte(r.eng, st, s, i) for i in range(8)]
                    atoms = {b for b in bs if isinstance(b, T)}
                    for t in list(st.facts) + [e.a[3]]:
                        for q in numbers_over(t, atoms):
                            m += 1
                            ctx.ob(is_le(q, bs), nm, 'a stored limit is used as its little-endian value', '%s: %s' % (role, show(q)[:160]))
    ctx.ob(m >= 2, '(all)', 'uses of the stored limits were analysed', str(m))


def loadable(eng, st, s, w):
    try:
        lo = eng.trange(st, seqlen(s))
        return lo[0] >= w
    except Exception:
        return False


def id_bytes(ctx, eng, a):
    """byte lists of the key ids inside an argument"""
    st = State()
    seen = []

    def go(v, d=0):
        if d > 4:
            return
        if isT(v, 'ref'):
            try:
                go(eng.load(st, v), d + 1)
            except Exception:
                return
        elif is_agg(v):
            nm = v.a[0] if isinstance(v.a[0], str) else ''
            for name in ('PublicKey', 'SecretKey', 'SignatureBox'):
                if nm.rsplit('::', 1)[-1] == name:
                    s = ctx.view(name).get(v, 'keynum')
                    seen.append([byte(eng, st, s, i) for i in range(8)])
                    return
            for x in v.a[2:]:
                go(x, d + 1)
        elif isT(v, 'symadt'):
            try:
                e = eng.expand(v, 1)
                go(e, d + 1)
            except Exception:
                return
    go(a)
    return seen


# ------------------------------------------------------------------ C23
def eq_impls(ctx, name):
    """the PartialEq methods of a type: [(method, fn)]"""
    r = []
    for f in ctx.prog.fns:
        if f['traitimpl'] and f['body'] and f['name'] in ('eq', 'ne') and len(f['in']) == 2:
            a, b = (ctx.prog.types[t] for t in f['in'])
            if all(t['k'] == 'ref' and ctx.prog.types[t['e']].get('k') == 'adt' and ctx.prog.types[t['e']]['p'].rsplit('::', 1)[-1] == name
                   for t in (a, b)):
                r.append((f['name'], f))
    return r


def check_equality(ctx, f, nm, build, ne, what):
    """run f on two objects with distinct content and on two with the same: sound and complete
    build(eng, tag) -> (value, key byte terms)"""
    eng = ctx.engine()
    (a, ab), (b, bb) = build(eng, 'l'), build(eng, 'r')
    r = ctx.run(f, [cref(a), cref(b)], eng=eng)
    yes = 0 if ne else 1
    accepted = 0
    for st, v in r.outs:
        s = st.copy()
        if not (v == yes if isinstance(v, int) else eng.assume(s, v, yes)):
            continue
        accepted += 1
        bad = [i for i, (x, y) in enumerate(zip(ab, bb)) if not eqk(eng, s, x, y)]
        ctx.ob(not bad, nm, 'equal only if all %s are equal' % what, 'bytes %s are not compared' % bad[:8])
    ctx.ob(accepted > 0, nm, 'some objects are equal (the rule is not vacuous)', what)
    eng = ctx.engine()
    (a, ab), (b, bb) = build(eng, 'l'), build(eng, 'r')
    b2, _ = build(eng, 'r', ab)
    r = ctx.run(f, [cref(a), cref(b2)], eng=eng)
    for st, v in r.outs:
        ok = v == yes if isinstance(v, int) else eng.truth(st, v) == yes
        ctx.ob(ok, nm, 'equal whenever all %s are equal' % what, show(v)[:160])


def phi_steps(eng, p):
    """(initial value, [next values]) of a loop variable"""
    for lid, (g, head, backs) in eng.recs.items():
        if p in g.phis:
            return g.phis[p], [sub.get(p) for _, sub in backs], [s for s, _ in backs]
    return None


def zero_iff_equal(t, pairs):
    """t is zero exactly when x == y for the pair (x, y)"""
    x, y = pairs
    return isT(t, 'bitxor') and len(t.a) == 2 and set(t.a) == {x, y} or (isT(t, 'b2i') and is_ne(t.a[0], x, y))


def is_eq(t, x, y):
    return isT(t, 'eq') and set(t.a) == {x, y}


def is_ne(t, x, y):
    return isT(t, 'not') and is_eq(t.a[0], x, y) or isT(t, 'ne') and set(t.a) == {x, y}


def symbolic_equality(ctx, f):
    """f on two byte strings of unknown lengths: every outcome decides equality, by the recurrences of its loops -> True or the reason"""
    eng = ctx.engine()
    a, b = sym_text(eng, 'lhs'), sym_text(eng, 'rhs')
    r = ctx.run(f, [cref(a), cref(b)], eng=eng)
    la, lb = seqlen(a), seqlen(b)
    base_a, base_b = a.a[0][1], b.a[0][1]
    for st, v in r.outs:
        same = eqk(eng, st, la, lb)
        diff = eng.truth(st, eng.mk_eq(la, lb)) == 0
        if diff:
            if v != 0:
                return 'strings of different lengths are not always different'
            continue
        if not same:
            return 'the lengths are not compared'
        if isT(v, 'eq') and any(isT(x, 'seq') for x in v.a):
            if set(v.a) == {a, b}:
                continue
            return 'a comparison of %s' % show(v)[:120]
        if v == 0:
            if any(isT(t, 'eq') and w == 0 and len(t.a) == 2 and any(isT(x, 'at') and x.a[0] is base_a for x in t.a) and
                   any(isT(x, 'at') and x.a[0] is base_b for x in t.a) and len({x.a[1] for x in t.a if isT(x, 'at')}) == 1 for t, w in st.facts.items()):
                continue
            return 'an outcome "different" without a differing byte'
        if v == 1:
            acc, kind = None, 'early'
        elif isT(v, 'eq') and 0 in v.a and any(isT(x, 'phi') for x in v.a):
            acc, kind = [x for x in v.a if isT(x, 'phi')][0], 'acc'
        elif isT(v, 'phi'):
            acc, kind = v, 'and'
        else:
            return 'the result is %s' % show(v)[:120]
        # the loop: an index from 0 in steps of one up to the length
        ok = False
        for lid, (g, head, backs) in eng.recs.items():
            for p, init in g.phis.items():
                if init != 0 or not backs or any(sub.get(p) is not ladd(p, 1) for _, sub in backs):
                    continue
                if not eqk(eng, st, p, la):
                    continue
                pair = (at(base_a, p), at(base_b, p))
                if kind == 'early':
                    ok = all(eqk(eng, s, *pair) for s, _ in backs)
                else:
                    st0 = phi_steps(eng, acc)
                    if st0 is None or acc not in g.phis:
                        continue
                    if kind == 'acc':
                        ok = st0[0] == 0 and all(isT(n, 'bitor') and acc in n.a and len(n.a) == 2 and
                                                 zero_iff_equal([x for x in n.a if x is not acc][0], pair) for n in st0[1])
                    else:
                        ok = st0[0] == 1 and all(isT(n, 'and') and acc in n.a and len(n.a) == 2 and
                                                 is_eq([x for x in n.a if x is not acc][0], *pair) for n in st0[1])
                if ok:
                    break
            if ok:
                break
        if not ok:
            return 'no recurrence accumulates every difference'
    return True


LENGTHS = (0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100)


def byte_comparisons(ctx, roots):
    """local functions from two byte slices to bool that the given functions reach"""
    from .callgraph import CallGraph
    cg = CallGraph(ctx.prog)
    r = {}
    for f in roots:
        for k in cg.reach(f['key']):
            for g in ctx.prog.fns:
                if g['key'] == k and len(g['in']) == 2 and ctx.prog.types[g['out']]['k'] == 'bool':
                    ts = [ctx.prog.types[t] for t in g['in']]
                    if all(t['k'] == 'ref' and ctx.prog.types[t['e']]['k'] == 'slice' and ctx.prog.types[ctx.prog.types[t['e']]['e']]['d'] == 'u8' for t in ts):
                        r[k] = g
    return list(r.values())


def c23(ctx):
    """The equality methods of public and secret keys are run on two fully symbolic keys: in every outcome "equal" all 32 (64) key bytes
    must be known equal, and on two keys with the same key bytes and different other fields every outcome must be "equal". Every byte
    comparison they use is analysed for byte strings of all lengths by the recurrences of its loop (or, if its loop has another form,
    for a list of lengths with all contents)."""
    roots = []
    for name, role, n in (('PublicKey', 'pk', 32), ('SecretKey', 'sk', 64)):
        view = ctx.view(name)
        im = eq_impls(ctx, name)
        if not ctx.ob(any(m == 'eq' for m, _ in im), name, 'the type has an equality method'):
            continue
        for m, f in im:
            nm = canon(f['p'])
            roots.append(f)

            def build(eng, tag, key=None, view=view, role=role, n=n):
                v = view.fresh(eng, 'obj' + tag)
                if key is not None:
                    v = view.set(v, role, sq_elems(key))
                st = State()
                return v, [byte(eng, st, view.get(v, role), i) for i in range(n)]
            check_equality(ctx, f, nm, build, m == 'ne', '%d %s key bytes' % (n, 'public' if role == 'pk' else 'secret'))
    for f in byte_comparisons(ctx, roots):
        nm = canon(f['p'])
        try:
            why = symbolic_equality(ctx, f)
        except Gap as g:
            why = str(g)
        if why is True:
            ctx.ob(True, nm, 'the byte comparison decides equality for byte strings of every length')
            continue
        ctx.notes.append('%s: all lengths not decided (%s); lengths %s analysed instead' % (nm, why, LENGTHS))
        for n in LENGTHS:
            def bytes_of(eng, tag, key=None, n=n):
                s = sq_elems(key) if key is not None else eng.sym_seq(mk('sym', 'bytes' + tag), n, None)
                st = State()
                return s, [byte(eng, st, s, i) for i in range(n)]
            check_equality(ctx, f, nm, bytes_of, False, '%d bytes' % n)
            for m in (0, n - 1, n + 1, 2 * n):
                if m < 0 or m == n:
                    continue
                eng = ctx.engine()
                r = ctx.run(f, [cref(eng.sym_seq(mk('sym', 'l'), n, None)), cref(eng.sym_seq(mk('sym', 'r'), m, None))], eng=eng)
                ctx.ob(all(v == 0 for _, v in r.outs), nm, 'byte strings of different lengths are different', '%d and %d' % (n, m))


def c34(ctx):
    """every public method that reports the key id of a public key, secret key or signature, and every one that reports whether a signature is
    prehashed, is run on an object with arbitrary fields: it returns the eight bytes of the id held by the object, without changing the
    object, respectively whether the two bytes of the tag held are those of a prehashed signature; and a clone of any of these objects has
    the same value in every field"""
    n = 0
    for ty in ('PublicKey', 'SecretKey', 'SignatureBox', 'SignatureBones'):
        view = ctx.view(ty)
        for f in ctx.public():
            nm = canon(f['p'])
            if len(f['in']) != 1 or nm not in (ty + '::keynum', ty + '::is_prehashed'):
                continue
            byref = ctx.prog.types[f['in'][0]]['k'] == 'ref'
            for tag in (b'Ed', b'ED'):
                eng, st = ctx.engine(), State()
                o = view.fresh(eng, 'object')
                o = view.set(o, 'sig_alg', sq_bytes(tag))
                if view.has('is_prehashed'):
                    o = view.set(o, 'is_prehashed', int(tag == b'ED'))
                r = ctx.run(f, [cref(o) if byref else o], eng=eng, st=st)
                ctx.ob(bool(r.outs), nm, 'some execution succeeds (the rule is not vacuous)')
                for s, v in r.outs:
                    n += 1
                    if nm.endswith('keynum'):
                        x = v
                        while isT(x, 'ref'):
                            x = eng.load(s, x)
                        want = view.get(o, 'keynum')
                        good = isT(x, 'seq') and seqlen(x) == 8 and all(eqk(eng, s, byte(eng, s, x, i), byte(eng, s, want, i)) for i in range(8))
                        ctx.ob(good, nm, 'the whole key id is reported', show(x)[:200])
                    else:
                        ctx.ob(eng.truth(s, v) == int(tag == b'ED'), nm, 'a signature is reported as prehashed when its tag says so', show(v)[:200])
        for f in ctx.prog.fns:
            if f['body'] and len(f['in']) == 1 and f['p'].endswith('Clone>::clone') and f['in'][0] is not None:
                t = ctx.prog.types[f['in'][0]]
                t = ctx.prog.types[t['e']] if t['k'] == 'ref' else t
                if t['k'] != 'adt' or not t.get('local') or t['p'].rsplit('::', 1)[-1] != ty:
                    continue
                nm = canon(f['p'])
                for tag in (b'Ed', b'ED'):
                    eng, st = ctx.engine(), State()
                    o = view.set(view.fresh(eng, 'object'), 'sig_alg', sq_bytes(tag))
                    if view.has('is_prehashed'):
                        o = view.set(o, 'is_prehashed', int(tag == b'ED'))
                    r = ctx.run(f, [cref(o)], eng=eng, st=st)
                    ctx.ob(bool(r.outs), nm, 'some execution succeeds (the rule is not vacuous)')
                    for s, v in r.outs:
                        n += 1
                        for role in view.paths:
                            ctx.ob(same_value(eng, s, view.get(v, role), view.get(o, role)), nm, 'a clone has the same %s' % role, show(view.get(v, role))[:160])
    ctx.ob(n >= 8, '(all)', 'methods reporting ids and flags were analysed', str(n))
