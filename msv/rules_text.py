"""Rules about the text forms: C19."""
from .base import *
from .models import text_lines
from .rules_verify import COMMENT_PREFIX, TRUSTED_PREFIX, TAG_L, TAG_P, line_seq
from .rules_keys import sym_text, out_adt, opening_roots, opt_string_args, generation_roots, key_runs
from .rules_sign import sign_runs

NOBREAK = (10, 13)


def break_free(st, seq):
    st.facts[mk('hasch', seq, NOBREAK, mk('exact'), ty='bool')] = 0


def text_sym(eng, st, nm):
    """an arbitrary text without line breaks"""
    s = eng.sym_seq(mk('sym', nm), mk('len', mk('sym', nm), ty='usize'), None)
    break_free(st, s)
    st.facts[mk('utf8ok', s, ty='bool')] = 1
    return s


def inner(v):
    """text of a box newtype, string or byte vector"""
    while is_agg(v) and len(v.a) == 3:
        v = v.a[2]
    return v


def b64_of(t):
    """the bytes whose complete padded base64 encoding a line is, or None"""
    from .models import b64_plain
    return b64_plain(t, 'Base64') if isT(t, 'seq') else None


def lines_of(ctx, eng, st, text, nm, want):
    """check the line structure; want: list of (prefix or None, predicate on the rest, what)"""
    tl = text_lines(eng, st, text) if isT(text, 'seq') else None
    if not ctx.ob(tl is not None, nm, 'the text is made of lines of known structure', show(text)[:300]):
        return
    lines, ended = tl
    ctx.ob(ended, nm, 'every line of the text is complete', show(text)[-200:])
    if not ctx.ob(len(lines) == len(want), nm, 'the text has exactly %d lines' % len(want), '%d lines' % len(lines)):
        return
    for k, (ln, (pre, pred, what)) in enumerate(zip(lines, want)):
        if pre is not None:
            ok_ = (isinstance(seqlen(ln), T) or seqlen(ln) >= len(pre)) and all(eqk(eng, st, byte(eng, st, ln, i), b) for i, b in enumerate(pre)) \
                if min_len(ln) >= len(pre) else False
            if not ctx.ob(ok_, nm, 'line %d starts with "%s"' % (k + 1, pre.decode()), show(ln)[:160]):
                continue
            ln = eng.subseq(st, ln, len(pre), seqlen(ln))
        ctx.ob(pred(ln), nm, 'line %d carries %s' % (k + 1, what), show(ln)[:300])


def min_len(s):
    """length of the literal start of a sequence"""
    return len(s.a[0][1]) if s.a and s.a[0][0] == 'e' else 0


def agree(a, b):
    return a is b


def type_name(ctx, ti):
    t = ctx.prog.types[ti]
    while t['k'] == 'ref':
        t = ctx.prog.types[t['e']]
    return t['p'].rsplit('::', 1)[-1] if t['k'] == 'adt' else t['d']


def c19(ctx):
    """(1) The texts written for an arbitrary public key, secret key (with and without comment) and signature consist of exactly the lines
    the format prescribes, each complete. (2) Reading back the text written gives the same object, field by field, for all field values and
    all comments without line breaks; every conversion between a box and a string hands the text on unchanged. (3) On an arbitrary text, key and
    signature bytes are taken only from the base64 line(s) prescribed. (4) With a caller-supplied comment, `sign`, secret-key export and key
    generation succeed only if the comment is known to contain neither CR nor LF."""
    pv, kv, sv = ctx.view('PublicKey'), ctx.view('SecretKey'), ctx.view('SignatureBox')
    n = 0
    # ---- public keys
    eng = ctx.engine()
    pk = pv.set(pv.fresh(eng, 'pk'), 'sig_alg', sq_bytes(TAG_L))
    raw = concat(pv.get(pk, 'sig_alg'), pv.get(pk, 'keynum'), pv.get(pk, 'pk'))
    r = ctx.run('PublicKey::to_box', [cref(pk)], eng=eng)
    for st, box in r.oks():
        n += 1
        lines_of(ctx, eng, st, inner(box), 'PublicKey::to_box', [(COMMENT_PREFIX, lambda t: True, 'a comment'), (None, lambda t: b64_of(t) is raw, 'the base64 form of the key')])
        for nm, arg in (('PublicKey::from_box', box), ('PublicKeyBox::into_public_key', box)):
            back(ctx, eng, st, nm, [arg], pk, pv)
    r = ctx.run('PublicKey::to_base64', [cref(pk)], eng=eng)
    for st, t in r.outs:
        n += 1
        ctx.ob(b64_of(t) is raw, 'PublicKey::to_base64', 'the text is the base64 form of the key', show(t)[:160])
        back(ctx, eng, st, 'PublicKey::from_base64', [cref(t)], pk, pv)
    # ---- secret keys
    for given in (0, 1):
        eng = ctx.engine()
        st0 = State()
        sk = kv.fresh(eng, 'sk')
        sk = kv.set(sk, 'sig_alg', sq_bytes(b'Ed'))
        sk = kv.set(sk, 'chk_alg', sq_bytes(b'B2'))
        c = text_sym(eng, st0, 'comment')
        raw = concat(*[kv.get(sk, x) for x in ('sig_alg', 'kdf_alg', 'chk_alg', 'kdf_salt', 'kdf_opslimit_le', 'kdf_memlimit_le', 'keynum', 'sk', 'chk')])
        r = ctx.run('SecretKey::to_box', [cref(sk), some(cref(c)) if given else NONE], eng=eng, st=st0)
        oks = r.oks()
        ctx.ob(bool(oks), 'SecretKey::to_box', 'a key can be exported (the rule is not vacuous)')
        for st, box in oks:
            n += 1
            lines_of(ctx, eng, st, inner(box), 'SecretKey::to_box', [
                (COMMENT_PREFIX, (lambda t: t is c) if given else (lambda t: True), 'the caller\'s comment' if given else 'a comment'),
                (None, lambda t: b64_of(t) is raw, 'the base64 form of the key')])
            for nm, args in (('SecretKey::from_unencrypted_box', [box]), ('SecretKeyBox::into_unencrypted_secret_key', [box])):
                back(ctx, eng, st, nm, args, sk, kv)
            for nm in ('SecretKey::from_box', 'SecretKeyBox::into_secret_key'):
                back(ctx, eng, st, nm, [box, None], sk, kv, cipher=('keynum', 'sk', 'chk'))
    # ---- signatures
    for tag in (TAG_L, TAG_P):
        eng = ctx.engine()
        st0 = State()
        uc, tc = text_sym(eng, st0, 'untrusted'), text_sym(eng, st0, 'trusted')
        o = sv.fresh(eng, 'sigbox')
        o = sv.set(o, 'sig_alg', sq_bytes(tag))
        if sv.has('is_prehashed'):
            o = sv.set(o, 'is_prehashed', int(tag == TAG_P))
        gs = eng.sym_seq(mk('sym', 'global_signature'), 64, None)
        o = sv.set(o, 'untrusted_comment', uc)
        o = sv.set(o, 'sig_and_trusted_comment', some(concat(sv.get(o, 'sig'), tc)))
        o = sv.set(o, 'global_sig', some(gs))
        raw = concat(sv.get(o, 'sig_alg'), sv.get(o, 'keynum'), sv.get(o, 'sig'))
        texts = []
        for f in ctx.public():
            if len(f['in']) != 1 or type_name(ctx, f['in'][0]) != 'SignatureBox' or type_name(ctx, f['out']) not in ('String', 'Vec'):
                continue
            nm = canon(f['p'])
            byref = ctx.prog.types[f['in'][0]]['k'] == 'ref'
            r = ctx.run(f, [cref(o) if byref else o], eng=eng, st=st0.copy())
            ctx.ob(bool(r.outs), nm, 'a signature can be written')
            for st, t in r.outs:
                n += 1
                texts.append((nm, st, t))
                lines_of(ctx, eng, st, t, nm, [
                    (COMMENT_PREFIX, lambda x: x is uc, 'the untrusted comment'),
                    (None, lambda x: b64_of(x) is raw, 'the base64 form of the signature'),
                    (TRUSTED_PREFIX, lambda x: x is tc, 'the trusted comment'),
                    (None, lambda x: b64_of(x) is gs, 'the base64 form of the global signature')])
        ctx.ob(len(texts) >= 3, 'SignatureBox', 'the writing functions were found', str(len(texts)))
        for nm, st, t in texts[:1]:
            back(ctx, eng, st, 'SignatureBox::from_string', [cref(t)], o, sv)
    # ---- boxes and strings
    k = 0
    for f in ctx.public():
        if len(f['in']) != 1:
            continue
        a, b = type_name(ctx, f['in'][0]), out_text(ctx, f)
        boxes = ('PublicKeyBox', 'SecretKeyBox')
        if not (a in boxes and b in ('String', 'Vec', 'str') or a in ('String', 'str') and b in boxes):
            continue
        if ctx.prog.types[f['in'][0]].get('m'):
            continue
        nm = canon(f['p'])
        eng = ctx.engine()
        text = sym_text(eng, 'text')
        byref = ctx.prog.types[f['in'][0]]['k'] == 'ref'
        v = text
        if a in boxes:
            bt = [i for i, t in enumerate(ctx.prog.types) if t['k'] == 'adt' and t['local'] and t['p'].rsplit('::', 1)[-1] == a][0]
            v = eng.make_value(bt, mk('sym', 'box'))
            text = inner(v)
        if nm.endswith('::fmt') or (a in boxes and nm.endswith('::clone')):
            continue
        r = ctx.run(f, [cref(v) if byref else v], eng=eng)
        ctx.ob(bool(r.outs), nm, 'the conversion returns')
        for st, x in r.outs:
            if is_agg(x, RES):
                ctx.ob(x.a[1] == 0, nm, 'the conversion succeeds')
                x = x.a[2]
            k += 1
            ctx.ob(inner(x) is text, nm, 'a box and its string hold the same text', show(inner(x))[:160])
    ctx.ob(k >= 8, '(boxes)', 'conversions between boxes and strings were analysed', str(k))
    # ---- arbitrary texts: where elements come from
    m = 0
    for f in ctx.public():
        o, fall = out_adt(ctx, f)
        if o not in ('PublicKey', 'SecretKey', 'SignatureBox') or canon(f['p']) in ('sign', 'PublicKey::from_secret_key', 'PublicKey::from_base64'):
            continue
        nm = canon(f['p'])
        eng = ctx.engine()
        r = ctx.run(f, [None] * len(f['in']), eng=eng)
        for st, v in r.outs:
            if is_agg(v, RES):
                if v.a[1] == 1:
                    continue
                v = v.a[2]
            used = {}
            view = ctx.view(o)
            for role in ('sig_alg', 'keynum', 'pk', 'sk', 'chk', 'kdf_salt', 'sig', 'global_sig'):
                if not view.has(role):
                    continue
                x = view.get(v, role)
                for t in subterms(x):
                    if isT(t, 'line'):
                        used.setdefault(t.a[1], set()).add(role)
                    elif isT(t, 'sp') or isT(t, 'splitit'):
                        used.setdefault('?', set()).add(role)
            if not used:
                continue
            m += 1
            for ln, roles in used.items():
                good = roles <= {'global_sig'} if ln == 3 else ln == 1 and 'global_sig' not in roles
                ctx.ob(good, nm, 'key and signature bytes are read from their own base64 line only',
                       '%s from line %s' % (sorted(roles), ln + 1 if isinstance(ln, int) else ln))
    ctx.ob(m >= 6, '(readers)', 'functions reading texts were analysed', str(m))
    # ---- caller-supplied comments
    q = 0
    for sr in sign_runs(ctx):
        for st, v in sr.run.oks():
            for given, s, what in ((sr.tc, sr.tcs, 'trusted'), (sr.uc, sr.ucs, 'untrusted')):
                if given:
                    q += 1
                    ctx.ob(no_breaks_known(sr.eng, st, s), 'sign', 'a %s comment with a line break is refused' % what, sr.label)
    for f in ctx.public():
        nm = canon(f['p'])
        cs = [i for i, x in opt_string_args(ctx, f).items() if x == 'comment']
        if not cs or nm == 'sign' or not is_res(ctx, f['out']):
            continue
        for i in cs:
            eng = ctx.engine()
            s = sym_text(eng, 'comment')
            args = [None] * len(f['in'])
            args[i] = some(comment_arg(ctx, f['in'][i], s))
            r = ctx.run(f, args, eng=eng)
            for st, v in r.oks():
                q += 1
                ctx.ob(no_breaks_known(eng, st, s), nm, 'a comment with a line break is refused', '')
    ctx.ob(q >= 4, '(comments)', 'functions taking comments were analysed', str(q))
    ctx.ob(n >= 6, '(writers)', 'written texts were analysed', str(n))


def is_res(ctx, ti):
    t = ctx.prog.types[ti]
    return t['k'] == 'adt' and t['p'] == RES


def comment_arg(ctx, ti, s):
    """the comment as the parameter type wants it"""
    t = ctx.prog.types[ti]
    while t['k'] == 'ref':
        t = ctx.prog.types[t['e']]
    a = t['v'][1]['f'][0][1] if t['k'] == 'adt' and t['p'] == OPT else None
    return cref(s) if a is None or ctx.prog.types[a]['k'] == 'ref' else s


def no_breaks_known(eng, st, s):
    """both line-break characters excluded, together or one by one"""
    left = {10, 13}
    for t, v in st.facts.items():
        if t.op == 'hasch' and v == 0 and t.a[0] is s:
            left -= set(t.a[1])
    return not left


def out_text(ctx, f):
    t = ctx.prog.types[f['out']]
    if t['k'] == 'adt' and t['p'] == RES and t['v'] and t['v'][0]['f']:
        return type_name(ctx, t['v'][0]['f'][0][1])
    return type_name(ctx, f['out'])


def back(ctx, eng, st, nm, args, obj, view, cipher=()):
    """reading gives the object that was written"""
    f = ctx.fn(nm)
    args = list(args) + [None] * (len(f['in']) - len(args))
    r = ctx.run(nm, args, eng=eng, st=st.copy())
    oks = r.oks()
    ctx.ob(bool(oks), nm, 'a text written by the library can be read back')
    for s, v in oks:
        for role in view.paths:
            x, y = view.get(v, role), view.get(obj, role)
            if role in cipher:
                good = isT(x, 'seq') and all(mentions(byte(eng, s, x, i), lambda t, i=i: t is at_of(y, i)) for i in range(seqlen(y)))
            else:
                good = same(eng, s, x, y)
            ctx.ob(good, nm, 'reading a written text gives the same %s' % role, show(x)[:200])
    if not cipher and view.name != 'SecretKey':
        ctx.ob(len(oks) == len(r.outs), nm, 'every text written by the library can be read back', '')


def at_of(s, i):
    e = elements(s)
    return e[i] if e is not None else at(s, i)


def same(eng, st, x, y):
    if x is y:
        return True
    if isT(x, 'seq') and isT(y, 'seq'):
        if is_agg(x) or not isinstance(seqlen(y), int) or seqlen(x) is not seqlen(y) and seqlen(x) != seqlen(y):
            return False
        return seq_known_eq(eng, st, x, y, seqlen(y)) is None
    if is_agg(x) and is_agg(y) and len(x.a) == len(y.a) and x.a[:2] == y.a[:2]:
        return all(same(eng, st, a, b) for a, b in zip(x.a[2:], y.a[2:]))
    if isinstance(x, (int, T)) and isinstance(y, (int, T)):
        return eqk(eng, st, x, y)
    return False


# ------------------------------------------------------------------ C35
def const_line(s):
    """a fixed, non-empty text without line breaks"""
    return isT(s, 'seq') and bool(s.a) and all(g[0] == 'e' and all(isinstance(x, int) and x not in (10, 13) for x in g[1]) for g in s.a)


def seconds_text(s):
    """nothing but the decimal form of the whole seconds between the epoch and the clock read -> error text or None"""
    if not (isT(s, 'seq') and len(s.a) == 1 and s.a[0][0] == 'o' and s.a[0][2] == 0 and isT(s.a[0][1], 'base') and isT(s.a[0][1].a[0], 'fmt')):
        return 'it is not a plain number'
    f = s.a[0][1].a[0]
    kind, spec, v, ty = f.a
    if s.a[0][3] is not mk('len', f, ty='usize') or kind not in ('d', '?') or spec is not None or ty not in ('u64', 'u128', 'i64', 'i128'):
        return 'it is not a whole number in plain decimal form'
    unit = {'as_secs': 1, 'as_millis': 1000, 'as_micros': 10 ** 6, 'as_nanos': 10 ** 9}
    d = 1
    if isT(v, 'div') and isinstance(v.a[1], int):
        v, d = v.a
    if not isT(v, 'secs') or unit.get(v.a[1]) != d:
        return 'the number is not a count of seconds'
    if not (isT(v.a[0], 'symadt') and v.a[0].a[0] is mk('elapsed')):
        return 'the number is not the time since the Unix epoch'
    return None


def zero_padded(spec, width):
    """format specification of a zero-padded, unsigned, unprefixed number of this width"""
    d = dict(spec or ())
    if set(d) != {'f', 'w'} or d['w'] != width:
        return False
    fl = d['f']
    if fl >> 21 & 7 or not fl >> 27 & 1 or fl >> 28 & 1:
        return False
    return bool(fl >> 24 & 1) or (fl & 0x1fffff == ord('0') and fl >> 29 & 3 == 1)


def key_id_text(eng, st, s, ids):
    """does the text end in the 16 upper-case hexadecimal digits of the little-endian number made of these 8 bytes (after a fixed text)?"""
    b = [byte(eng, st, ids, i) for i in range(8)]
    segs = list(s.a) if isT(s, 'seq') else []
    if segs and segs[0][0] == 'e':
        if not all(isinstance(x, int) for x in segs[0][1]):
            return False
        segs = segs[1:]
    fs = []
    for g in segs:
        if not (g[0] == 'o' and g[2] == 0 and isT(g[1], 'base') and isT(g[1].a[0], 'fmt') and g[3] is mk('len', g[1].a[0], ty='usize')):
            return False
        fs.append(g[1].a[0].a)
    if len(fs) == 1:
        kind, spec, v, ty = fs[0]
        return kind == 'X' and zero_padded(spec, 16) and ty == 'u64' and v is eng.mk_cat(b, 'u64')
    return len(fs) == 8 and all(kind == 'X' and zero_padded(spec, 2) and ty == 'u8' and v is x for (kind, spec, v, ty), x in zip(fs, b[::-1]))


def c35(ctx):
    """Comments nobody supplied, on symbolic keys and for all paths: in each Ok state of `sign` without a trusted comment, the comment part of the
    globally signed bytes is `timestamp:` followed by exactly the decimal form of the whole seconds between the Unix epoch and a clock read made in
    that call; without an untrusted comment the line is a fixed text without line breaks; so is the comment of an exported secret key; and the
    comment line of a public key ends, after a fixed text, in the 16 upper-case hexadecimal digits of the little-endian number held in its key id."""
    sv, kv, pv = ctx.view('SignatureBox'), ctx.view('SecretKey'), ctx.view('PublicKey')
    n = 0
    for sr in sign_runs(ctx):
        eng = sr.eng
        for st, v in sr.run.oks():
            lab = '[%s] ' % sr.label
            if not sr.tc:
                n += 1
                stc = sv.get(v, 'sig_and_trusted_comment')
                head = eng.seq_split(st, stc.a[2], 64) if is_agg(stc, OPT, 1) else None
                if ctx.ob(head is not None, 'sign', 'the signed comment can be told from the signature', lab + show(stc)[:160]):
                    pre = b'timestamp:'
                    p = eng.seq_split(st, head[1], len(pre))
                    ok_ = p is not None and is_bytes(eng, st, p[0], pre)
                    if ctx.ob(ok_, 'sign', 'the default trusted comment starts with "timestamp:"', lab + show(head[1])[:200]):
                        why = seconds_text(p[1])
                        ctx.ob(why is None, 'sign', 'the default trusted comment states the second of signing', lab + str(why) + ': ' + show(p[1])[:200])
            if not sr.uc:
                n += 1
                u = sv.get(v, 'untrusted_comment')
                ctx.ob(const_line(u), 'sign', 'the default untrusted comment is a fixed single line', lab + show(u)[:200])
    # ---- secret keys
    eng = ctx.engine()
    r = ctx.run('SecretKey::to_box', [cref(kv.fresh(eng, 'sk')), NONE], eng=eng)
    for st, box in r.oks():
        n += 1
        ln = first_line(ctx, eng, st, inner(box), 'SecretKey::to_box')
        if ln is not None:
            ctx.ob(const_line(ln), 'SecretKey::to_box', 'the default comment of a secret key is a fixed line', show(ln)[:200])
    # ---- public keys
    eng = ctx.engine()
    pk = pv.fresh(eng, 'pk')
    r = ctx.run('PublicKey::to_box', [cref(pk)], eng=eng)
    for st, box in r.oks():
        n += 1
        ln = first_line(ctx, eng, st, inner(box), 'PublicKey::to_box')
        if ln is not None:
            ctx.ob(key_id_text(eng, st, ln, pv.get(pk, 'keynum')), 'PublicKey::to_box', 'the comment of a public key names its key id', show(ln)[:300])
    ctx.ob(n >= 10, '(comments)', 'generated comments were analysed', str(n))


def first_line(ctx, eng, st, text, nm):
    tl = text_lines(eng, st, text) if isT(text, 'seq') else None
    if ctx.ob(tl is not None and bool(tl[0]), nm, 'the text is made of lines of known structure', show(text)[:300]):
        return tl[0][0]
    return None
