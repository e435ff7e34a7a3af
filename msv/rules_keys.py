"""Rules about keys: parsing, opening, generation, encryption, limits, passwords."""
from .base import *
from .callgraph import CallGraph
from .rules_sign import is_clamped_digest, one_base, prehashed_data

TAG_SIG = (69, 100)      # "Ed"
TAG_KDF = (83, 99)       # "Sc"
TAG_CHK = (66, 50)       # "B2"
TAG_NONE = (0, 0)


def out_adt(ctx, f):
    """(type name, fallible) of what a function returns, when that is a local type"""
    t = ctx.prog.types[f['out']]
    fall = False
    if t['k'] == 'adt' and t['p'] == RES:
        fall = True
        a = t['v'][0]['f'][0][1] if t['v'] and t['v'][0]['f'] else None
        if a is None:
            return None, True
        t = ctx.prog.types[a]
    if t['k'] == 'adt' and t['local']:
        return t['p'].rsplit('::', 1)[-1], fall
    return None, fall


def roots_returning(ctx, name, fallible=True):
    r = []
    for f in ctx.public():
        n, fall = out_adt(ctx, f)
        if n == name and fall == fallible:
            r.append(f)
    return r


def opening_roots(ctx):
    """public functions that open a secret key (everything fallible that returns one, but the plain byte decoder)"""
    r = [f for f in roots_returning(ctx, 'SecretKey') if canon(f['p']) != 'SecretKey::from_bytes']
    names = {canon(f['p']) for f in r}
    for n in ('SecretKey::from_box', 'SecretKey::from_unencrypted_box', 'SecretKey::from_file', 'SecretKeyBox::into_secret_key',
              'SecretKeyBox::into_unencrypted_secret_key'):
        ctx.ob(n in names, n, 'the opening function exists', '')
    return r


def run_all(ctx, f, opts=None, args=None, eng=None, hook=None):
    return ctx.run(f, args or [None] * len(f['in']), opts=opts, eng=eng, hook=hook)


def kdfs(st):
    return [e for e in st.ev if isT(e, 'ev') and e.a[0] == 'kdf']


# ------------------------------------------------------------------ C08
def c08(ctx):
    """Every public function that parses a public key or signature, and every function that opens a secret key, is analysed on all
    its paths; in every state in which it returns Ok the tag bytes of the returned object must be known to be the supported ones."""
    n = 0
    sv, pv, kv = ctx.view('SignatureBox'), ctx.view('PublicKey'), ctx.view('SecretKey')
    bv = ctx.view('SignatureBones')
    for f in roots_returning(ctx, 'PublicKey'):
        nm = canon(f['p'])
        if nm == 'PublicKey::from_secret_key':
            continue
        r = run_all(ctx, f)
        ctx.ob(bool(r.oks()), nm, 'some input is accepted (the rule is not vacuous)')
        for st, v in r.oks():
            n += 1
            ctx.ob(is_bytes(r.eng, st, pv.get(v, 'sig_alg'), TAG_SIG), nm, 'a public key is accepted only with signature algorithm "Ed"', show(pv.get(v, 'sig_alg'))[:120])
    for name, view in (('SignatureBox', sv), ('SignatureBones', bv)):
        for f in roots_returning(ctx, name):
            nm = canon(f['p'])
            if nm == 'sign':
                continue
            r = run_all(ctx, f)
            ctx.ob(bool(r.oks()), nm, 'some input is accepted (the rule is not vacuous)')
            for st, v in r.oks():
                n += 1
                a = view.get(v, 'sig_alg')
                ok = [t for t in ((69, 100), (69, 68)) if is_bytes(r.eng, st, a, t)]
                ctx.ob(bool(ok), nm, 'a signature is accepted only with algorithm "Ed" or "ED"', show(a)[:120])
    for f in opening_roots(ctx):
        nm = canon(f['p'])
        r = run_all(ctx, f)
        ctx.ob(bool(r.oks()), nm, 'some input is accepted (the rule is not vacuous)')
        for st, v in r.oks():
            n += 1
            ctx.ob(is_bytes(r.eng, st, kv.get(v, 'sig_alg'), TAG_SIG), nm, 'a secret key is opened only with signature algorithm "Ed"', '')
            ctx.ob(is_bytes(r.eng, st, kv.get(v, 'chk_alg'), TAG_CHK), nm, 'a secret key is opened only with checksum algorithm "B2"', '')
            kdf = bool(kdfs(st))
            want = TAG_NONE if nm in ('SecretKey::from_unencrypted_box', 'SecretKeyBox::into_unencrypted_secret_key') else TAG_KDF if nm in (
                'SecretKey::from_box', 'SecretKey::from_file', 'SecretKeyBox::into_secret_key') else TAG_KDF if kdf else TAG_NONE
            ctx.ob(is_bytes(r.eng, st, kv.get(v, 'kdf_alg'), want), nm,
                   'a secret key is opened only with the key-derivation tag of the opening method', '')
            ctx.ob(kdf == (want == TAG_KDF), nm, 'the key derivation is run exactly when the key is tagged as scrypt-protected', '')
    ctx.ob(n >= 12, '(all)', 'accepting states were analysed in every parser', str(n))


# ------------------------------------------------------------------ C09
def chk_digest(kv, v):
    return mk('blake2b', 32, concat(kv.get(v, 'sig_alg'), kv.get(v, 'keynum'), kv.get(v, 'sk')))


def c09(ctx):
    """Every function that opens a secret key, on all paths: in every state returning Ok(key), all 32 bytes of BLAKE2b-256 over the
    returned key's tag, id and secret bytes must be known equal to the key's checksum bytes."""
    kv = ctx.view('SecretKey')
    for f in opening_roots(ctx):
        nm = canon(f['p'])
        r = run_all(ctx, f)
        oks = r.oks()
        ctx.ob(bool(oks), nm, 'some key is opened (the rule is not vacuous)')
        for st, v in oks:
            d, chk = chk_digest(kv, v), kv.get(v, 'chk')
            bad = [i for i in range(32) if not eqk(r.eng, st, at(d, i), byte(r.eng, st, chk, i))]
            ctx.ob(not bad, nm, 'success only if all 32 checksum bytes equal the digest of the opened key', 'bytes %s are not compared' % bad)


# ------------------------------------------------------------------ generated keys
GEN = ('KeyPair::generate_encrypted_keypair', 'KeyPair::generate_unencrypted_keypair',
       'KeyPair::generate_and_write_encrypted_keypair', 'KeyPair::generate_and_write_unencrypted_keypair')
ENCROLES = ('keynum', 'sk', 'chk')


def generation_roots(ctx):
    r = roots_returning(ctx, 'KeyPair')
    names = {canon(f['p']) for f in r}
    for n in GEN:
        ctx.ob(n in names, n, 'the key generation function exists')
    return r


def is_protected(f):
    """does the function promise password protection: it takes an optional password"""
    return canon(f['p']) in (GEN[0], GEN[2])


def opt_string_args(ctx, f):
    """indices of Option<String> / Option<&str> arguments"""
    r = {}
    for i, t in enumerate(f['in']):
        ty = ctx.prog.types[t]
        if ty['k'] == 'adt' and ty['p'] == OPT:
            x = ctx.prog.types[ty['v'][1]['f'][0][1]]
            if x['k'] == 'adt' and x['p'] == 'std::string::String':
                r[i] = 'password'
            elif x['k'] == 'ref' and ctx.prog.types[x['e']]['k'] == 'str':
                r[i] = 'comment'
    return r


def sym_text(eng, nm):
    return eng.sym_seq(mk('sym', nm), mk('len', mk('sym', nm), ty='usize'), None)


class KeyRun:
    pass


def key_runs(ctx, f, opts=None, hook=None, box=None):
    """one run of f with a password given and one without (if it takes a password)"""
    pws = [i for i, k in opt_string_args(ctx, f).items() if k == 'password']
    out = []
    for given in ((1, 0) if pws else (None,)):
        k = KeyRun()
        k.f, k.name, k.given = f, canon(f['p']), given
        k.eng = ctx.engine(**(opts or {}))
        args = [None] * len(f['in'])
        k.pw = sym_text(k.eng, 'password')
        k.args = args
        for i, kind in opt_string_args(ctx, f).items():
            if kind == 'password':
                args[i] = some(k.pw) if given else NONE
        k.label = '' if given is None else '[password %s] ' % ('given' if given else 'typed')
        k.run = ctx.run(f, args, eng=k.eng, hook=(lambda *a, k=k: hook(k, *a)) if hook else None)
        out.append(k)
    return out


def scrypt_at(t):
    """t is byte j of a scrypt output -> (output term, j)"""
    if isT(t, 'at') and isT(t.a[0], 'base') and isT(t.a[0].a[0], 'scrypt') and isinstance(t.a[1], int):
        return t.a[0], t.a[1]
    return None


def dexor(t):
    """(plain byte, keystream, index) of an encrypted byte, or (t, None, None)"""
    if isT(t, 'bitxor'):
        ks = [(x, scrypt_at(x)) for x in t.a if scrypt_at(x)]
        if len(ks) == 1:
            rest = [x for x in t.a if x is not ks[0][0]]
            if len(rest) == len(t.a) - 1 and rest:
                p = rest[0] if len(rest) == 1 else mk('bitxor', *rest, ty=t.ty)
                return p, ks[0][1][0], ks[0][1][1]
    return t, None, None


def decrypt_view(eng, st, kv, v):
    """{role: (plain sequence, [(keystream, index) or None per byte])} of a secret key value"""
    r = {}
    for role, n in (('keynum', 8), ('sk', 64), ('chk', 32)):
        s = kv.get(v, role)
        if not isT(s, 'seq') or seqlen(s) != n:
            raise Gap('the %s part of the secret key has no known length' % role)
        pl, ks = [], []
        for i in range(n):
            p, k, j = dexor(byte(eng, st, s, i))
            pl.append(p)
            ks.append((k, j) if k is not None else None)
        r[role] = (sq_elems(pl), ks)
    return r


def scparams_ref(mem, ops):
    """libsodium's pickparams, as the format prescribes: (log2 N, r, p)"""
    ops = max(32768, ops)
    r, n = 8, 1
    if ops < mem // 32:
        p = 1
        maxn = ops // (r * 4)
        while n < 63 and not (1 << n) > maxn // 2:
            n += 1
    else:
        maxn = mem // (r * 128)
        while n < 63 and not (1 << n) > maxn // 2:
            n += 1
        p = min(0x3fffffff, (ops // 4) // (1 << n)) // r
    return n, r, p


def le_int(s):
    b = const_bytes(s) if isT(s, 'seq') else None
    return int.from_bytes(b, 'little') if b is not None and len(b) == 8 else None


def params_of(t):
    """constant (n, r, p) of an scrypt parameter value, or None"""
    if isT(t, 'scparams'):
        r = [x.a[0] if isT(x, 'k') else None for x in t.a]
        return tuple(r)
    return None


def pw_ok(k, st, pw):
    """is pw exactly the password the caller gave or the first one typed"""
    if k.given:
        return pw is k.pw
    b = pw.a[0][1] if isT(pw, 'seq') and len(pw.a) == 1 and pw.a[0][0] == 'o' else None
    if b is None or not isT(b, 'base') or not isT(b.a[0], 'typed'):
        return False
    return pw.a[0][2] == 0 and pw.a[0][3] is base_len(b)


def exposed(t, secret, seen=None, stop=('enc', 'muladd', 'blake2b', 'scrypt', 'len')):
    """a secret atom that occurs in t outside one-way functions and keystream encryption, or None"""
    seen = set() if seen is None else seen
    if isinstance(t, tuple):
        for x in t:
            r = exposed(x, secret, seen, stop)
            if r is not None:
                return r
        return None
    if not isinstance(t, T) or t in seen:
        return None
    seen.add(t)
    if t.op in stop:
        return None
    if secret(t):
        return t
    if t.op == 'bitxor':
        p, k, j = dexor(t)
        if k is not None:
            return None
    for a in t.a:
        r = exposed(a, secret, seen, stop)
        if r is not None:
            return r
    return None


def secret_of_generation(t):
    """raw random seed bytes (anything filled from the random source but key id and salt is decided by position) or typed passwords"""
    return isT(t, 'sha512')


# ------------------------------------------------------------------ C10
def c10(ctx):
    """Every password-taking key generation function, with the password given and typed, on all paths: in every Ok state the returned
    key is tagged as scrypt-protected, every byte of its secret part, id and checksum is a plain byte combined with a byte of the
    scrypt output over exactly that password and the key's own fresh salt, the plain checksum is over the plain key, and nothing that
    is written contains a byte of the plain secret."""
    kv, kp = ctx.view('SecretKey'), ctx.view('KeyPair')
    n = 0
    for f in generation_roots(ctx):
        if not any(k == 'password' for k in opt_string_args(ctx, f).values()):
            ctx.ob(not is_protected(f), canon(f['p']), 'protected key generation takes a password')
            continue
        for k in key_runs(ctx, f):
            eng, nm = k.eng, k.name
            oks = k.run.oks()
            ctx.ob(bool(oks), nm, 'some execution succeeds (the rule is not vacuous)', k.label)
            for st, v in oks:
                n += 1
                sk = kp.get(v, 'sk')
                ctx.ob(is_bytes(eng, st, kv.get(sk, 'kdf_alg'), TAG_KDF), nm, 'the key is tagged as scrypt-protected', k.label + show(kv.get(sk, 'kdf_alg'))[:80])
                d = decrypt_view(eng, st, kv, sk)
                streams = {x[0] for r in ENCROLES for x in d[r][1] if x is not None}
                plain = [(r, i) for r in ENCROLES for i, x in enumerate(d[r][1]) if x is None]
                if not ctx.ob(not plain, nm, 'every byte of key id, secret key and checksum is encrypted', k.label + 'not encrypted: %s' % plain[:4]):
                    continue
                ctx.ob(len(streams) == 1, nm, 'one scrypt output encrypts the whole key', k.label)
                sc = list(streams)[0].a[0]
                ctx.ob(pw_ok(k, st, sc.a[0]), nm, 'the keystream is derived from exactly the password', k.label + show(sc.a[0])[:160])
                salt = kv.get(sk, 'kdf_salt')
                ctx.ob(sc.a[1] is salt, nm, 'the keystream is derived with the salt stored in the key', k.label + show(sc.a[1])[:160])
                b = one_base(salt, 'base', 32)
                ctx.ob(b is not None and isT(b.a[0], 'rand') and base_len(b) == 32, nm, 'all 32 salt bytes are freshly random', k.label + show(salt)[:160])
                pk_ = d['sk'][0]
                dg = mk('blake2b', 32, concat(kv.get(sk, 'sig_alg'), d['keynum'][0], pk_))
                bad = [i for i in range(32) if byte(eng, st, d['chk'][0], i) is not at(dg, i)]
                ctx.ob(not bad, nm, 'the checksum is computed over the plain key before encryption', k.label + 'byte %s: %s' % (bad[:1], show(byte(eng, st, d['chk'][0], bad[0]))[:200] if bad else ''))
                seeds = {g[1] for g in eng.subseq(st, pk_, 0, 32).a if g[0] == 'o'}
                ctx.ob(bool(seeds), nm, 'the plain secret part is recognisable', k.label)
                for key, t in st.gh.items():
                    if key[0] == 'out':
                        x = exposed(t, lambda q: q in seeds or isT(q, 'sha512'))
                        ctx.ob(x is None, nm, 'nothing written contains plain secret bytes', k.label + '%s: %s' % (show(key[1])[:60], show(x)[:160] if x is not None else ''))
    ctx.ob(n >= 4, '(all)', 'successful executions were analysed', str(n))


# ------------------------------------------------------------------ C11
def layout(ctx):
    """{role: offset} of the secret key's parts in its byte form, from the decoder"""
    kv = ctx.view('SecretKey')
    eng = ctx.engine()
    s = eng.sym_seq(mk('sym', 'bytes'), mk('len', mk('sym', 'bytes'), ty='usize'), None)
    r = ctx.run('SecretKey::from_bytes', [cref(s)], eng=eng)
    off = {}
    for st, v in r.oks():
        for role, n in ROLES['SecretKey']:
            q = kv.get(v, role)
            g = q.a[0] if isT(q, 'seq') and len(q.a) == 1 else None
            if g and g[0] == 'o' and isinstance(g[2], int) and g[3] == g[2] + n:
                off[role] = g[2]
    if len(off) != 9:
        raise Gap('the secret key decoder does not place every part at a fixed position')
    return off


def decoded_base(v):
    """the decoded base64 bytes a value is taken from"""
    b = {t for t in subterms(v) if isT(t, 'base') and isT(t.a[0], 'b64d')}
    return b


def crypt_map(ctx, eng, st, k, kv, sk, label):
    """check the encryption of sk; {role: [(index) per byte]} or None"""
    nm = k.name
    d = decrypt_view(eng, st, kv, sk)
    pos = {r: [x[1] if x else None for x in d[r][1]] for r in ENCROLES}
    plain = [(r, i) for r in ENCROLES for i, x in enumerate(d[r][1]) if x is None]
    if not ctx.ob(not plain, nm, 'every byte of key id, secret key and checksum is combined with a keystream byte', label + str(plain[:4])):
        return None, None
    again = [(r, i) for r in ENCROLES for i in range(seqlen(d[r][0])) if dexor(byte(eng, st, d[r][0], i))[1] is not None]
    ctx.ob(not again, nm, 'each byte is combined with exactly one keystream byte', label + str(again[:4]))
    streams = {x[0] for r in ENCROLES for x in d[r][1]}
    ctx.ob(len(streams) == 1, nm, 'a single scrypt output is used', label)
    al = [j for r in ENCROLES for j in pos[r]]
    ctx.ob(len(set(al)) == len(al), nm, 'no keystream byte is used twice', label)
    sc = list(streams)[0]
    ctx.ob(isinstance(base_len(sc), int) and max(al) < base_len(sc), nm, 'the keystream is long enough', label)
    sc = sc.a[0]
    ctx.ob(pw_ok(k, st, sc.a[0]), nm, 'scrypt gets the whole password', label + show(sc.a[0])[:160])
    ctx.ob(sc.a[1] is kv.get(sk, 'kdf_salt'), nm, 'scrypt gets the salt stored in the key', label + show(sc.a[1])[:160])
    return pos, (d, sc)


def c11(ctx):
    """Key generation and key opening, all paths: the byte-wise map between plain and stored key bytes is computed as terms; each byte
    must be combined with one keystream byte, all keystream indices distinct and the same for encryption and decryption, every other
    field unchanged, and scrypt must be called with whole password, stored salt and the parameters the stored limits stand for."""
    kv, kp = ctx.view('SecretKey'), ctx.view('KeyPair')
    maps = []
    for f in generation_roots(ctx):
        if not any(k == 'password' for k in opt_string_args(ctx, f).values()):
            continue
        for k in key_runs(ctx, f):
            for st, v in k.run.oks():
                sk = kp.get(v, 'sk')
                pos, x = crypt_map(ctx, k.eng, st, k, kv, sk, k.label)
                if pos is None:
                    continue
                maps.append((k.name, pos))
                ops, mem = le_int(kv.get(sk, 'kdf_opslimit_le')), le_int(kv.get(sk, 'kdf_memlimit_le'))
                if ctx.ob(ops is not None and mem is not None, k.name, 'the limits stored in a new key are known', k.label):
                    ctx.ob(params_of(x[1].a[2]) == scparams_ref(mem, ops), k.name, 'scrypt gets the parameters the stored limits stand for',
                           k.label + 'got %s, format prescribes %s' % (params_of(x[1].a[2]), scparams_ref(mem, ops)))
    off = layout(ctx)
    n = 0
    limits = [None, (1 << 20, 1 << 25), (1 << 25, 1 << 30), (1 << 20, 1 << 24), (1 << 16, 1 << 28), (1 << 22, 1 << 26), (0, 1 << 14)]
    if ctx.tier == 'thorough':
        limits += [(1 << a, 1 << b) for a in range(14, 30, 3) for b in range(12, 31, 3)]
    for f in opening_roots(ctx):
        if canon(f['p']) in ('SecretKey::from_unencrypted_box', 'SecretKeyBox::into_unencrypted_secret_key'):
            continue
        for lim in limits:
            opts = {}
            if lim:
                ref = scparams_ref(lim[1], lim[0])
                if ref[2] == 0:
                    continue
                a, b = sorted((off['kdf_opslimit_le'], off['kdf_memlimit_le']))
                vals = {off['kdf_opslimit_le']: lim[0], off['kdf_memlimit_le']: lim[1]}
                base_ = mk('base', mk('sym', 'boxdata'), 158)
                opts['b64d'] = mkseq([('o', base_, 0, a), ('e', tuple(vals[a].to_bytes(8, 'little'))), ('o', base_, a + 8, b),
                                      ('e', tuple(vals[b].to_bytes(8, 'little'))), ('o', base_, b + 8, 158)])
            for k in key_runs(ctx, f, opts=opts):
                lab = k.label + ('limits %s ' % (lim,) if lim else '')
                oks = k.run.oks()
                ctx.ob(bool(oks), k.name, 'some execution succeeds (the rule is not vacuous)', lab)
                for st, sk in oks:
                    n += 1
                    pos, x = crypt_map(ctx, k.eng, st, k, kv, sk, lab)
                    if pos is None:
                        continue
                    maps.append((k.name, pos))
                    if lim:
                        ctx.ob(params_of(x[1].a[2]) == ref, k.name, 'scrypt gets the parameters the stored limits stand for',
                               lab + 'got %s, format prescribes %s' % (params_of(x[1].a[2]), ref))
                        raw = opts['b64d']
                    else:
                        bs = decoded_base(sk)
                        if not ctx.ob(len(bs) == 1, k.name, 'the key is decoded from one base64 text', lab):
                            continue
                        raw = sq_base(list(bs)[0])
                    for role, w in ROLES['SecretKey']:
                        got = x[0][role][0] if role in ENCROLES else kv.get(sk, role)
                        bad = [i for i in range(w) if not eqk(k.eng, st, byte(k.eng, st, got, i), byte(k.eng, st, raw, off[role] + i))]
                        ctx.ob(not bad, k.name, 'apart from the keystream, the %s of the key is what was stored' % role, lab + 'bytes %s' % bad[:4])
    for nm, pos in maps[1:]:
        ctx.ob(pos == maps[0][1], nm, 'encryption and decryption combine the same key byte with the same keystream byte', 'compared with %s' % maps[0][0])
    ctx.ob(n >= 12, '(all)', 'opened keys were analysed', str(n))


# ------------------------------------------------------------------ C22
def c22(ctx):
    """Every key generation function, all paths: in every Ok state the seed, key id and salt are each exactly one complete, distinct fill
    from the random source, the public key is the encoded base multiple of the clamped seed digest in both halves, ids, tags and the
    checksum agree; no Ok state follows a failed random fill; PublicKey::from_secret_key of the plain key is the generated public key."""
    kv, kp, pv = ctx.view('SecretKey'), ctx.view('KeyPair'), ctx.view('PublicKey')
    n = 0
    for f in generation_roots(ctx):
        for k in key_runs(ctx, f, opts={'failsites': True}):
            eng, nm, lab = k.eng, k.name, k.label
            oks = k.run.oks()
            ctx.ob(bool(oks), nm, 'some execution succeeds (the rule is not vacuous)', lab)
            for st, v in oks:
                n += 1
                sk, pk = kp.get(v, 'sk'), kp.get(v, 'pk')
                d = decrypt_view(eng, st, kv, sk)
                psk, pid, pchk = d['sk'][0], d['keynum'][0], d['chk'][0]
                ctx.ob(is_bytes(eng, st, kv.get(sk, 'sig_alg'), TAG_SIG) and is_bytes(eng, st, pv.get(pk, 'sig_alg'), TAG_SIG), nm, 'both halves are tagged "Ed"', lab)
                ctx.ob(is_bytes(eng, st, kv.get(sk, 'chk_alg'), TAG_CHK), nm, 'the secret key is tagged with checksum algorithm "B2"', lab)
                want = TAG_KDF if is_protected(f) else TAG_NONE
                ctx.ob(is_bytes(eng, st, kv.get(sk, 'kdf_alg'), want), nm, 'the secret key has the key-derivation tag of its kind', lab)
                seed = eng.subseq(st, psk, 0, 32)
                sb, ib = one_base(seed, 'base', 32), one_base(pid, 'base', 8)
                ctx.ob(sb is not None and isT(sb.a[0], 'rand') and base_len(sb) == 32, nm, 'all 32 seed bytes are freshly random', lab + show(seed)[:160])
                ctx.ob(ib is not None and isT(ib.a[0], 'rand') and base_len(ib) == 8, nm, 'all 8 key id bytes are freshly random', lab + show(pid)[:160])
                ctx.ob(sb is None or ib is None or sb is not ib, nm, 'seed and key id are separate random values', lab)
                if is_protected(f):
                    tb = one_base(kv.get(sk, 'kdf_salt'), 'base', 32)
                    ctx.ob(tb is not None and isT(tb.a[0], 'rand') and base_len(tb) == 32, nm, 'all 32 salt bytes are freshly random', lab + show(kv.get(sk, 'kdf_salt'))[:160])
                    ctx.ob(tb is None or (tb is not sb and tb is not ib), nm, 'the salt is a random value of its own', lab)
                p = pv.get(pk, 'pk')
                e = one_base(p, 'enc', 32)
                a = e.a[0].a[0] if e is not None and isT(e.a[0], 'smb') else None
                if ctx.ob(a is not None, nm, 'the public key is an encoded multiple of the base point', lab + show(p)[:160]):
                    w = is_clamped_digest(eng, st, a, seed)
                    ctx.ob(w is None, nm, 'the public key is derived from the seed', lab + str(w))
                bad = [i for i in range(32) if byte(eng, st, psk, 32 + i) is not byte(eng, st, p, i)]
                ctx.ob(not bad, nm, 'the secret key carries the public key', lab + 'byte %s' % bad[:1])
                bad = [i for i in range(8) if byte(eng, st, pid, i) is not byte(eng, st, pv.get(pk, 'keynum'), i)]
                ctx.ob(not bad, nm, 'both halves carry the same key id', lab + 'byte %s' % bad[:1])
                dg = mk('blake2b', 32, concat(kv.get(sk, 'sig_alg'), pid, psk))
                bad = [i for i in range(32) if byte(eng, st, pchk, i) is not at(dg, i)]
                ctx.ob(not bad, nm, 'the checksum is over the final key', lab + 'byte %s' % bad[:1])
                ctx.ob(not st.gh.get(('fail',), 0), nm, 'success only if the random source never failed', lab + show(st.gh.get(('fail',), 0))[:120])
                if not d['sk'][1][0]:
                    g = ctx.run('PublicKey::from_secret_key', [cref(sk)], eng=eng, st=st.copy())
                    gs = g.oks()
                    ctx.ob(len(gs) >= 1 and not g.errs(), 'PublicKey::from_secret_key', 'the public key can be regenerated from a generated secret key', lab)
                    for s2, q in gs:
                        same = all(pv.get(q, r) is pv.get(pk, r) for r in pv.paths)
                        ctx.ob(same, 'PublicKey::from_secret_key', 'regenerating gives the generated public key, id included', lab + show(q)[:200])
    # on any secret key, the regenerated public key is its id and its public half
    eng = ctx.engine()
    sk = kv.fresh(eng, 'sk')
    g = ctx.run('PublicKey::from_secret_key', [cref(sk)], eng=eng)
    for st, q in g.oks():
        ctx.ob(seq_known_eq(eng, st, pv.get(q, 'keynum'), kv.get(sk, 'keynum'), 8) is None, 'PublicKey::from_secret_key', 'the id is that of the secret key')
        ctx.ob(seq_known_eq(eng, st, pv.get(q, 'pk'), eng.subseq(st, kv.get(sk, 'sk'), 32, 64), 32) is None, 'PublicKey::from_secret_key', 'the key is the public half of the secret key')
        ctx.ob(seq_known_eq(eng, st, pv.get(q, 'sig_alg'), kv.get(sk, 'sig_alg'), 2) is None or is_bytes(eng, st, pv.get(q, 'sig_alg'), TAG_SIG),
               'PublicKey::from_secret_key', 'the algorithm tag is that of the secret key')
    ctx.ob(bool(g.oks()), 'PublicKey::from_secret_key', 'some key is accepted (the rule is not vacuous)')
    ctx.ob(n >= 6, '(all)', 'successful executions were analysed', str(n))


# ------------------------------------------------------------------ C12
def val(t):
    return t.a[0] if isT(t, 'k') else t


def c12(ctx):
    """Every call of scrypt reachable from a public function, in every abstract state it is reached in: the interval of the cost
    exponent, of 128*r*2^n and of 128*r*p must stay below the fixed limits (2^20 blocks, 1 GiB, 1 GiB)."""
    calls = [0]

    def upper(eng, st, t):
        t = val(t)
        if isinstance(t, int):
            return t
        hi = eng.trange(st, t)[1]
        s = eng.singleton(st, t)
        return s if s is not None else hi

    def hook(k, kind, st, data, site):
        if kind != 'kdf':
            return
        calls[0] += 1
        p = data[2]
        c = '%s (from %s)' % (site[1] if site else '?', k.name)
        if not ctx.ob(isT(p, 'scparams'), c, 'the scrypt parameters are known values', show(p)[:160]):
            return
        n, r, q = (upper(k.eng, st, x) for x in p.a)
        ctx.ob(n is not None and n <= 20, c, 'the cost is at most 2^20 blocks', 'log2 N up to %s' % n)
        ctx.ob(None not in (n, r) and n < 64 and 128 * r * (1 << n) <= 1 << 30, c, 'the working memory is at most 1 GiB', 'log2 N up to %s, r up to %s' % (n, r))
        ctx.ob(None not in (q, r) and 128 * r * q <= 1 << 30, c, 'the parallel lanes take at most 1 GiB', 'r up to %s, p up to %s' % (r, q))
    roots = 0
    for f in opening_roots(ctx) + generation_roots(ctx):
        roots += 1
        key_runs(ctx, f, hook=hook)
    ctx.ob(calls[0] >= 6, '(all)', 'calls of scrypt were analysed', '%d states, %d roots' % (calls[0], roots))
    # no other public function reaches scrypt
    cg = CallGraph(ctx.prog)
    mine = [f['key'] for f in opening_roots(ctx) + generation_roots(ctx)]
    for f in ctx.public():
        if f['key'] in mine:
            continue
        hit = [' -> '.join(x[1]) for c, x in cg.externals(f['key']).items() if c == 'scrypt::scrypt']
        ctx.ob(not hit, canon(f['p']), 'no other function runs the key derivation', str(hit[:2]))


# ------------------------------------------------------------------ C25
def local_error(v):
    """an error made by the library itself, as opposed to one coming from a fallible operation"""
    return not mentions(v, lambda t: t.op == 'err')


def typed_len(n):
    return mk('len', mk('typed', n), ty='usize')


def c25(ctx):
    """Key generation and opening with a password given and with none, all paths: prompts are counted, in Ok states the key derivation
    must have been given exactly the supplied or the (first) typed password, a typed one must be known to have at most 1024 bytes, two
    typed ones to be equal; errors raised between the prompt and the key derivation must imply more than 1024 bytes or a mismatch."""
    off = layout(ctx)
    a, b = sorted((off['kdf_opslimit_le'], off['kdf_memlimit_le']))
    vals = {off['kdf_opslimit_le']: 1 << 20, off['kdf_memlimit_le']: 1 << 25}
    base_ = mk('base', mk('sym', 'boxdata'), 158)
    good = mkseq([('o', base_, 0, a), ('e', tuple(vals[a].to_bytes(8, 'little'))), ('o', base_, a + 8, b),
                  ('e', tuple(vals[b].to_bytes(8, 'little'))), ('o', base_, b + 8, 158)])
    n = 0
    for f in opening_roots(ctx) + generation_roots(ctx):
        gen = canon(f['p']) in GEN or out_adt(ctx, f)[0] == 'KeyPair'
        for k in key_runs(ctx, f, opts={'b64d': good}):
            eng, nm, lab = k.eng, k.name, k.label
            want = 0 if k.given or k.given is None else 2 if gen else 1
            oks = k.run.oks()
            ctx.ob(bool(oks), nm, 'some execution succeeds (the rule is not vacuous)', lab)
            for st, v in oks:
                n += 1
                pr = st.gh.get(('prompts',), 0)
                ctx.ob(pr == want, nm, 'the password is prompted for %s' % ('never when supplied or not needed' if want == 0 else 'once' if want == 1 else 'twice'), lab + 'prompts: %s' % pr)
                kd = kdfs(st)
                if k.given is None:
                    ctx.ob(not kd, nm, 'no key derivation without a password', lab)
                    continue
                ctx.ob(len(kd) == 1, nm, 'the key derivation runs once', lab + str(len(kd)))
                for e in kd:
                    ctx.ob(pw_ok(k, st, e.a[1]), nm, 'the key derivation gets exactly the password', lab + show(e.a[1])[:160])
                if not k.given:
                    for i in range(1, want + 1):
                        hi = eng.trange(st, typed_len(i))[1]
                        ctx.ob(same_or_bounded(eng, st, i, want), nm, 'a typed password of more than 1024 bytes is refused', lab + 'password %d up to %s bytes' % (i, hi))
                    if gen:
                        s1, s2 = (sq_base(mk('base', mk('typed', i), typed_len(i))) for i in (1, 2))
                        ctx.ob(eng.truth(st, eng.seq_eq(st, s1, s2)) == 1, nm, 'two typed passwords are accepted only if they are equal', lab)
            if k.given == 0 or k.given:
                for st, e in k.run.errs():
                    pr = st.gh.get(('prompts',), 0)
                    if kdfs(st) or not local_error(e) or (pr == 0 and not k.given):
                        continue
                    if k.given:
                        # no error of the library's own may refuse a supplied password; tag errors do not depend on it
                        if mentions_pw(eng, st, k):
                            ctx.fail(nm, 'a supplied password is never refused', lab + show(e)[:200])
                        continue
                    n += 1
                    s1, s2 = (sq_base(mk('base', mk('typed', i), typed_len(i))) for i in (1, 2))
                    why = any(eng.nonneg(st, ladd(typed_len(i), -1025)) for i in range(1, pr + 1)) or \
                        (gen and pr == 2 and eng.truth(st, eng.seq_eq(st, s1, s2)) == 0)
                    ctx.ob(why, nm, 'a typed password is refused only when it has more than 1024 bytes or the two differ', lab + show(e)[:200])
    ctx.ob(n >= 12, '(all)', 'executions were analysed', str(n))


def same_or_bounded(eng, st, i, want):
    if eng.nonneg(st, ladd(1024, typed_len(i), -1)):
        return True
    hi = eng.trange(st, typed_len(i))[1]
    if hi is not None and hi <= 1024:
        return True
    if want == 2:
        o = 3 - i
        s1, s2 = (sq_base(mk('base', mk('typed', j), typed_len(j))) for j in (1, 2))
        return eng.truth(st, eng.seq_eq(st, s1, s2)) == 1 and eng.nonneg(st, ladd(1024, typed_len(o), -1))
    return False


def mentions_pw(eng, st, k):
    """do the facts on this path say anything about the password"""
    n = base_len(k.pw.a[0][1])
    for t in st.facts:
        if any(x is k.pw.a[0][1] or x is n for x in subterms(t)):
            return True
    for l in st.lins:
        if any(x is n for x in subterms(l)):
            return True
    return False
