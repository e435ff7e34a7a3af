"""Rules about effects and sharing: C27, C28."""
import re
from .base import *
from .base import Gap, canon, cref
from .callgraph import CallGraph, callee_infos
from .engine import OPT
from .rules_keys import opt_string_args, roots_returning

# ------------------------------------------------------------------ effects of functions without an analysed body
# longest match wins; None is "no effect beyond its arguments"
EFFECTS = [
    (r'getrandom::getrandom|getrandom::(fill|u32|u64)|getrandom::getrandom_uninit', 'random source'),
    (r'std::hash::RandomState|std::collections::hash_map::RandomState|std::hash::random|std::random', 'random source'),
    (r'std::time::(SystemTime|Instant|UNIX_EPOCH)', 'clock'),
    (r'std::time::Duration', None),
    (r'rpassword::', 'password prompt'),
    (r'std::io::(stdio::)?(stdin|Stdin|StdinLock|read_to_string)\b', 'standard input'),
    (r'std::io::(stdio::)?(stdout|Stdout|StdoutLock|_print|print_to)\b', 'standard output'),
    (r'std::io::(stdio::)?(stderr|Stderr|StderrLock|_eprint)\b', 'standard error'),
    (r'std::fs::(read|read_to_string|read_dir|read_link|metadata|symlink_metadata|exists|canonicalize)$', 'file read'),
    (r'std::fs::File::(open|metadata|open_buffered)$', 'file read'),
    (r'std::fs::File::(create|create_new|options|set_len|set_permissions|create_buffered|set_modified|set_times)', 'file system change'),
    (r'std::fs::OpenOptions|std::fs::', 'file system change'),
    (r'(<&?std::fs::File as std::io::Read>|<std::fs::File as std::io::Seek>)', 'file read'),
    (r'<&?std::fs::File as std::io::Write>', 'file system change'),
    (r'std::path::Path::(exists|is_file|is_dir|metadata|try_exists|canonicalize|read_dir|read_link|is_symlink|symlink_metadata)', 'file read'),
    (r'std::env::', 'environment'),
    (r'std::net::', 'network'),
    (r'std::process::(exit|abort)', 'process exit'),
    (r'std::process::', 'process start'),
    (r'std::(thread|thread_local)::', 'thread'),
    (r'(std|core)::(os|sys|sys_common|arch|backtrace|panic|personality)::|libc::', 'operating system'),
    # the rest of the standard library computes
    (r'(std|core|alloc)::', None),
    (r'(ct_codecs|scrypt)::', None),
]
EFFECTS = [(re.compile(p), e) for p, e in EFFECTS]


def heads(path):
    """the item a path belongs to: the trait or type of <A as B>::f, else the path itself"""
    p = path
    m = re.match(r'^<(.*)>::', p)
    if m:
        inner = m.group(1)
        d, cut = 0, None
        for i, c in enumerate(inner):
            d += c in '<([' and 1 or 0
            d -= c in '>)]' and 1 or 0
            if d == 0 and inner.startswith(' as ', i):
                cut = i
        if cut is not None:
            return [inner[:cut].lstrip('&').replace('mut ', '').lstrip('*').replace('const ', ''), inner[cut + 4:]]
        return [inner]
    m = re.search(r'<impl (.*?) for (.*?)>', p)
    if m:
        return [m.group(2), m.group(1)]
    return [p]


def effect_of(path):
    """(known, effect or None)"""
    whole = [path] + heads(path)
    hit = None
    for i, h in enumerate(whole):
        for rx, e in EFFECTS:
            if rx.match(h):
                if e is not None:
                    return True, e
                hit = True
                break
    if hit:
        return True, None
    # traits and inherent impls of primitive types
    if re.match(r'^(\[?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|bool|char|str|f32|f64|T|Self|\(\))\b|\[|<impl )', whole[-1 if len(whole) > 1 else 0]):
        return True, None
    return False, 'unknown foreign function'


TERMINAL = {'password prompt', 'standard output', 'standard input', 'standard error'}


def allowed(ctx, f, gens, opens, files):
    nm = canon(f['p'])
    a = set()
    if nm == 'verify':
        a |= {'standard output', 'standard error'}
    if nm == 'sign':
        a |= {'random source', 'clock'}
    if nm in gens:
        a |= {'random source'}
        if 'password' in opt_string_args(ctx, f).values():
            a |= TERMINAL
    if nm in opens and 'password' in opt_string_args(ctx, f).values():
        a |= TERMINAL
    if nm in files:
        a |= {'file read'}
    if nm == 'PError::exit':
        a |= {'process exit', 'standard error'}
    return a


def c27(ctx):
    """Computes, over the call graph of the type-checked program (closures, drops, formatting and trait methods of local types
    included), the effects each public function can reach: every function without an analysed body is classified as random source,
    clock, terminal, file, environment, network, process, thread, operating system, or free of effects (an unknown one is an
    effect), and so are inline assembly, mutable and interior-mutable statics and thread locals.  Each public function may
    only reach the effects its role allows, and the load-from-file functions read only the path they were given."""
    cg = CallGraph(ctx.prog)
    gens = {canon(f['p']) for f in roots_returning(ctx, 'KeyPair')}
    opens = {canon(f['p']) for f in roots_returning(ctx, 'SecretKey')}
    files = {'PublicKey::from_file', 'SecretKey::from_file', 'SignatureBox::from_file'}
    n_ext, n_static = 0, set()
    classes = {}
    sites = {}
    seen_effects = {}
    statics = ctx.prog.statics
    for f in ctx.public():
        nm = canon(f['p'])
        al = allowed(ctx, f, gens, opens, files)
        reach = cg.reach(f['key'])
        visited = None
        for k in sorted(reach):
            b = ctx.prog.bodies.get(k)
            if b is None or b.crate != ctx.prog.crate:
                continue
            for blk, p, e in site_effects(cg, sites, k):
                n_ext += 1
                classes.setdefault(e or 'none', set()).add(p)
                if e is None:
                    continue
                seen_effects.setdefault(nm, set()).add(e)
                bad = e not in al
                if bad:
                    # the call graph has a path; is there one through the branches of the functions on it?
                    if visited is None:
                        visited = paths_taken(ctx, f)
                    fns, blocks = visited
                    bad = blocks is None or (k, blk) in blocks or k not in fns and live(cg, reach, k, fns, blocks, f['key'])
                chain = [canon(ctx.prog.bodies[x].path) for x in reach[k] if ctx.prog.bodies[x].crate == ctx.prog.crate]
                ctx.ob(not bad, '%s -> %s' % (nm, canon(b.path)), 'reaches only the effects its role allows', '%s (%s) through %s' % (p, e, ' -> '.join(chain)))
        ctx.fns |= {k for k in reach if k in ctx.prog.bodies}
        for x, k in sorted(cg.used_statics(f['key']).items()):
            n_static.add(x)
            y = statics.get(x)
            bad = not y or y['mut'] or not y['freeze'] or y['tls']
            if bad and x.startswith('std::io::std') and (al & TERMINAL):
                continue
            ctx.ob(not bad, '%s -> %s' % (nm, canon(ctx.prog.bodies[k].path)), 'uses no mutable global state', x)
        for k in reach:
            b = ctx.prog.bodies.get(k)
            for bl in b.blocks if b else ():
                if bl is not None:
                    ctx.blocks.add((k, id(bl)))
                    if bl['t'][0] not in KNOWN_TERM:
                        ctx.fail('%s -> %s' % (nm, canon(b.path)), 'contains no inline assembly or unknown control flow', str(bl['t'][0]))
    # the expected effects are really seen: the classification is not vacuous
    for nm, e in (('sign', 'random source'), ('sign', 'clock'), ('verify', 'standard output'), ('PublicKey::from_file', 'file read'),
                  ('SecretKey::from_file', 'file read'), ('KeyPair::generate_unencrypted_keypair', 'random source'),
                  ('SecretKeyBox::into_secret_key', 'password prompt'), ('PError::exit', 'process exit')):
        ctx.ob(e in seen_effects.get(nm, ()), nm, 'its known effect "%s" is seen by the analysis' % e)
    ctx.ob(len(ctx.public()) >= 40, '(all)', 'public functions were analysed', str(len(ctx.public())))
    ctx.notes.append('%d (public function, external function) pairs; statics used: %d; external functions by class: %s' % (
        n_ext, len(n_static), '; '.join('%s %d' % (k, len(v)) for k, v in sorted(classes.items()))))
    # only the named file
    for nm in sorted(files):
        f = ctx.fn(nm)
        r = ctx.run(f, [None] * len(f['in']))
        want = r.args[0]
        for st, v in r.outs:
            evs = [e for e in flat_events(st) if e.a[0] == 'fsread']
            for e in evs:
                ctx.ob(path_of(e.a[1]) is not None and '$arg0' in show(e.a[1]) and not any(isT(t, 'sym') and t.a[0] != 'arg0' for t in subterms(e.a[1])),
                       nm, 'reads only the file it was given', show(e.a[1])[:200])
        ctx.ob(any(e.a[0] == 'fsread' for st, v in r.outs for e in flat_events(st)), nm, 'the file is read')


def site_effects(cg, memo, k):
    """[(block, external path, effect)] of a local body: what each block calls, through bodies of other crates if need be"""
    if k in memo:
        return memo[k]
    b = cg.prog.bodies[k]
    out = []
    for i, bl in enumerate(b.blocks):
        if bl is None:
            continue
        infos = []
        callee_infos(bl['s'], infos)
        callee_infos(bl['t'], infos)
        seen = set()
        for ci in infos:
            if 'static' in ci:
                continue
            key = ci.get('key')
            if key in cg.prog.bodies:
                if cg.prog.bodies[key].crate == cg.prog.crate:
                    continue
                ps = foreign(cg, key)
            else:
                ps = {ci.get('r') or ci['p']}
            for p in sorted(ps - seen):
                seen.add(p)
                known, e = effect_of(p)
                out.append((i, p, e))
    memo[k] = out
    return out


def foreign(cg, key):
    """external functions reachable from a body of another crate without entering this crate's own functions"""
    memo = cg.__dict__.setdefault('foreign_memo', {})
    if key in memo:
        return memo[key]
    seen, todo, out = {key}, [key], set()
    while todo:
        k = todo.pop()
        succ, ext = cg.out(k)
        out |= {p for p, ci in ext}
        for n in succ:
            if n not in seen and n in cg.prog.bodies and cg.prog.bodies[n].crate != cg.prog.crate:
                seen.add(n)
                todo.append(n)
    memo[key] = out
    return out


def paths_taken(ctx, f):
    """(functions, blocks) some path of f enters, by abstract execution; (None, None) if it cannot be decided"""
    try:
        r = ctx.run(f, [None] * len(f['in']))
    except Gap:
        return None, None
    return r.eng.visited_fns, r.eng.visited_blocks


def live(cg, reach, k, fns, blocks, root):
    """is body k entered on a path the abstract execution takes: walk the call graph through visited blocks only; a function the
    execution replaces by a model (never entered, though called from a visited block) is walked whole"""
    seen, todo = {root}, [root]
    while todo:
        x = todo.pop()
        if x == k:
            return True
        b = cg.prog.bodies.get(x)
        if b is None:
            continue
        infos = []
        for i, bl in enumerate(b.blocks):
            if bl is None or x in fns and (x, i) not in blocks:
                continue
            callee_infos(bl['s'], infos)
            callee_infos(bl['t'], infos)
        nx = {ci.get('key') for ci in infos} & set(cg.prog.bodies)
        whole = cg.out(x)[0]
        # closures, drops and trait methods handed to other functions: attributed to the body as a whole
        direct = set()
        for bl in b.blocks:
            if bl is not None:
                ys = []
                callee_infos(bl['s'], ys)
                callee_infos(bl['t'], ys)
                direct |= {ci.get('key') for ci in ys}
        nx |= {n for n in whole if n not in direct and (n in fns or not cg.prog.bodies[n].parent)} if x in fns else whole
        for n in nx:
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return False


def path_of(t):
    return t.a[0] if isT(t, 'file') else None


def flat_events(st):
    out = []
    for e in st.ev:
        if e.op == 'evstar':
            out.extend(e.a[0])
        else:
            out.append(e)
    return out


KNOWN_TERM = {'goto', 'sw', 'ret', 'unr', 'drop', 'call', 'assert'}


# ------------------------------------------------------------------ C28
SHARED = ('PublicKey', 'SecretKey', 'KeyPair', 'PublicKeyBox', 'SecretKeyBox', 'SignatureBox', 'SignatureBones', 'PError', 'ErrorKind')
CONTAINERS = ('std::vec::Vec', 'std::string::String', 'std::boxed::Box', 'std::option::Option', 'std::result::Result', 'std::borrow::Cow',
              'std::collections::VecDeque', 'std::collections::BTreeMap', 'std::sync::Arc')


def unshareable(prog, ti, seen=None, where='', dyn_ok=False):
    """a part of the type that may be changed through a shared reference or that hides its sharing rules, or None"""
    seen = set() if seen is None else seen
    if ti in seen or ti is None:
        return None
    seen.add(ti)
    t = prog.types[ti]
    k = t['k']
    if k == 'ptr':
        return where + ': raw pointer'
    if k == 'dyn':
        return None if dyn_ok else where + ': trait object ' + t['d']
    if k in ('array', 'slice', 'ref'):
        return unshareable(prog, t['e'], seen, where, dyn_ok)
    if k == 'tuple':
        for i, x in enumerate(t['f']):
            r = unshareable(prog, x, seen, '%s.%d' % (where, i), dyn_ok)
            if r:
                return r
        return None
    if k == 'adt':
        p = t['p']
        if p in ('std::cell::UnsafeCell', 'std::rc::Rc') or re.match(r'std::(cell|rc|sync::(Mutex|RwLock|OnceLock|LazyLock|atomic|mpsc|poison)|thread)\b', p):
            return '%s: %s' % (where, t['d'])
        if not t.get('local') and (p in CONTAINERS or not t.get('v')):
            for a in t.get('a') or []:
                if isinstance(a, int):
                    r = unshareable(prog, a, seen, where, dyn_ok)
                    if r:
                        return r
            return None
        for v in t.get('v') or []:
            for fn, ft in v['f']:
                r = unshareable(prog, ft, seen, '%s.%s' % (where, fn), dyn_ok)
                if r:
                    return r
    return None


def c28(ctx):
    """Asks the compiler's trait solver whether every public type is Send and Sync, walks the type graph of each for interior
    mutability, raw pointers and hand-written auto-trait impls, requires every static of the crate to be immutable, and shows, by
    abstract execution of every public function that takes a shared reference to such an object, that the object is the
    same value afterwards on every path."""
    prog = ctx.prog
    seen = set()
    for a in prog.adts:
        if not a['pub']:
            continue
        nm = a['p'].rsplit('::', 1)[-1]
        seen.add(nm)
        ctx.ob(a.get('send') is True, nm, 'the type can be sent to another thread (Send)')
        ctx.ob(a.get('sync') is True, nm, 'the type can be shared between threads (Sync)')
        ctx.ob(a['freeze'] is True, nm, 'the type has no interior mutability')
        u = unshareable(prog, a['ty'], where=nm, dyn_ok=(nm == 'PError'))
        ctx.ob(u is None, nm, 'no part of the type can change behind a shared reference', u or '')
    for nm in SHARED:
        ctx.ob(nm in seen, nm, 'the public type exists and was checked')
    ns = 0
    for p, x in sorted(prog.statics.items()):
        if not x or not x.get('local'):
            continue
        ns += 1
        ctx.ob(not x['mut'] and x['freeze'] and not x['tls'], p, 'every static of the library is immutable',
               'mut %s, freeze %s, thread local %s' % (x['mut'], x['freeze'], x['tls']))
    for i in prog.impls:
        if i['trait'] in ('std::marker::Send', 'std::marker::Sync'):
            ctx.notes.append('hand-written %s impl for %s: accepted only because the structural walk found nothing unshareable' % (i['trait'], i['self']))
    # shared objects are the same afterwards
    locals_ = {a['ty'] for a in prog.adts if a['p'].rsplit('::', 1)[-1] in SHARED}
    names = {prog.types[t]['p'] for t in locals_}
    nf = 0
    for f in ctx.public():
        nm = canon(f['p'])
        shared = []
        for i, t in enumerate(f['in']):
            ty = prog.types[t]
            if ty['k'] == 'adt' and ty['p'] == OPT:
                ty = prog.types[ty['v'][1]['f'][0][1]]
            if ty['k'] == 'ref':
                e = prog.types[ty['e']]
                if e['k'] == 'adt' and e['p'] in names:
                    shared.append(i)
                    ctx.ob(ty['m'] in (0, False, 'not', 'Not'), nm, 'objects are taken by shared reference', 'argument %d' % i)
        if not shared or nm == 'PError::exit':
            continue
        nf += 1
        eng = ctx.engine()
        args = [None] * len(f['in'])
        body = prog.bodies[f['key']]
        for i in shared:
            args[i] = eng.make_value(body.locals[i + 1], mk('sym', 'arg%d' % i))
        before = {}
        r = ctx.run(f, args, eng=eng)
        for i in shared:
            v = r.args[i]
            refs = [t for t in subterms(v) if isT(t, 'ref')] if isT(v) else []
            before[i] = [t.a[0] for t in refs]
        ctx.ob(bool(r.outs), nm, 'the function returns on some path')
        for st, v in r.outs:
            for i in shared:
                for root in before[i]:
                    if root in st.mem:
                        try:
                            d = r.eng.root_value(State(), root)
                        except Exception:
                            d = None
                        same = d is not None and (st.mem[root] is d or st.mem[root] == d)
                        ctx.ob(same, nm, 'using the object does not modify it', 'argument %d' % i)
    ctx.ob(nf >= 12, '(all)', 'functions taking shared objects were analysed', str(nf))
    ctx.notes.append('%d public types, %d statics, %d functions taking shared objects' % (len(seen), ns, nf))
