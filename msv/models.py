"""Models of the standard library, of the external crates and of the
cryptographic primitives, as transfer functions on abstract states.

A model is `f(eng, st, ci, args, fr, dty) -> [(state, value)] | None`; None
means "not applicable here", and the callee's own body is analysed instead.
"""
import re
from .terms import *
from .terms import mk, isT
from . import engine as E
from .engine import (OPT, RES, some, NONE, UNIT, ok, err, tup, agg, is_agg, wrap, WID, TYR, signed, LENMAX, UNINIT,
                     Unsupported, gh_default)

MODELS = {}
RANGE = 'std::ops::Range'
RANGEI = 'std::ops::RangeInclusive'
ITER_OPS = {'sit', 'vit', 'zip', 'enumr', 'map', 'cloned', 'rev', 'take', 'skip', 'chain', 'chunks', 'lines', 'optit',
            'filter', 'flatmap', 'peek', 'windows', 'stepby', 'once', 'repeat', 'emptyit', 'splitit', 'inspect', 'takew',
            'filtermap', 'bytesof', 'charsof'}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


_normcache = {}


def split_path(p):
    """split at top-level ::"""
    out, d, cur, i = [], 0, '', 0
    while i < len(p):
        c = p[i]
        if c in '<([':
            d += 1
        elif c in ')]' or (c == '>' and (i == 0 or p[i - 1] != '-')):
            d -= 1
        if d == 0 and p.startswith('::', i):
            out.append(cur)
            cur = ''
            i += 2
            continue
        cur += c
        i += 1
    out.append(cur)
    return out


def norm(p):
    """`std::vec::Vec::<T, A>::push` -> ['vec::Vec::push', 'Vec::push'] ..."""
    r = _normcache.get(p)
    if r is not None:
        return r
    parts = [x for x in split_path(p)]
    out = []
    for x in parts:
        if x.startswith('<impl '):
            y = x[6:-1]
            # `<impl Trait for X>`
            m = re.match(r'(?:.* for )?(.*)$', y)
            y = m.group(1)
            if y.startswith('['):
                y = 'slice' if ';' not in y else 'array'
            elif y.startswith('*const'):
                y = 'ptr'
            elif y.startswith('*mut'):
                y = 'mutptr'
            out.append(y)
        elif x.startswith('<'):
            if not out and ' as ' in x:
                return _normcache.setdefault(p, [p])
            continue
        else:
            out.append(re.sub(r'<.*>$', '', x))
    keys = []
    for n in (3, 2):
        if len(out) >= n:
            keys.append('::'.join(out[-n:]))
    keys.append(out[-1] if len(out) == 1 else '::'.join(out))
    _normcache[p] = keys
    return keys


_lookcache = {}


FN_TRAITS = ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn', 'std::ops::function::FnOnce', 'std::ops::function::FnMut', 'std::ops::function::Fn')


def lookup(eng, ci):
    p, r = ci['p'], ci.get('r')
    if ci.get('trait') in FN_TRAITS:
        return MODELS['FnOnce::call_once']
    if ci.get('rlocal') or (ci.get('local') and r is None):
        return eng.prim.get(r or p)
    k = (p, r)
    if k in _lookcache:
        return _lookcache[k]
    f = None
    for x in ([r] if r else []) + [p]:
        if x in MODELS:
            f = MODELS[x]
            break
    if f is None:
        for n in norm(p):
            if n in MODELS:
                f = MODELS[n]
                break
    if f is None and r and r != p:
        for n in norm(r):
            if n in MODELS:
                f = MODELS[n]
                break
    if f is not None and f is LINES_MARK:
        f = None
    _lookcache[k] = f
    return f


LINES_MARK = object()


# ------------------------------------------------------------------ helpers
def deref(eng, st, v):
    n = 0
    while isT(v, 'ref'):
        v = eng.load(st, v)
        n += 1
        if n > 12:
            break
    return v


def lastref(eng, st, v):
    """innermost reference (the one whose target is not a reference)"""
    while isT(v, 'ref'):
        try:
            w = eng.load(st, v)
        except Unsupported:
            return v
        if not isT(w, 'ref'):
            return v
        v = w
    return v


def as_seq(eng, st, v):
    v = deref(eng, st, v)
    if isT(v, 'seq'):
        return v
    if isT(v, 'fmtargs'):
        return v.a[0]
    if isT(v):
        return sq_base(mk('base', mk('asbytes', v), mk('len', v, ty='usize')))
    return None


def deep(eng, st, v, d=0):
    """value with references replaced by what they point to"""
    if isT(v, 'ref'):
        return deep(eng, st, eng.load(st, v), d + 1)
    if isT(v, 'agg') and d < 8:
        return mk('agg', *[deep(eng, st, x, d + 1) if isinstance(x, T) else x for x in v.a])
    return v


def deep_in(eng, st, it):
    """an iterator with what it borrows"""
    def go(v, d):
        if not isinstance(v, T) or d > 6:
            return v
        if v.op == 'ref':
            try:
                return deep(eng, st, v)
            except Exception:
                return v
        if v.op in ('k', 'sym', 'base', 'seq', 'pyfn'):
            return v
        return mk(v.op, *[go(x, d + 1) for x in v.a], ty=v.ty)
    return go(it, 0)


def cref(v):
    return mk('ref', ('const', v), ())


def need(eng, st, cond, what):
    """a precondition whose failure panics -> False when it certainly fails"""
    t = eng.truth(st, cond)
    if t == 1:
        return True
    if eng.watch and t is None:
        eng.hook('branch', st, (cond,), eng.where())
    eng.panic(st, what, t == 0, cond)
    if t == 0:
        return False
    return eng.assume(st, cond, 1)


def le(eng, st, a, b):
    return eng.compare(st, 'Le', a, b)


def split_bool(eng, st, c):
    """-> [(state, 0/1)]"""
    t = eng.truth(st, c)
    if t is not None:
        return [(st, t)]
    if eng.watch:
        eng.hook('branch', st, (c,), eng.where())
    s2 = st.copy()
    r = []
    if eng.assume(st, c, 1):
        r.append((st, 1))
    if eng.assume(s2, c, 0):
        r.append((s2, 0))
    return r


def errval(eng, st, dty, tag, *extra):
    """an unknown error for a Result-typed destination"""
    st.ctr += 1
    st.gh[('fail',)] = eng.failmark()
    if eng.opts.get('causes'):
        st.gh[('cause', tag)] = 1
    ety = None
    if dty is not None:
        t = eng.prog.types[dty]
        if t['k'] == 'adt' and t['p'] == RES and len(t['a']) > 1:
            ety = t['a'][1]
    return err(mk('symadt', mk('err', tag, st.ctr, *extra), ty=ety))


def fallible(eng, st, dty, tag, good, *extra):
    """[(st_err, Err), (st_ok, good(st))]"""
    s2 = st.copy()
    e = errval(eng, s2, dty, tag, *extra)
    return [(s2, e), (st, good(st))]


def tyname(eng, i):
    return eng.prog.types[i]['d'] if i is not None else ''


def selfty(eng, ci):
    a = ci.get('a') or []
    return eng.prog.types[a[0]] if a and a[0] is not None else {}


def is_str_ty(t):
    return t.get('k') == 'str' or (t.get('k') == 'adt' and t.get('p') == 'std::string::String')


def peel(eng, t):
    while t.get('k') in ('ref', 'ptr'):
        t = eng.prog.types[t['e']]
    return t


def chk_scalar(eng, v):
    return isinstance(v, int) or isT(v)


# ------------------------------------------------------------------ identity-like
@model('String::as_bytes', 'str::as_bytes', 'String::as_str', 'Vec::as_slice', 'Vec::as_mut_slice', 'slice::as_ref',
       'String::as_mut_str', 'array::as_slice', 'array::as_mut_slice', 'str::as_str', 'Deref::deref', 'DerefMut::deref_mut',
       'Borrow::borrow', 'BorrowMut::borrow_mut', 'String::as_mut_vec', 'slice::as_mut', 'str::as_bytes_mut',
       'path::Path::new', 'OsStr::new', 'ops::Deref::deref', 'Box::as_ref', 'Path::as_os_str', 'Vec::as_ref', 'PathBuf::as_path')
def m_ident(eng, st, ci, args, fr, dty):
    if isT(args[0], 'ref'):
        v = eng.load(st, args[0])
        if isT(v, 'box'):
            return [(st, eng.extend_path(st, args[0], ('f', 0, None)))]
    return [(st, args[0])]


@model('AsRef::as_ref', 'AsMut::as_mut')
def m_asref(eng, st, ci, args, fr, dty):
    return [(st, lastref(eng, st, args[0]))]


@model('std::hint::must_use', 'hint::must_use', 'hint::black_box', 'convert::identity', 'String::into_bytes', 'String::into_boxed_str',
       'Vec::into_boxed_slice', 'slice::into_vec', 'str::into_string', 'io::BufReader::new', 'BufReader::new', 'BufWriter::new',
       'LineWriter::new', 'BufReader::with_capacity', 'BufWriter::with_capacity', 'Stdout::lock', 'Stderr::lock', 'io::Read::by_ref', 'io::Write::by_ref',
       'Read::by_ref', 'Write::by_ref', 'Iterator::by_ref', 'String::into_string', 'mem::ManuallyDrop::new', 'ManuallyDrop::new', 'BufReader::into_inner',
       'BufReader::get_mut', 'num::Wrapping', 'Iterator::fuse', 'Box::leak', 'Vec::leak', 'BufReader::get_ref', 'mem::ManuallyDrop::into_inner')
def m_first(eng, st, ci, args, fr, dty):
    if norm(ci['p'])[-1].endswith('with_capacity'):
        return [(st, args[1])]
    return [(st, args[0])]


@model('Clone::clone', 'ToOwned::to_owned', 'slice::to_vec', 'str::to_owned', 'str::to_string', 'Option::cloned', 'Option::copied',
       'String::clone', 'Path::to_path_buf', 'str::into_boxed_str', 'Clone::clone_from', 'slice::to_owned')
def m_clone(eng, st, ci, args, fr, dty):
    n = ci['p'].rsplit('::', 1)[-1]
    if n == 'clone_from':
        eng.store(st, args[0], eng.load(st, args[1]))
        return [(st, UNIT)]
    if n in ('cloned', 'copied'):
        o = args[0]
        if is_agg(o, OPT):
            if o.a[1] == 0:
                return [(st, NONE)]
            return [(st, some(eng.load(st, o.a[2])))]
        return None
    if isT(args[0], 'ref'):
        v = eng.load(st, args[0])
        if n in ('to_vec', 'to_owned', 'to_string'):
            v = deref(eng, st, v)
            if isT(v, 'symadt') and n == 'to_owned' and False:
                return None
        return [(st, v)]
    return None


@model('ToString::to_string')
def m_to_string(eng, st, ci, args, fr, dty):
    v = deref(eng, st, args[0])
    t = peel(eng, selfty(eng, ci))
    if isT(v, 'seq') and (is_str_ty(t) or not t):
        return [(st, v)]
    return [(st, display(eng, st, v, t, 'd', None))]


def display(eng, st, v, t, kind, spec):
    """text of a formatted value"""
    if isT(v, 'seq') and kind == 'd' and (is_str_ty(t) or t.get('d') in ('std::string::String', 'str')) and spec is None:
        return v
    if isinstance(v, int) and kind == 'd' and spec is None and t.get('k') in ('int', 'uint'):
        return sq_bytes(str(v).encode())
    if isinstance(v, int) and kind == 'd' and spec is None and t.get('k') == 'char':
        return sq_bytes(chr(v).encode())
    if isT(v, 'fmtargs'):
        return v.a[0]
    nm = mk('fmt', kind, spec, v if isinstance(v, T) else mk('k', v), t.get('d', ''))
    return sq_base(mk('base', nm, mk('len', nm, ty='usize')))


# ------------------------------------------------------------------ formatting
@model('rt::Argument::new_display', 'rt::Argument::new_lower_hex', 'rt::Argument::new_upper_hex', 'rt::Argument::new_debug',
       'rt::Argument::new_octal', 'rt::Argument::new_binary', 'rt::Argument::new_pointer', 'rt::Argument::new_lower_exp', 'rt::Argument::new_upper_exp',
       'rt::Argument::from_usize', 'rt::Argument::new_debug_noop')
def m_fmtarg(eng, st, ci, args, fr, dty):
    k = {'new_display': 'd', 'new_lower_hex': 'x', 'new_upper_hex': 'X', 'new_debug': '?', 'from_usize': 'u'}.get(ci['p'].rsplit('::', 1)[-1], 'o')
    v = deref(eng, st, args[0])
    # type: fn new_display<T>(x: &T): last generic type argument
    ts = [a for a in (ci.get('a') or []) if a is not None]
    t = peel(eng, eng.prog.types[ts[-1]]) if ts else {}
    return [(st, mk('fmtarg', k, v if isinstance(v, T) else mk('k', v), t.get('d', ''), t.get('k', '')))]


def fmt_template(tb, argv):
    """decode the compiler's format template -> list of bytes | (arg, spec)"""
    out = []
    i = 0
    nxt = 0
    while i < len(tb):
        c = tb[i]
        if c == 0:
            break
        if c < 0x80:
            out.append(tb[i + 1:i + 1 + c])
            i += 1 + c
        elif c == 0x80:
            n = tb[i + 1] | tb[i + 2] << 8
            out.append(tb[i + 3:i + 3 + n])
            i += 3 + n
        else:
            i += 1
            spec = []
            if c & 1:
                spec.append(('f', int.from_bytes(tb[i:i + 4], 'little')))
                i += 4
            if c & 2:
                w = int.from_bytes(tb[i:i + 2], 'little')
                spec.append(('w*' if c & 16 else 'w', w))
                i += 2
            if c & 4:
                spec.append(('p*' if c & 32 else 'p', int.from_bytes(tb[i:i + 2], 'little')))
                i += 2
            if c & 8:
                nxt = int.from_bytes(tb[i:i + 2], 'little')
                i += 2
            out.append((argv[nxt], tuple(spec) or None))
            nxt += 1
    return out


@model('fmt::Arguments::new', 'fmt::Arguments::new_const', 'fmt::Arguments::new_v1')
def m_fmtnew(eng, st, ci, args, fr, dty):
    tb = const_bytes(as_seq(eng, st, args[0]))
    av = elements(as_seq(eng, st, args[1]))
    if tb is None or av is None:
        return None
    segs = []
    for x in fmt_template(tb, av):
        if isinstance(x, bytes):
            segs.append(sq_bytes(x))
        else:
            a, spec = x
            if not isT(a, 'fmtarg'):
                segs.append(display(eng, st, a, {}, '?', spec))
                continue
            v = a.a[1]
            if isT(v, 'k'):
                v = v.a[0]
            segs.append(display(eng, st, v, {'d': a.a[2], 'k': a.a[3]}, a.a[0], spec))
    return [(st, mk('fmtargs', concat(*segs)))]


@model('fmt::Arguments::from_str', 'fmt::Arguments::from_str_nonconst')
def m_fmtstr(eng, st, ci, args, fr, dty):
    return [(st, mk('fmtargs', as_seq(eng, st, args[0])))]


@model('std::fmt::format', 'fmt::format')
def m_format(eng, st, ci, args, fr, dty):
    return [(st, args[0].a[0])] if isT(args[0], 'fmtargs') else None


def writer_of(eng, st, v):
    """('str', ref) for an in-memory growable buffer, ('io', id) for a sink"""
    r = lastref(eng, st, v)
    if isT(r, 'ref'):
        w = eng.load(st, r)
    else:
        w = r
    if isT(w, 'seq'):
        return ('buf', r)
    if isT(w, 'agg') and isT(r, 'ref') and w.a[0] == 'std::io::Cursor':
        return ('cursor', r)
    return ('io', w if isinstance(w, T) else mk('k', w))


def fixed_target(eng, r):
    """does the reference designate storage of fixed length (a slice or an array) rather than a growable buffer"""
    if not isT(r, 'ref'):
        return False
    root, path = r.a
    ti = None
    if isinstance(root, tuple) and len(root) == 2 and root[0] in eng.frames:
        ti = eng.frames[root[0]].locals[root[1]]
    elif isinstance(root, tuple) and root and root[0] == 'sym' and len(root) > 2:
        ti = root[2]
    for e in path:
        if e[0] == 's':
            return True
        if e[0] == 'f':
            ti = e[2] if len(e) > 2 else None
        elif e[0] == 'i':
            t = eng.prog.types[ti] if isinstance(ti, int) else {}
            ti = t.get('e')
    return isinstance(ti, int) and eng.prog.types[ti].get('k') in ('array', 'slice')


def slice_writer(eng, st, v):
    """(place holding the slice reference, the slice reference) when v designates a `&mut [u8]` used as a writer"""
    held = None
    while isT(v, 'ref'):
        w = eng.load(st, v)
        if not isT(w, 'ref'):
            break
        held = v
        v = w
    return (held, v) if held is not None and fixed_target(eng, v) else None


def slice_write(eng, st, sw, data, dty, partial):
    """Write for &mut [u8]: copy what fits to the front and advance the slice"""
    held, sl = sw
    L = eng.ref_len(st, sl)
    n = seqlen(data)
    out = []
    for s, t in split_bool(eng, st, le(eng, st, n, L)):
        if t:
            eng.store(s, eng.extend_path(s, sl, ('s', 0, n)), data)
            eng.store(s, held, eng.extend_path(s, sl, ('s', n, L)))
            out.append((s, ok(n if partial else UNIT)))
        else:
            eng.store(s, sl, eng.subseq(s, data, 0, L))
            eng.store(s, held, eng.extend_path(s, sl, ('s', L, L)))
            out.append((s, ok(L) if partial else errval(eng, s, dty, 'full')))
    return out


def sink_write(eng, st, wid, seq, dty, fail=True, kind='write'):
    """hand a complete buffer to a sink"""
    res = []
    if fail:
        s2 = st.copy()
        eng.event(s2, kind, wid, seq)
        s2.gh[('werr', wid)] = 1
        res.append((s2, errval(eng, s2, dty, 'write', wid)))
    eng.event(st, kind, wid, seq)
    st.gh[('out', wid)] = concat(st.gh.get(('out', wid), EMPTY), seq)
    st.gh[('flushed', wid)] = 0
    res.append((st, ok(UNIT)))
    return res


@model('fmt::Write::write_fmt', 'fmt::Write::write_str', 'io::Write::write_fmt', 'io::Write::write_all', 'Formatter::write_fmt',
       'Formatter::write_str', 'fmt::Write::write_char', 'Stdout::write_fmt', 'String::write_fmt', 'String::write_str', 'fmt::write',
       'Formatter::pad', 'Formatter::write_char')
def m_write(eng, st, ci, args, fr, dty):
    n = ci['p'].rsplit('::', 1)[-1]
    if n == 'write_char':
        data = utf8_of(args[1])
    else:
        data = as_seq(eng, st, args[1])
    k, w = writer_of(eng, st, args[0])
    if k == 'buf':
        sw = slice_writer(eng, st, args[0])
        if sw is not None:
            return slice_write(eng, st, sw, data, dty, False)
        if fixed_target(eng, w):
            return None
        v = eng.load(st, w)
        t = peel(eng, selfty(eng, ci))
        if t.get('k') == 'slice':
            return None
        eng.store(st, w, concat(v, data))
        return [(st, ok(UNIT))]
    if k == 'cursor':
        return None
    if isT(w, 'symadt') and ('fmt' in (ci.get('r') or ci['p'])):
        # a Formatter: text handed to the caller's formatter
        return sink_write(eng, st, w, data, dty)
    return sink_write(eng, st, w, data, dty)


def utf8_of(c):
    if isinstance(c, int):
        return sq_bytes(chr(c).encode('utf-8', 'surrogatepass'))
    nm = mk('utf8', c)
    return sq_base(mk('base', nm, mk('len', nm, ty='usize')))


@model('io::Write::write')
def m_write_partial(eng, st, ci, args, fr, dty):
    data = as_seq(eng, st, args[1])
    k, w = writer_of(eng, st, args[0])
    if k == 'buf':
        sw = slice_writer(eng, st, args[0])
        if sw is not None:
            return slice_write(eng, st, sw, data, dty, True)
        if fixed_target(eng, w):
            return None
        t = peel(eng, selfty(eng, ci))
        if t.get('k') == 'slice':
            return None
        eng.store(st, w, concat(eng.load(st, w), data))
        return [(st, ok(seqlen(data)))]
    if k == 'cursor':
        return None
    s2 = st.copy()
    eng.event(s2, 'write', w, data)
    s2.gh[('werr', w)] = 1
    n = st.fresh('wrote', ty='usize')
    eng.assume(st, eng.compare(st, 'Le', n, seqlen(data)), 1)
    part = eng.subseq(st, data, 0, n)
    eng.event(st, 'write', w, part)
    st.gh[('out', w)] = concat(st.gh.get(('out', w), EMPTY), part)
    st.gh[('flushed', w)] = 0
    return [(s2, errval(eng, s2, dty, 'write', w)), (st, ok(n))]


@model('io::Write::flush')
def m_flush(eng, st, ci, args, fr, dty):
    k, w = writer_of(eng, st, args[0])
    if k != 'io':
        return [(st, ok(UNIT))]
    s2 = st.copy()
    eng.event(s2, 'flush', w)
    s2.gh[('werr', w)] = 1
    eng.event(st, 'flush', w)
    st.gh[('flushed', w)] = 1
    return [(s2, errval(eng, s2, dty, 'flush', w)), (st, ok(UNIT))]


@model('std::io::_print', 'std::io::_eprint', 'io::_print', 'io::_eprint')
def m_print(eng, st, ci, args, fr, dty):
    w = mk('stderr') if 'eprint' in ci['p'] else mk('stdout')
    eng.event(st, 'write', w, as_seq(eng, st, args[0]))
    st.gh[('out', w)] = concat(st.gh.get(('out', w), EMPTY), as_seq(eng, st, args[0]))
    return [(st, UNIT)]


@model('std::io::stdout', 'io::stdout')
def m_stdout(eng, st, ci, args, fr, dty):
    return [(st, mk('stdout'))]


@model('std::io::stderr', 'io::stderr')
def m_stderr(eng, st, ci, args, fr, dty):
    return [(st, mk('stderr'))]


@model('std::io::stdin', 'io::stdin')
def m_stdin(eng, st, ci, args, fr, dty):
    eng.event(st, 'stdin')
    return [(st, mk('symadt', mk('stdin'), ty=None))]


# ------------------------------------------------------------------ readers
def reader_of(eng, st, v):
    r = lastref(eng, st, v)
    w = eng.load(st, r) if isT(r, 'ref') else r
    return r, w


def getpos(st, rid):
    return st.gh.get(('pos', rid), gh_default(('pos', rid)))


def stream(rid):
    return mk('base', mk('stream', rid), mk('slen', rid, ty='u64'))


def stream_seq(rid, lo, hi):
    return mkseq([('o', stream(rid), lo, hi)])


def rd_invariant(eng, st, rid):
    eng.add_lin(st, lsub(mk('slen', rid, ty='u64'), mk('start', rid, ty='u64')))


@model('io::Read::read')
def m_read(eng, st, ci, args, fr, dty):
    r, w = reader_of(eng, st, args[0])
    if isT(w, 'agg') and w.a[0] == 'std::io::Cursor' or isT(w, 'seq'):
        return None
    rid = w
    buf = args[1]
    n = eng.ref_len(st, buf) if not isT(eng.load(st, buf), 'ref') else eng.ref_len(st, lastref(eng, st, buf))
    buf = lastref(eng, st, buf)
    pos = getpos(st, rid)
    sl = mk('slen', rid, ty='u64')
    rd_invariant(eng, st, rid)
    eng.event(st, 'read', rid, keep=False)
    st.gh.pop(('pend', rid), None)
    out = []
    # error
    s1 = st.copy()
    if s1.gh.get(('rerr', rid), 0) != 0 or s1.gh.get(('fail',), 0) != 0:
        s1.gh[('lost', rid)] = 1
    s1.gh[('rerr', rid)] = 1
    out.append((s1, errval(eng, s1, dty, 'read', rid, mk('plain'))))
    # a buffer that may be empty reads nothing and says nothing about the end
    if not eng.nonneg(st, lsub(n, 1)):
        s3 = st.copy()
        if eng.assume(s3, eng.mk_eq(n, 0), 1):
            out.append((s3, ok(0)))
        if not eng.assume(st, eng.compare(st, 'Le', 1, n), 1):
            return out
    # end of input
    s2 = st.copy()
    if eng.add_lin(s2, lsub(pos, sl)) and eng.add_lin(s2, lsub(sl, pos)):
        s2.gh[('eof', rid)] = 1
        out.append((s2, ok(0)))
    # some bytes
    k = st.fresh('nread', ty='usize')
    st.rng[k] = (1, LENMAX)
    if eng.add_lin(st, lsub(n, k)) and eng.add_lin(st, lsub(lsub(sl, pos), k)):
        npos = ladd(pos, k)
        st.ctr += 1
        rest_n = lsub(n, k)
        junk = mk('base', mk('unread', rid, st.ctr), rest_n)
        eng.store(st, buf, mkseq([('o', stream(rid), pos, npos), ('o', junk, 0, rest_n)]))
        st.gh[('pos', rid)] = npos
        out.append((st, ok(k)))
    return out


@model('io::Read::read_to_end', 'io::Read::read_to_string')
def m_read_to_end(eng, st, ci, args, fr, dty):
    r, w = reader_of(eng, st, args[0])
    rid = w
    if isT(w, 'agg') and w.a[0] == 'std::io::Cursor' or isT(w, 'seq'):
        return None
    if isT(w, 'openfile'):
        b = lastref(eng, st, args[1])
        data = file_bytes(eng, w.a[0]) if ('readto', w) not in st.gh else EMPTY
        st.gh[('readto', w)] = 1

        def good(s):
            eng.store(s, b, concat(eng.load(s, b), data))
            return ok(seqlen(data))
        return fallible(eng, st, dty, 'fs', good)
    pos = getpos(st, rid)
    sl = mk('slen', rid, ty='u64')
    rd_invariant(eng, st, rid)
    eng.event(st, 'read', rid, keep=False)
    s1 = st.copy()
    s1.gh[('rerr', rid)] = 1
    b = lastref(eng, s1, args[1])
    eng.store(s1, b, sq_base(mk('base', mk('partial', rid, s1.ctr), mk('len', mk('partial', rid, s1.ctr), ty='usize'))))
    b = lastref(eng, st, args[1])
    v = eng.load(st, b)
    data = stream_seq(rid, pos, sl)
    eng.store(st, b, concat(v, data))
    st.gh[('pos', rid)] = sl
    st.gh[('eof', rid)] = 1
    return [(s1, errval(eng, s1, dty, 'read', rid)), (st, ok(lsub(sl, pos)))]


@model('io::Read::read_exact')
def m_read_exact(eng, st, ci, args, fr, dty):
    r, w = reader_of(eng, st, args[0])
    buf = lastref(eng, st, args[1])
    n = eng.ref_len(st, buf)
    if isT(w, 'agg') and w.a[0] == 'std::io::Cursor':
        inner, pos = w.a[2], w.a[3]
        s = as_seq(eng, st, inner)
        want = ladd(pos, n)
        out = []
        for s2, t in split_bool(eng, st, le(eng, st, want, seqlen(s))):
            if t:
                eng.store(s2, lastref(eng, s2, args[1]), eng.subseq(s2, s, pos, want))
                eng.store(s2, r, mk('agg', w.a[0], 0, inner, want))
                out.append((s2, ok(UNIT)))
            else:
                eng.store(s2, r, mk('agg', w.a[0], 0, inner, seqlen(s)))
                out.append((s2, errval(eng, s2, dty, 'eof')))
        return out
    if isT(w, 'seq'):
        # impl Read for &[u8]: the reader is a reference to the slice reference
        rr = args[0]
        while isT(eng.load(st, eng.load(st, rr)), 'ref'):
            rr = eng.load(st, rr)
        sl = eng.load(st, rr)
        L = eng.ref_len(st, sl)
        out = []
        for s2, t in split_bool(eng, st, le(eng, st, n, L)):
            if t:
                eng.store(s2, lastref(eng, s2, args[1]), eng.subseq(s2, w, 0, n))
                eng.store(s2, rr, eng.extend_path(s2, sl, ('s', n, L)))
                out.append((s2, ok(UNIT)))
            else:
                eng.store(s2, rr, eng.extend_path(s2, sl, ('s', L, L)))
                out.append((s2, errval(eng, s2, dty, 'eof')))
        return out
    rid = w
    pos = getpos(st, rid)
    sl = mk('slen', rid, ty='u64')
    eng.event(st, 'read', rid, keep=False)
    rd_invariant(eng, st, rid)
    s1 = st.copy()
    s1.gh[('rerr', rid)] = 1
    out = [(s1, errval(eng, s1, dty, 'read', rid))]
    want = ladd(pos, n)
    if eng.add_lin(st, lsub(sl, want)):
        eng.store(st, buf, stream_seq(rid, pos, want))
        st.gh[('pos', rid)] = want
        out.append((st, ok(UNIT)))
    return out


@model('io::Seek::seek', 'io::Seek::rewind', 'io::Seek::stream_position', 'io::Seek::seek_relative', 'io::Seek::stream_len')
def m_seek(eng, st, ci, args, fr, dty):
    r, rid = reader_of(eng, st, args[0])
    n = ci['p'].rsplit('::', 1)[-1]
    if isT(rid, 'agg') and rid.a[0] == 'std::io::Cursor':
        return None
    pos = getpos(st, rid)
    sl = mk('slen', rid, ty='u64')
    rd_invariant(eng, st, rid)
    s1 = st.copy()
    out = [(s1, errval(eng, s1, dty, 'seek', rid))]
    if n == 'stream_position':
        out.append((st, ok(pos)))
        return out
    if n == 'stream_len':
        out.append((st, ok(sl)))
        return out
    eng.event(st, 'seek', rid, keep=False)
    if n == 'rewind':
        new = 0
    elif n == 'seek_relative':
        new = ladd(pos, args[1]) if isinstance(args[1], (int, T)) else None
    else:
        sf = args[1]
        new = None
        if is_agg(sf):
            x = sf.a[2]
            new = x if sf.a[1] == 0 else ladd(sl, x) if sf.a[1] == 1 else ladd(pos, x)
    if new is None:
        new = st.fresh('seekpos', ty='u64')
    st.gh[('pos', rid)] = new
    st.gh[('eof', rid)] = 0
    out.append((st, ok(UNIT if n in ('rewind', 'seek_relative') else new)))
    return out


@model('io::copy')
def m_iocopy(eng, st, ci, args, fr, dty):
    r, rid = reader_of(eng, st, args[0])
    k, w = writer_of(eng, st, args[1])
    if isT(rid, 'agg') or isT(rid, 'seq'):
        return None
    pos = getpos(st, rid)
    sl = mk('slen', rid, ty='u64')
    rd_invariant(eng, st, rid)
    data = stream_seq(rid, pos, sl)
    s1 = st.copy()
    s1.gh[('rerr', rid)] = 1
    out = [(s1, errval(eng, s1, dty, 'read', rid))]
    eng.event(st, 'read', rid, keep=False)
    if k == 'buf':
        eng.store(st, w, concat(eng.load(st, w), data))
        res = [(st, ok(UNIT))]
    else:
        res = sink_write(eng, st, w, data, dty)
    for s, v in res:
        if is_agg(v, RES, 0):
            s.gh[('pos', rid)] = sl
            s.gh[('eof', rid)] = 1
            v = ok(lsub(sl, pos))
        out.append((s, v))
    return out


@model('io::Cursor::new', 'Cursor::new')
def m_cursor(eng, st, ci, args, fr, dty):
    return [(st, mk('agg', 'std::io::Cursor', 0, args[0], 0))]


@model('Cursor::position', 'Cursor::into_inner', 'Cursor::set_position', 'Cursor::get_ref')
def m_curpos(eng, st, ci, args, fr, dty):
    n = ci['p'].rsplit('::', 1)[-1]
    c = deref(eng, st, args[0])
    if not is_agg(c, 'std::io::Cursor'):
        return None
    if n == 'position':
        return [(st, c.a[3])]
    if n == 'into_inner':
        return [(st, c.a[2])]
    if n == 'get_ref':
        return [(st, eng.extend_path(st, lastref(eng, st, args[0]), ('f', 0, None)))]
    eng.store(st, lastref(eng, st, args[0]), mk('agg', c.a[0], 0, c.a[2], args[1]))
    return [(st, UNIT)]


# ------------------------------------------------------------------ external effects
@model('getrandom::getrandom', 'getrandom::fill')
def m_getrandom(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    n = eng.ref_len(st, r)
    eng.event(st, 'rand', keep=False)

    def good(s):
        s.ctr += 1
        nm = mk('rand', s.ctr)
        eng.store(s, r, mkseq([('o', mk('base', nm, n), 0, n)]))
        return ok(UNIT)
    return fallible(eng, st, dty, 'rng', good)


@model('rpassword::prompt_password')
def m_prompt(eng, st, ci, args, fr, dty):
    eng.event(st, 'prompt')
    st.gh[('prompts',)] = st.gh.get(('prompts',), 0) + 1

    def good(s):
        nm = mk('typed', s.gh[('prompts',)])
        return ok(sq_base(mk('base', nm, mk('len', nm, ty='usize'))))
    return fallible(eng, st, dty, 'prompt', good)


@model('scrypt::Params::new', 'Params::new')
def m_params(eng, st, ci, args, fr, dty):
    n, r, p = args[0], args[1], args[2]
    return fallible(eng, st, dty, 'params', lambda s: ok(mk('scparams', *[x if isinstance(x, T) else mk('k', x) for x in (n, r, p)])))


@model('scrypt::scrypt')
def m_scrypt(eng, st, ci, args, fr, dty):
    pw, salt = as_seq(eng, st, args[0]), as_seq(eng, st, args[1])
    params = deref(eng, st, args[2])
    out = lastref(eng, st, args[3])
    n = eng.ref_len(st, out)
    eng.event(st, 'kdf', pw, salt, params if isinstance(params, T) else mk('k', params), n if isinstance(n, T) else mk('k', n))

    def good(s):
        nm = mk('scrypt', pw, salt, params)
        eng.store(s, out, mkseq([('o', mk('base', nm, n), 0, n)]))
        return ok(UNIT)
    return fallible(eng, st, dty, 'kdf', good)


def file_named(eng, st, v):
    pv = deep(eng, st, lastref(eng, st, v))
    nm = mk('file', pv if isinstance(pv, T) else mk('k', pv))
    eng.event(st, 'fsread', nm)
    return nm


def file_bytes(eng, nm):
    t = eng.opts.get('file')           # a scenario with known contents
    return t if t is not None else sq_base(mk('base', nm, mk('len', nm, ty='usize')))


@model('fs::read_to_string', 'fs::read')
def m_readfile(eng, st, ci, args, fr, dty):
    nm = file_named(eng, st, args[0])
    return fallible(eng, st, dty, 'fs', lambda s: ok(file_bytes(eng, nm)))


@model('fs::File::open', 'File::open')
def m_openfile(eng, st, ci, args, fr, dty):
    nm = file_named(eng, st, args[0])
    return fallible(eng, st, dty, 'fs', lambda s: ok(mk('openfile', nm)))


@model('io::read_to_string')
def m_readall(eng, st, ci, args, fr, dty):
    w = deref(eng, st, args[0])
    if not isT(w, 'openfile'):
        return None
    return fallible(eng, st, dty, 'fs', lambda s: ok(file_bytes(eng, w.a[0])))


@model('io::Error::kind')
def m_ekind(eng, st, ci, args, fr, dty):
    e = deref(eng, st, args[0])
    if not isT(e, 'symadt') or not isT(e.a[0], 'err') or dty is None:
        return None
    e = e.a[0]
    nm = mk('ekind', e)
    v = mk('symadt', nm, ty=dty)
    vs = eng.prog.types[dty]['v']
    k = [i for i, x in enumerate(vs) if x['n'] == 'Interrupted']
    if e.a[0] != 'read' or e.a[-1] is not mk('plain') or not k:
        return [(st, v)]
    # an interrupted read has taken nothing and is no failure, provided that it is repeated
    rid = e.a[2]
    s2 = st.copy()
    if eng.assume(st, eng.mk_eq(mk('disc', nm, ty='i64'), vs[k[0]]['d']), 0):
        out = [(st, v)]
    else:
        out = []
    if not s2.gh.get(('lost', rid), 0):
        s2.gh.pop(('rerr', rid), None)
        s2.gh.pop(('fail',), None)
        s2.gh.pop(('cause', 'read'), None)
        s2.gh[('pend', rid)] = 1
    return out + [(s2, agg(vs and eng.prog.types[dty]['p'], k[0]))]


@model('SystemTime::now', 'Instant::now')
def m_now(eng, st, ci, args, fr, dty):
    eng.event(st, 'clock', keep=False)
    return [(st, mk('symadt', mk('clock'), ty=dty))]


def is_epoch(x):
    """the constant UNIX_EPOCH: a SystemTime with zero seconds (its sub-second part has a niche and is not decoded)"""
    import re
    return is_agg(x, 'std::time::SystemTime') and re.findall(r"\['i', (-?\d+)\]", repr(x.a[2:])) in (['0'], ['0', '0'])


@model('SystemTime::duration_since', 'SystemTime::elapsed')
def m_since(eng, st, ci, args, fr, dty):
    a = [deref(eng, st, x) for x in args]
    # the time between the epoch and now; anything else names what it was taken between
    now = lambda x: isT(x, 'symadt') and isT(x.a[0], 'clock')
    std = (len(a) == 2 and now(a[0]) and is_epoch(a[1])) or (len(a) == 1 and is_epoch(a[0]))
    nm = mk('elapsed') if std else mk('elapsed', *[x if isinstance(x, T) else mk('k', x) for x in a])
    return fallible(eng, st, dty, 'clock', lambda s: ok(mk('symadt', nm, ty=None)))


@model('Duration::as_secs', 'Duration::as_millis', 'Duration::subsec_nanos')
def m_secs(eng, st, ci, args, fr, dty):
    return [(st, mk('secs', deref(eng, st, args[0]), ci['p'].rsplit('::', 1)[-1], ty=eng.scalar_name(dty) if dty is not None else 'u64'))]


@model('process::exit', 'process::abort', 'rt::begin_panic', 'panicking::panic', 'panicking::panic_fmt', 'panicking::assert_failed',
       'panicking::panic_explicit', 'panicking::panic_nounwind', 'panicking::unreachable_display', 'panicking::panic_display', 'panicking::panic_bounds_check',
       'panicking::assert_failed_inner', 'result::unwrap_failed', 'option::unwrap_failed', 'option::expect_failed', 'panicking::panic_str_2015',
       'panicking::panic_const', 'slice_index_fail', 'panicking::panic_str', 'hint::unreachable_unchecked', 'intrinsics::abort', 'panicking::panic_any',
       'std::panic::panic_any')
def m_panic(eng, st, ci, args, fr, dty):
    if 'process' in ci['p']:
        eng.event(st, 'exit', args[0] if args and isinstance(args[0], (int, T)) else 134)     # abort: a signal
        return []
    eng.panic(st, ci['p'], True)
    return []


# ------------------------------------------------------------------ base64
def b64name(eng, ci):
    return selfty(eng, ci).get('d', '?').rsplit('::', 1)[-1]


@model('ct_codecs::Decoder::decode_to_vec', 'Decoder::decode_to_vec')
def m_b64d(eng, st, ci, args, fr, dty):
    s = as_seq(eng, st, args[0])
    ign = deep(eng, st, args[1])
    if 'b64d' in eng.opts:       # a scenario with known decoded bytes
        return fallible(eng, st, dty, 'b64', lambda x: ok(eng.opts['b64d']))
    p = b64_plain(s, b64name(eng, ci))
    if p is not None:            # decoding what the same encoding produced
        return [(st, ok(p))]
    nm = mk('b64d', b64name(eng, ci), s, ign if ign is not NONE else mk('k', 0))
    return fallible(eng, st, dty, 'b64', lambda x: ok(sq_base(mk('base', nm, mk('len', nm, ty='usize')))))


def b64_plain(s, name):
    """the bytes whose complete encoding (same variant) s is, or None"""
    if len(s.a) == 1 and s.a[0][0] == 'o' and isT(s.a[0][1], 'base') and isT(s.a[0][1].a[0], 'b64e') and s is sq_base(s.a[0][1]):
        e = s.a[0][1].a[0]
        if e.a[0] == name and name in B64LEN:
            return e.a[1]
    return None


def b64_len(name, n):
    return B64LEN[name](n) if isinstance(n, int) and name in B64LEN else None


B64LEN = {'Base64': lambda n: (n + 2) // 3 * 4, 'Base64UrlSafe': lambda n: (n + 2) // 3 * 4,
          'Base64NoPadding': lambda n: (n * 4 + 2) // 3, 'Base64UrlSafeNoPadding': lambda n: (n * 4 + 2) // 3}


@model('ct_codecs::Decoder::decode', 'Decoder::decode')
def m_b64d2(eng, st, ci, args, fr, dty):
    out = lastref(eng, st, args[0])
    s = as_seq(eng, st, args[1])
    ign = deep(eng, st, args[2])
    plain = eng.opts.get('b64d')     # a scenario with known decoded bytes, or what the same encoding produced
    sure = plain is None
    if plain is None:
        plain = b64_plain(s, b64name(eng, ci))
    if plain is not None:
        data, n = plain, seqlen(plain)
    else:
        nm = mk('b64d', b64name(eng, ci), s, ign if ign is not NONE else mk('k', 0))
        n = mk('len', nm, ty='usize')
        data = sq_base(mk('base', nm, n))
    N = eng.ref_len(st, out)
    fits = eng.compare(st, 'Le', n, N)
    res = []
    if not (sure and plain is not None and eng.truth(st, fits) == 1):
        st1 = st.copy()
        res.append((st1, errval(eng, st1, dty, 'b64')))
    if eng.assume(st, fits, 1):
        old = eng.load(st, out)
        sp = eng.seq_split(st, old, n) if isT(old, 'seq') else None
        rest = sp[1] if sp else mkseq([('o', mk('base', mk('restof', data), lsub(N, n)), 0, lsub(N, n))])
        eng.store(st, out, concat(data, rest))
        res.append((st, ok(eng.extend_path(st, out, ('s', 0, n)))))
    return res


@model('ct_codecs::Encoder::encode_to_string', 'Encoder::encode_to_string')
def m_b64e(eng, st, ci, args, fr, dty):
    s = as_seq(eng, st, args[0])
    nm = mk('b64e', b64name(eng, ci), s)
    n = b64_len(b64name(eng, ci), seqlen(s))
    return [(st, ok(sq_base(mk('base', nm, n if n is not None else mk('len', nm, ty='usize')))))]


# ------------------------------------------------------------------ lengths
@model('slice::len', 'str::len', 'String::len', 'Vec::len', 'array::len', 'Vec::capacity')
def m_len(eng, st, ci, args, fr, dty):
    return [(st, eng.ref_len(st, lastref(eng, st, args[0])))]


@model('slice::is_empty', 'str::is_empty', 'String::is_empty', 'Vec::is_empty', 'array::is_empty')
def m_is_empty(eng, st, ci, args, fr, dty):
    n = eng.ref_len(st, lastref(eng, st, args[0]))
    return [(st, eng.eq_terms(st, n, 0))]


@model('ExactSizeIterator::len')
def m_itlen(eng, st, ci, args, fr, dty):
    n = it_remaining(eng, st, deref(eng, st, args[0]))
    return [(st, n)] if n is not None else None


# ------------------------------------------------------------------ indexing
def range_bounds(eng, st, idx, n):
    """(lo, hi) of a range value over a sequence of length n, or None if it is not a range"""
    if isT(idx, 'agg'):
        k = idx.a[0]
        f = idx.a[2:]
        if k.endswith('ops::Range') or k.endswith('range::Range'):
            return f[0], f[1]
        if k.endswith('RangeFrom'):
            return f[0], n
        if k.endswith('RangeToInclusive'):
            return 0, ladd(f[0], 1)
        if k.endswith('RangeTo'):
            return 0, f[0]
        if k.endswith('RangeFull'):
            return 0, n
        if k.endswith('RangeInclusive'):
            return f[0], ladd(f[1], 1)
        if k == '()' and len(f) == 2 and all(is_agg(x, 'std::ops::Bound') for x in f):
            lo = 0 if f[0].a[1] == 2 else f[0].a[2] if f[0].a[1] == 0 else ladd(f[0].a[2], 1)
            hi = n if f[1].a[1] == 2 else ladd(f[1].a[2], 1) if f[1].a[1] == 0 else f[1].a[2]
            return lo, hi
    if isT(idx, 'zst') and 'RangeFull' in str(idx.a[0]):
        return 0, n
    return None


def charb(eng, st, s, p):
    """is p a character boundary of the text s?"""
    if isinstance(p, int) and p == 0:
        return 1
    n = seqlen(s)
    if p is n or p == n or (eng.nonneg(st, lsub(p, n)) and eng.nonneg(st, lsub(n, p))):
        return 1
    b = const_bytes(s)
    if b is not None and isinstance(p, int):
        return 1 if p <= len(b) and (p == len(b) or (b[p] & 0xc0) != 0x80) else 0
    for f, v in st.facts.items():
        if v == 1 and f.op == 'starts' and f.a[0] is s and seqlen(f.a[1]) == p:
            return 1
    if isT(p, 'findpos') and p.a[0] is s:
        return 1
    # positions inside a constant ascii prefix
    if isinstance(p, int):
        off = 0
        for g in s.a:
            m = seglen(g)
            if g[0] == 'e' and all(isinstance(x, int) for x in g[1]):
                if isinstance(off, int) and off <= p <= off + len(g[1]):
                    if p < off + len(g[1]):
                        return 1 if (g[1][p - off] & 0xc0) != 0x80 else 0
                    return 1
                off += len(g[1])
            else:
                # a boundary at the start of a text segment
                if off == p:
                    return 1
                break
    return mk('charb', s, p if isinstance(p, T) else mk('k', p), ty='bool')


def do_index(eng, st, base, idx, isstr, what='index'):
    """-> ref or None when certainly out of range"""
    n = eng.ref_len(st, base)
    rb = range_bounds(eng, st, idx, n)
    if rb is None:
        if not isinstance(idx, (int, T)) or isT(idx, 'agg') or isT(idx, 'symadt') or isT(idx, 'seq'):
            raise Unsupported('index by %r' % (idx,))
        if not need(eng, st, eng.compare(st, 'Lt', idx, n), what + ':bounds'):
            return None
        return eng.extend_path(st, base, ('i', idx))
    lo, hi = rb
    if not (isinstance(lo, int) and lo == 0) and not need(eng, st, eng.compare(st, 'Le', lo, hi), what + ':order'):
        return None
    if not need(eng, st, eng.compare(st, 'Le', hi, n), what + ':range'):
        return None
    if isstr:
        s = as_seq(eng, st, base)
        if isT(s, 'seq'):
            for p in (lo, hi):
                if not need(eng, st, charb(eng, st, s, p), what + ':charboundary'):
                    return None
    if isinstance(lo, int) and lo == 0 and (hi is n or hi == n):
        return base
    return eng.extend_path(st, base, ('s', lo, hi))


@model('Index::index', 'IndexMut::index_mut')
def m_index(eng, st, ci, args, fr, dty):
    base = lastref(eng, st, args[0])
    t = peel(eng, selfty(eng, ci))
    v = eng.load(st, base)
    if not isT(v, 'seq') and not (base.a[1] and base.a[1][-1][0] == 's'):
        if isT(v) and t.get('k') in ('slice', 'array'):
            pass
        else:
            return None
    r = do_index(eng, st, base, args[1], is_str_ty(t))
    return [(st, r)] if r is not None else []


def address_only(eng):
    """is the reference that the current call returns only turned into a raw pointer (whose accesses are checked)"""
    if eng.callterm is None:
        return False
    body, t = eng.callterm
    dest = t[3]
    if dest[1]:
        return False
    l = dest[0]
    uses = 0

    def places(x, out):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and not isinstance(x[0], bool):
                out.append(x)
            for y in x:
                places(y, out)
    for bl in body.blocks:
        if bl is None:
            continue
        for s in bl['s']:
            if s[0] in ('dead', 'live'):
                continue
            if s[0] == '=':
                rv = s[2]
                if rv[0] == 'raw' and rv[1][0] == l:
                    uses += 1
                    continue
                if rv[0] == 'cast' and rv[2][0] in ('c', 'm') and rv[2][1] == [l, []] and body.prog.types[rv[3]]['k'] == 'ptr':
                    uses += 1
                    continue
                if rv[0] == 'ref' and any(p[0] == l for p in pl(places, rv)):
                    return False
            if any(p[0] == l for p in pl(places, s)):
                return False
        tt = bl['t']
        if tt is not t and any(p[0] == l for p in pl(places, tt)):
            return False
    return uses > 0


def pl(f, x):
    out = []
    f(x, out)
    return out


@model('slice::get', 'slice::get_mut', 'str::get', 'Vec::get', 'slice::get_unchecked', 'slice::get_unchecked_mut', 'str::get_mut')
def m_get(eng, st, ci, args, fr, dty):
    base = lastref(eng, st, args[0])
    n = eng.ref_len(st, base)
    unchecked = 'unchecked' in ci['p']
    rb = range_bounds(eng, st, args[1], n)
    if rb is None:
        c = eng.compare(st, 'Lt', args[1], n)
        el = ('i', args[1])
    else:
        c = eng.mk_and([eng.compare(st, 'Le', rb[0], rb[1]), eng.compare(st, 'Le', rb[1], n)])
        el = ('s', rb[0], rb[1])
    if unchecked:
        if rb is None and eng.rawmem and address_only(eng):
            c = eng.mk_and([eng.compare(st, 'Le', 0, args[1]), eng.compare(st, 'Le', args[1], n)])
        t = eng.truth(st, c)
        eng.hook('unchecked', st, (ci['p'], t, c), eng.where())
        return [(st, eng.extend_path(st, base, el))]
    isstr = '<impl str>' in ci['p']
    if isstr and rb is not None:
        s = as_seq(eng, st, base)
        c = eng.mk_and([c, charb(eng, st, s, rb[0]), charb(eng, st, s, rb[1])])
    out = []
    for s2, t in split_bool(eng, st, c):
        out.append((s2, some(eng.extend_path(s2, base, el)) if t else NONE))
    return out


@model('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut')
def m_first_last(eng, st, ci, args, fr, dty):
    base = lastref(eng, st, args[0])
    n = eng.ref_len(st, base)
    out = []
    last = 'last' in ci['p'].rsplit('::', 1)[-1]
    for s2, t in split_bool(eng, st, eng.compare(st, 'Le', 1, n)):
        out.append((s2, some(eng.extend_path(s2, base, ('i', lsub(n, 1) if last else 0))) if t else NONE))
    return out


@model('slice::split_at', 'slice::split_at_mut', 'str::split_at', 'slice::split_at_checked', 'slice::split_at_mut_checked', 'str::split_at_checked')
def m_split_at(eng, st, ci, args, fr, dty):
    base = lastref(eng, st, args[0])
    n = eng.ref_len(st, base)
    mid = args[1]
    c = eng.compare(st, 'Le', mid, n)
    if '<impl str>' in ci['p']:
        c = eng.mk_and([c, charb(eng, st, as_seq(eng, st, base), mid)])

    def pair(s):
        return tup(eng.extend_path(s, base, ('s', 0, mid)), eng.extend_path(s, base, ('s', mid, n)))
    if 'checked' in ci['p']:
        return [(s, some(pair(s)) if t else NONE) for s, t in split_bool(eng, st, c)]
    if not need(eng, st, c, 'split_at'):
        return []
    return [(st, pair(st))]


@model('slice::split_first', 'slice::split_last', 'slice::split_first_mut', 'slice::split_last_mut')
def m_split_first(eng, st, ci, args, fr, dty):
    base = lastref(eng, st, args[0])
    n = eng.ref_len(st, base)
    first = 'first' in ci['p'].rsplit('::', 1)[-1]
    out = []
    for s, t in split_bool(eng, st, eng.compare(st, 'Le', 1, n)):
        if not t:
            out.append((s, NONE))
        elif first:
            out.append((s, some(tup(eng.extend_path(s, base, ('i', 0)), eng.extend_path(s, base, ('s', 1, n))))))
        else:
            out.append((s, some(tup(eng.extend_path(s, base, ('i', lsub(n, 1))), eng.extend_path(s, base, ('s', 0, lsub(n, 1)))))))
    return out


@model('slice::first_chunk', 'slice::split_first_chunk', 'slice::last_chunk', 'slice::split_last_chunk', 'slice::as_array', 'slice::as_chunks')
def m_chunk(eng, st, ci, args, fr, dty):
    base = lastref(eng, st, args[0])
    n = eng.ref_len(st, base)
    nm = ci['p'].rsplit('::', 1)[-1]
    ca = [c for c in (ci.get('ca') or []) if c is not None]
    if not ca:
        return None
    N = ca[-1]
    if isinstance(N, list):
        N = N[1]
    if nm == 'as_array':
        c = eng.eq_terms(st, n, N)
    elif nm == 'as_chunks':
        return None
    else:
        c = eng.compare(st, 'Le', N, n)
    out = []
    for s, t in split_bool(eng, st, c):
        if not t:
            out.append((s, NONE))
            continue
        lo, hi = (lsub(n, N), n) if 'last' in nm else (0, N)
        x = eng.extend_path(s, base, ('s', lo, hi))
        if nm == 'split_first_chunk':
            x = tup(x, eng.extend_path(s, base, ('s', N, n)))
        elif nm == 'split_last_chunk':
            x = tup(eng.extend_path(s, base, ('s', 0, lo)), x)
        out.append((s, some(x)))
    return out


# ------------------------------------------------------------------ bulk copies
@model('slice::copy_from_slice', 'slice::clone_from_slice')
def m_copy_from(eng, st, ci, args, fr, dty):
    d = lastref(eng, st, args[0])
    src = as_seq(eng, st, args[1])
    n, m = eng.ref_len(st, d), eng.ref_len(st, lastref(eng, st, args[1]))
    c = eng.eq_terms(st, n, m)
    if not need(eng, st, c, 'copy_from_slice:length'):
        return []
    eng.store(st, d, src)
    return [(st, UNIT)]


@model('slice::fill')
def m_fill(eng, st, ci, args, fr, dty):
    d = lastref(eng, st, args[0])
    eng.store(st, d, mkseq([('r', args[1], eng.ref_len(st, d))]))
    return [(st, UNIT)]


@model('slice::reverse')
def m_reverse(eng, st, ci, args, fr, dty):
    d = lastref(eng, st, args[0])
    e = elements(as_seq(eng, st, d))
    if e is None:
        return None
    eng.store(st, d, sq_elems(e[::-1]))
    return [(st, UNIT)]


@model('slice::copy_within')
def m_copy_within(eng, st, ci, args, fr, dty):
    d = lastref(eng, st, args[0])
    n = eng.ref_len(st, d)
    rb = range_bounds(eng, st, args[1], n)
    if rb is None:
        return None
    ln = lsub(rb[1], rb[0])
    c = eng.mk_and([eng.compare(st, 'Le', rb[0], rb[1]), eng.compare(st, 'Le', rb[1], n), eng.compare(st, 'Le', ladd(args[2], ln), n)])
    if not need(eng, st, c, 'copy_within'):
        return []
    v = eng.subseq(st, as_seq(eng, st, d), rb[0], rb[1])
    eng.store(st, eng.extend_path(st, d, ('s', args[2], ladd(args[2], ln))), v)
    return [(st, UNIT)]


@model('slice::swap_with_slice', 'mem::swap')
def m_swap(eng, st, ci, args, fr, dty):
    a, b = args[0], args[1]
    x, y = eng.load(st, a), eng.load(st, b)
    eng.store(st, a, y)
    eng.store(st, b, x)
    return [(st, UNIT)]


@model('slice::swap')
def m_swap2(eng, st, ci, args, fr, dty):
    base = lastref(eng, st, args[0])
    n = eng.ref_len(st, base)
    for i in args[1:3]:
        if not need(eng, st, eng.compare(st, 'Lt', i, n), 'swap:bounds'):
            return []
    a, b = eng.extend_path(st, base, ('i', args[1])), eng.extend_path(st, base, ('i', args[2]))
    x, y = eng.load(st, a), eng.load(st, b)
    eng.store(st, a, y)
    eng.store(st, b, x)
    return [(st, UNIT)]


@model('mem::replace', 'mem::take', 'Option::take', 'Option::replace')
def m_replace(eng, st, ci, args, fr, dty):
    old = eng.load(st, args[0])
    n = ci['p'].rsplit('::', 1)[-1]
    if 'option' in ci['p']:
        new = NONE if n == 'take' else some(args[1])
    elif n == 'replace':
        new = args[1]
    else:
        if isT(old, 'seq'):
            new = EMPTY
        elif is_agg(old, OPT):
            new = NONE
        elif isinstance(old, int):
            new = 0
        else:
            return None
    eng.store(st, args[0], new)
    return [(st, old)]


@model('slice::concat', 'Concat::concat')
def m_concat(eng, st, ci, args, fr, dty):
    s = as_seq(eng, st, args[0])
    e = elements(s)
    if e is None:
        return None
    parts = [as_seq(eng, st, x) for x in e]
    if any(p is None for p in parts):
        return None
    return [(st, concat(*parts))]


@model('slice::join', 'Join::join')
def m_join(eng, st, ci, args, fr, dty):
    e = elements(as_seq(eng, st, args[0]))
    if e is None:
        return None
    sep = as_seq(eng, st, args[1]) if isT(args[1]) else sq_elems([args[1]])
    parts = []
    for i, x in enumerate(e):
        if i:
            parts.append(sep)
        parts.append(as_seq(eng, st, x))
    return [(st, concat(*parts))]


@model('slice::repeat', 'str::repeat')
def m_repeat(eng, st, ci, args, fr, dty):
    s = as_seq(eng, st, args[0])
    if isinstance(args[1], int) and args[1] < 1000:
        return [(st, concat(*([s] * args[1])))]
    return None


# ------------------------------------------------------------------ Vec / String
@model('Vec::new', 'Vec::with_capacity', 'String::new', 'String::with_capacity', 'Vec::new_in', 'Vec::with_capacity_in')
def m_vecnew(eng, st, ci, args, fr, dty):
    return [(st, EMPTY)]


@model('vec::from_elem')
def m_from_elem(eng, st, ci, args, fr, dty):
    return [(st, mkseq([('r', args[0], args[1])]))]


@model('Vec::push', 'String::push')
def m_push(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    if not isT(v, 'seq'):
        return None
    add = utf8_of(args[1]) if 'String' in ci['p'] else sq_elems([args[1]])
    eng.store(st, r, concat(v, add))
    return [(st, UNIT)]


@model('Vec::extend_from_slice', 'String::push_str')
def m_extend_slice(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    s = as_seq(eng, st, args[1])
    if not isT(v, 'seq') or s is None:
        return None
    eng.store(st, r, concat(v, s))
    return [(st, UNIT)]


@model('Vec::extend_from_within')
def m_efw(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    rb = range_bounds(eng, st, args[1], seqlen(v))
    if rb is None:
        return None
    eng.store(st, r, concat(v, eng.subseq(st, v, rb[0], rb[1])))
    return [(st, UNIT)]


@model('Vec::append')
def m_append(eng, st, ci, args, fr, dty):
    r, q = lastref(eng, st, args[0]), lastref(eng, st, args[1])
    eng.store(st, r, concat(eng.load(st, r), eng.load(st, q)))
    eng.store(st, q, EMPTY)
    return [(st, UNIT)]


@model('Vec::truncate', 'String::truncate')
def m_truncate(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    out = []
    for s, t in split_bool(eng, st, eng.compare(st, 'Le', args[1], seqlen(v))):
        if t:
            eng.store(s, r, eng.subseq(s, v, 0, args[1]))
        out.append((s, UNIT))
    return out


@model('Vec::resize')
def m_resize(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    out = []
    for s, t in split_bool(eng, st, eng.compare(st, 'Le', args[1], seqlen(v))):
        if t:
            eng.store(s, r, eng.subseq(s, v, 0, args[1]))
        else:
            eng.store(s, r, concat(v, mkseq([('r', args[2], lsub(args[1], seqlen(v)))])))
        out.append((s, UNIT))
    return out


@model('Vec::clear', 'String::clear')
def m_clear(eng, st, ci, args, fr, dty):
    eng.store(st, lastref(eng, st, args[0]), EMPTY)
    return [(st, UNIT)]


@model('Vec::reserve', 'String::reserve', 'Vec::shrink_to_fit', 'Vec::reserve_exact', 'String::shrink_to_fit', 'mem::drop', 'mem::forget')
def m_nop(eng, st, ci, args, fr, dty):
    return [(st, UNIT)]


@model('Vec::pop')
def m_pop(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    n = seqlen(v)
    out = []
    for s, t in split_bool(eng, st, eng.compare(st, 'Le', 1, n)):
        if t:
            x = eng.seq_at(s, v, lsub(n, 1))
            eng.store(s, r, eng.subseq(s, v, 0, lsub(n, 1)))
            out.append((s, some(x)))
        else:
            out.append((s, NONE))
    return out


@model('Vec::drain', 'String::drain')
def m_drain(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    n = seqlen(v)
    rb = range_bounds(eng, st, args[1], n)
    if rb is None:
        return None
    lo, hi = rb
    if not need(eng, st, eng.compare(st, 'Le', lo, hi), 'drain:order'):
        return []
    if not need(eng, st, eng.compare(st, 'Le', hi, n), 'drain:range'):
        return []
    if 'String' in ci['p']:
        for p in (lo, hi):
            if not need(eng, st, charb(eng, st, v, p), 'drain:charboundary'):
                return []
    out = eng.subseq(st, v, lo, hi)
    rest = concat(eng.subseq(st, v, 0, lo), eng.subseq(st, v, hi, n))
    eng.store(st, r, rest)
    return [(st, mk('vit', out, 0, seqlen(out)))]


@model('Vec::split_off', 'String::split_off')
def m_split_off(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    n = seqlen(v)
    if not need(eng, st, eng.compare(st, 'Le', args[1], n), 'split_off:range'):
        return []
    if 'String' in ci['p'] and not need(eng, st, charb(eng, st, v, args[1]), 'split_off:charboundary'):
        return []
    eng.store(st, r, eng.subseq(st, v, 0, args[1]))
    return [(st, eng.subseq(st, v, args[1], n))]


@model('Vec::insert', 'Vec::remove')
def m_insert(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    n = seqlen(v)
    if ci['p'].endswith('insert'):
        if not need(eng, st, eng.compare(st, 'Le', args[1], n), 'insert:bounds'):
            return []
        eng.store(st, r, concat(eng.subseq(st, v, 0, args[1]), sq_elems([args[2]]), eng.subseq(st, v, args[1], n)))
        return [(st, UNIT)]
    if not need(eng, st, eng.compare(st, 'Lt', args[1], n), 'remove:bounds'):
        return []
    x = eng.seq_at(st, v, args[1])
    eng.store(st, r, concat(eng.subseq(st, v, 0, args[1]), eng.subseq(st, v, ladd(args[1], 1), n)))
    return [(st, x)]


@model('String::insert_str')
def m_insert_str(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    if not (isinstance(args[1], int) and args[1] == 0):
        return None
    eng.store(st, r, concat(as_seq(eng, st, args[2]), v))
    return [(st, UNIT)]


@model('String::from_utf8', 'str::from_utf8', 'str::converts::from_utf8', 'core::str::from_utf8', 'std::str::from_utf8', 'String::from_utf8_lossy')
def m_from_utf8(eng, st, ci, args, fr, dty):
    s = as_seq(eng, st, args[0])
    if 'lossy' in ci['p']:
        nm = mk('lossy', s)
        return [(st, sq_base(mk('base', nm, mk('len', nm, ty='usize'))))]
    c = 1 if is_text(eng, st, s) else mk('utf8ok', s, ty='bool')
    out = []
    for s2, t in split_bool(eng, st, c):
        if t:
            out.append((s2, ok(s if not isT(args[0], 'ref') else args[0])))
        else:
            out.append((s2, errval(eng, s2, dty, 'utf8')))
    return out


def is_text(eng, st, s):
    b = const_bytes(s)
    if b is not None:
        try:
            b.decode()
            return True
        except UnicodeDecodeError:
            return False
    for g in s.a:
        if g[0] == 'e':
            if not all(isinstance(x, int) for x in g[1]):
                return False
            try:
                bytes(g[1]).decode()
            except UnicodeDecodeError:
                return False
        elif g[0] == 'o' and isT(g[1], 'base'):
            nm = g[1].a[0]
            if isT(nm, 'b64e') or isT(nm, 'fmt') and nm.a[0] in ('x', 'X', 'b', 'o', 'u', 'd'):
                continue
            if not (g[2] == 0 and g[3] is g[1].a[1]):
                return False
            if not (isT(nm, 'fmt') or isT(nm, 'text') or st.facts.get(mk('utf8ok', sq_base(g[1]), ty='bool')) == 1):
                return False
        else:
            return False
    return True


@model('str::from_utf8_unchecked', 'String::from_utf8_unchecked', 'std::str::from_utf8_unchecked', 'core::str::from_utf8_unchecked')
def m_utf8_unchecked(eng, st, ci, args, fr, dty):
    eng.hook('unchecked', st, (ci['p'], None, mk('utf8ok', as_seq(eng, st, args[0]), ty='bool')), eng.where())
    return [(st, args[0])]


# ------------------------------------------------------------------ text
def opaque_text(nm):
    return cref(sq_base(mk('base', nm, mk('len', nm, ty='usize'))))


def pat_of(eng, st, v):
    """a string pattern -> ('seq', seq) | ('set', frozenset) | ('pred', f)"""
    w = deref(eng, st, v)
    if isinstance(w, int):
        return ('set', frozenset([w]))
    if isT(w, 'seq'):
        e = elements(w)
        if e is not None and e and all(isinstance(x, int) for x in e):
            return ('seq', w)
        return ('seq', w)
    if isT(w, 'clo') or isT(w, 'fn'):
        return ('pred', w)
    return ('?', w)


def pat_set(eng, st, v, pt, fr):
    """set of the line-break characters {10, 13} the pattern matches for sure, and a name"""
    pt = peel(eng, pt) if pt else {}
    w = deref(eng, st, v)
    if isinstance(w, int):
        return frozenset([w]) & frozenset([10, 13]), w in (10, 13)
    if isT(w, 'seq'):
        if pt.get('k') in ('array', 'slice') and True:
            e = elements(w)
            if e is not None and all(isinstance(x, int) for x in e):
                return frozenset(e) & frozenset([10, 13]), set(e) <= {10, 13}
            return frozenset(), False
        b = const_bytes(w)
        if b is not None and len(b) == 1:
            return frozenset(b) & frozenset([10, 13]), b[0] in (10, 13)
        return frozenset(), False
    if isT(w, 'clo') or isT(w, 'fn'):
        return pred_set(eng, st, v, fr)
    return frozenset(), False


def pred_set(eng, st, f, fr, byref=False, want=1, bytes_=False):
    """the line-break characters for which the predicate certainly holds (does not hold: want 0), and whether it is known that no other ones are like them"""
    got = set()
    eng.quiet_panic += 1
    try:
        for c in (10, 13):
            s2 = st.copy()
            nf = mk('fr', fr, 'pred', c)
            rs = eng.call_any(s2, f, [cref(c) if byref else c], nf)
            if rs and all(isinstance(v, int) and v == want for _, v in rs):
                got.add(c)
        exact = True
        for lo, hi in ((0, 9), (11, 12), (14, 255 if bytes_ else 0x10ffff)):
            s2 = st.copy()
            x = s2.fresh('char', ty='u8' if bytes_ else 'char')
            s2.rng[x] = (lo, hi)
            rs = eng.call_any(s2, f, [cref(x) if byref else x], mk('fr', fr, 'pred', lo))
            exact = exact and bool(rs) and all(isinstance(v, int) and v == 1 - want for _, v in rs)
    finally:
        eng.quiet_panic -= 1
    return frozenset(got), exact


def const_search(eng, st, s, pat, fr, byref=False):
    """does a constant text contain a character the pattern (character, set of characters or predicate) matches: 0, 1, or None: not known"""
    b = const_bytes(s)
    if b is None or any(c > 127 for c in b):
        return None
    if isinstance(pat, int):
        return 1 if pat in b else 0
    if isT(pat, 'clo') or isT(pat, 'fn'):
        got = set()
        eng.quiet_panic += 1
        try:
            for c in sorted(set(b)):
                for _, v in eng.call_any(st.copy(), pat, [cref(c) if byref else c], mk('fr', fr, 'pred', c)):
                    got.add(v if isinstance(v, int) else None)
        finally:
            eng.quiet_panic -= 1
        return None if None in got else 1 if 1 in got else 0
    return None


def contains_term(eng, s, cs, key):
    if cs:
        b = const_bytes(s)
        if b is not None:
            if any(c in b for c in cs):
                return 1
            if key is mk('exact'):
                return 0
        return mk('hasch', s, tuple(sorted(cs)), key, ty='bool')
    return mk('hasx', s, key, ty='bool')


def no_break(eng, st, g):
    """is a segment of a text known to contain neither character 10 nor 13"""
    if g[0] == 'e':
        return all(isinstance(x, int) and x not in (10, 13) for x in g[1])
    if g[0] == 'r':
        return isinstance(g[1], int) and g[1] not in (10, 13)
    b = g[1]
    if isT(b, 'base'):
        nm = b.a[0]
        if isT(nm, 'b64e') or (isT(nm, 'fmt') and nm.a[0] in ('x', 'X', 'b', 'o', 'u', 'd') or isT(nm, 'fmt') and nm.a[3] in TYR):
            return True
        if isT(nm, 'text') and nm.a[0].startswith('trim'):
            return all(no_break(eng, st, x) for x in nm.a[1].a)
    for e in ('exact',):
        if st.facts.get(mk('hasch', sq_base(b), (10, 13), mk(e), ty='bool')) == 0:
            return True
    return False


def text_pieces(eng, st, s):
    """the pieces between line feeds of a text whose line feeds are known, or None"""
    if not all(no_break(eng, st, g) for g in s.a if g[0] != 'e') or not all(isinstance(x, int) for g in s.a if g[0] == 'e' for x in g[1]):
        return None
    out, cur = [], []
    for g in s.a:
        if g[0] != 'e':
            cur.append(g)
            continue
        b = list(g[1])
        while 10 in b:
            k = b.index(10)
            out.append(mkseq(cur + ([('e', tuple(b[:k]))] if k else [])))
            cur, b = [], b[k + 1:]
        if b:
            cur.append(('e', tuple(b)))
    return out + [mkseq(cur)]


def text_lines(eng, st, s, crlf=False):
    """the lines of a text whose line structure is known: [sequence], and whether the last one is terminated; or None"""
    if not any(g[0] == 'e' and 10 in g[1] for g in s.a):
        return None
    lines, cur = [], []
    for g in s.a:
        if g[0] == 'e':
            part = []
            for x in g[1]:
                if not isinstance(x, int) or x == 13 and not crlf:
                    return None
                if x == 10:
                    if part and part[-1] == 13:
                        part.pop()
                    lines.append(mkseq(cur + ([('e', tuple(part))] if part else [])))
                    cur, part = [], []
                else:
                    part.append(x)
            if part:
                cur.append(('e', tuple(part)))
        else:
            if not no_break(eng, st, g):
                return None
            cur.append(g)
    if cur:
        lines.append(mkseq(cur))
    return lines, not cur


@model('str::contains')
def m_contains(eng, st, ci, args, fr, dty):
    s = as_seq(eng, st, args[0])
    pt = None
    ts = [a for a in (ci.get('a') or []) if a is not None]
    if ts:
        pt = eng.prog.types[ts[-1]]
    cs, exact = pat_set(eng, st, args[1], pt, fr)
    w = deref(eng, st, args[1])
    t = const_search(eng, st, s, w, fr)
    if exact and t is None and all(no_break(eng, st, g) for g in s.a):
        t = 0
    if t is None:
        t = contains_term(eng, s, cs, mk('exact') if exact else (w if isinstance(w, T) else mk('k', w)))
    if isinstance(t, int):
        return [(st, t)]
    tv = eng.truth(st, t)
    return [(st, t if tv is None else tv)]


@model('str::find', 'str::rfind')
def m_find(eng, st, ci, args, fr, dty):
    s = as_seq(eng, st, args[0])
    ts = [a for a in (ci.get('a') or []) if a is not None]
    cs, exact = pat_set(eng, st, args[1], eng.prog.types[ts[-1]] if ts else None, fr)
    w = deref(eng, st, args[1])
    t = contains_term(eng, s, cs, mk('exact') if exact else (w if isinstance(w, T) else mk('k', w)))
    out = []
    for s2, tv in split_bool(eng, st, t):
        if tv:
            p = mk('findpos', s, ci['p'].rsplit('::', 1)[-1], w if isinstance(w, T) else mk('k', w), ty='usize')
            eng.add_lin(s2, lsub(seqlen(s), ladd(p, 1)))
            out.append((s2, some(p)))
        else:
            out.append((s2, NONE))
    return out


@model('slice::contains')
def m_slice_contains(eng, st, ci, args, fr, dty):
    s = as_seq(eng, st, args[0])
    x = deref(eng, st, args[1])
    e = elements(s)
    if e is not None and len(e) <= 64:
        ts = [eng.eq_terms(st, deep(eng, st, y), deep(eng, st, x)) for y in e]
        return [(st, eng.mk_or(ts))]
    if isinstance(x, int):
        cs = frozenset([x]) & frozenset([10, 13])
        return [(st, contains_term(eng, s, cs, mk('exact') if cs else mk('k', x)))]
    return [(st, mk('hasx', s, x, ty='bool'))]


@model('str::starts_with', 'slice::starts_with', 'str::ends_with', 'slice::ends_with')
def m_starts(eng, st, ci, args, fr, dty):
    s = as_seq(eng, st, args[0])
    p = deref(eng, st, args[1])
    if isinstance(p, int):
        p = utf8_of(p)
    if not isT(p, 'seq'):
        return None
    op = 'starts' if ci['p'].endswith('starts_with') else 'ends'
    return [(st, starts_term(eng, st, s, p, op))]


def starts_term(eng, st, s, p, op='starts'):
    a, b = const_bytes(s), const_bytes(p)
    if a is not None and b is not None:
        return int(a.startswith(b) if op == 'starts' else a.endswith(b))
    if op == 'starts' and isinstance(seqlen(p), int) and s.a and s.a[0][0] == 'e' and len(s.a[0][1]) >= seqlen(p):
        return eng.seq_eq(st, eng.subseq(st, s, 0, seqlen(p)), p)
    t = mk(op, s, p, ty='bool')
    tv = eng.truth(st, t)
    return t if tv is None else tv


def on_starts(eng, st, t):
    """consequences of a positive prefix test"""
    return eng.add_lin(st, lsub(seqlen(t.a[0]), seqlen(t.a[1])))


def last_is(eng, st, s, c):
    """does a text end with the character c (CR or LF); None if that is not known"""
    for g in reversed(s.a):
        if g[0] == 'e':
            return g[1][-1] == c if isinstance(g[1][-1], int) else None
        if not no_break(eng, st, g):
            return None
    return False


@model('str::strip_prefix', 'slice::strip_prefix', 'str::strip_suffix', 'str::trim_start_matches')
def m_strip(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    s = as_seq(eng, st, args[0])
    p = deref(eng, st, args[1])
    n = ci['p'].rsplit('::', 1)[-1]
    if n == 'strip_suffix' and p in (10, 13) and isT(s, 'seq'):
        t = last_is(eng, st, s, p)
        if t is not None:
            return [(st, some(eng.extend_path(st, r, ('s', 0, lsub(seqlen(s), 1)))) if t else NONE)]
    if isinstance(p, int):
        p = utf8_of(p)
    if not isT(p, 'seq') or n == 'trim_start_matches':
        nm = mk('stripm', s, n, p if isinstance(p, T) else mk('k', p))
        if n == 'trim_start_matches':
            return [(st, opaque_text(nm))]
        return None
    op = 'starts' if 'prefix' in n else 'ends'
    out = []
    L = seqlen(s)
    for s2, t in split_bool(eng, st, starts_term(eng, st, s, p, op)):
        if t:
            lo, hi = (seqlen(p), L) if op == 'starts' else (0, lsub(L, seqlen(p)))
            out.append((s2, some(eng.extend_path(s2, r, ('s', lo, hi)))))
        else:
            out.append((s2, NONE))
    return out


@model('str::trim', 'str::trim_end', 'str::trim_start', 'str::trim_right', 'str::trim_left', 'slice::trim_ascii', 'str::trim_ascii',
       'str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase', 'str::trim_matches', 'str::trim_end_matches', 'str::replace',
       'str::replacen', 'String::remove_matches', 'slice::escape_ascii', 'str::escape_debug', 'str::escape_default')
def m_trim(eng, st, ci, args, fr, dty):
    s = as_seq(eng, st, args[0])
    n = ci['p'].rsplit('::', 1)[-1]
    ex = [deep(eng, st, a) for a in args[1:]]
    ex = [a if isinstance(a, T) else mk('k', a) for a in ex]
    if n == 'trim_end_matches' and len(ex) == 1 and ex[0] in (mk('k', 10), mk('k', 13)) and isT(s, 'seq'):
        x = s
        while last_is(eng, st, x, ex[0].a[0]):
            x = eng.subseq(st, x, 0, lsub(seqlen(x), 1))
        if last_is(eng, st, x, ex[0].a[0]) is False:
            return [(st, cref(x))]
    if n.startswith('trim') and not ex and len(s.a) == 1 and s.a[0][0] == 'o' and isT(s.a[0][1], 'base'):
        b = s.a[0][1].a[0]
        if isT(b, 'b64e') or (isT(b, 'text') and len(b.a) == 2 and (b.a[0] == n or b.a[0] == 'trim') and s is sq_base(s.a[0][1])):
            return [(st, args[0])]          # nothing left to trim
    nm = mk('text', n, s, *ex)
    v = sq_base(mk('base', nm, mk('len', nm, ty='usize')))
    if n.startswith('trim'):
        eng.add_lin(st, lsub(seqlen(s), seqlen(v)))
        return [(st, cref(v))]
    return [(st, v)]


@model('str::lines')
def m_lines(eng, st, ci, args, fr, dty):
    s = as_seq(eng, st, args[0])
    return [(st, mk('lines', s, 0))]


@model('str::split', 'str::splitn', 'str::split_terminator', 'str::split_whitespace', 'str::split_inclusive', 'str::rsplit', 'str::split_ascii_whitespace', 'slice::split')
def m_split(eng, st, ci, args, fr, dty):
    s = as_seq(eng, st, args[0])
    n = ci['p'].rsplit('::', 1)[-1]
    ex = [deep(eng, st, a) for a in args[1:]]
    ex = [a if isinstance(a, T) else mk('k', a) for a in ex]
    return [(st, mk('splitit', mk('sp', n, s, *ex), 0))]


@model('str::split_once', 'str::rsplit_once')
def m_split_once(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    s = as_seq(eng, st, args[0])
    w = deep(eng, st, args[1])
    n = ci['p'].rsplit('::', 1)[-1]
    key = w if isinstance(w, T) else mk('k', w)
    t = mk('hasx', s, key, ty='bool')
    out = []
    for s2, tv in split_bool(eng, st, t):
        if tv:
            p = mk('findpos', s, n, key, ty='usize')
            m = 1 if isinstance(w, int) else seqlen(w) if isT(w, 'seq') else mk('len', key, ty='usize')
            L = eng.ref_len(s2, r)
            eng.add_lin(s2, lsub(L, ladd(p, m)))
            out.append((s2, some(tup(eng.extend_path(s2, r, ('s', 0, p)), eng.extend_path(s2, r, ('s', ladd(p, m), L))))))
        else:
            out.append((s2, NONE))
    return out


@model('str::is_char_boundary')
def m_is_charb(eng, st, ci, args, fr, dty):
    return [(st, charb(eng, st, as_seq(eng, st, args[0]), args[1]))]


@model('str::bytes')
def m_bytes(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    return [(st, mk('cloned', mk('sit', r, 0, eng.ref_len(st, r))))]


@model('str::chars', 'str::char_indices')
def m_chars(eng, st, ci, args, fr, dty):
    s = as_seq(eng, st, args[0])
    b = const_bytes(s)
    if b is not None and all(x < 128 for x in b) and ci['p'].endswith('chars'):
        return [(st, mk('vit', s, 0, len(b)))]
    return [(st, mk('charsof', s, ci['p'].rsplit('::', 1)[-1]))]


@model('char::is_whitespace', 'char::is_control', 'char::is_ascii_control', 'u8::is_ascii_control', 'u8::is_ascii_whitespace', 'char::is_ascii_whitespace', 'char::is_ascii',
       'u8::is_ascii', 'char::is_alphanumeric', 'char::is_ascii_graphic', 'u8::is_ascii_graphic', 'char::is_ascii_digit', 'u8::is_ascii_digit')
def m_charclass(eng, st, ci, args, fr, dty):
    c = deref(eng, st, args[0])
    n = ci['p'].rsplit('::', 1)[-1]
    if isinstance(c, int):
        if n in ('is_control', 'is_ascii_control'):
            return [(st, int(c < 32 or c == 127))]
        if 'whitespace' in n:
            return [(st, int(c in (9, 10, 11, 12, 13, 32)))]
        if n == 'is_ascii':
            return [(st, int(c < 128))]
    return [(st, mk('cclass', n, c if isinstance(c, T) else mk('k', c), ty='bool'))]


# ------------------------------------------------------------------ comparison
@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(eng, st, ci, args, fr, dty):
    a, b = args[0], args[1]
    x, y = deep(eng, st, a), deep(eng, st, b)

    def fine(v, d=0):
        if isinstance(v, int):
            return True
        if v.op == 'seq':
            return True
        if v.op == 'agg' and d < 6:
            return all(fine(z, d + 1) for z in v.a[2:])
        return isinstance(v.ty, str)
    if not (fine(x) and fine(y)):
        # an enum whose variant is not known on one side
        if ci.get('key') in eng.prog.bodies:
            return None
        t = mk('eq', *sorted([x if isinstance(x, T) else mk('k', x), y if isinstance(y, T) else mk('k', y)], key=lambda q: q.id), ty='bool')
    else:
        t = eng.eq_terms(st, x, y)
    if ci['p'].endswith('::ne'):
        t = eng.mk_not(t)
    return [(st, t)]


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_ord(eng, st, ci, args, fr, dty):
    x, y = deref(eng, st, args[0]), deref(eng, st, args[1])
    if isinstance(x, (int, T)) and isinstance(y, (int, T)) and not isT(x, 'seq') and not isT(x, 'agg'):
        return [(st, eng.compare(st, {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[ci['p'].rsplit('::', 1)[-1]], x, y))]
    x, y = as_seq(eng, st, x), as_seq(eng, st, y)
    return [(st, mk('lexcmp', ci['p'].rsplit('::', 1)[-1], x, y, ty='bool'))]


@model('Ord::cmp', 'PartialOrd::partial_cmp')
def m_cmp(eng, st, ci, args, fr, dty):
    x, y = deref(eng, st, args[0]), deref(eng, st, args[1])

    a = ci.get('a') or [None]
    t = eng.prog.types[a[0]] if a[0] is not None else {}
    if t.get('k') not in ('int', 'uint', 'char', 'bool') or not all(isinstance(v, int) or isT(v) for v in (x, y)):
        return None
    part = ci['p'].endswith('partial_cmp')
    out = []
    for s, lt in split_bool(eng, st, eng.compare(st, 'Lt', x, y)):
        for s2, eq in ([(s, 0)] if lt else split_bool(eng, s, eng.compare(s, 'Eq', x, y))):
            v = agg('std::cmp::Ordering', 0 if lt else 1 if eq else 2)
            out.append((s2, some(v) if part else v))
    return out


@model('cmp::min', 'cmp::max', 'Ord::min', 'Ord::max')
def m_minmax(eng, st, ci, args, fr, dty):
    a, b = args[0], args[1]
    if not (isinstance(a, (int, T)) and isinstance(b, (int, T))) or isT(a, 'agg') or isT(a, 'ref'):
        return None
    mn = ci['p'].endswith('min')
    c = eng.compare(st, 'Le', a, b)
    out = []
    for s, t in split_bool(eng, st, c):
        out.append((s, (a if t else b) if mn else (b if t else a)))
    return out


# ------------------------------------------------------------------ conversions
@model('From::from', 'Into::into')
def m_from(eng, st, ci, args, fr, dty):
    ts = [eng.prog.types[a] for a in (ci.get('a') or []) if a is not None]
    if len(ts) < 2:
        return None
    if ci['p'].endswith('from'):
        to, frm = ts[0], ts[1]
    else:
        frm, to = ts[0], ts[1]
        if ci['p'].endswith('into'):
            # the blanket impl calls From::from; look at local impls through the body
            if to.get('local'):
                return None
    v = args[0]
    if to == frm:
        return [(st, v)]
    if to['k'] in ('int', 'uint') and frm['k'] in ('int', 'uint', 'bool', 'char'):
        fn = frm['n'] if frm['k'] in ('int', 'uint') else frm['k']
        return [(st, eng.conv(st, v, fn, to['n']))]
    if to['k'] == 'adt':
        p = to['p']
        if p in ('std::string::String', 'std::vec::Vec'):
            if frm['k'] == 'char':
                return [(st, utf8_of(v))]
            s = deref(eng, st, v)
            if isT(s, 'seq'):
                return [(st, s)]
            return None
        if p == 'std::boxed::Box':
            inner = eng.prog.types[to['a'][0]] if to['a'] else {}
            if inner.get('k') == 'dyn':
                d = deep(eng, st, v)
                return [(st, mk('symadt', mk('boxed', d if isinstance(d, T) else mk('k', d)), ty=None))]
            if inner.get('k') in ('slice', 'str'):
                s = deref(eng, st, v)
                if isT(s, 'seq'):
                    return [(st, mk('box', s))]
        if p == OPT and frm.get('p') != OPT:
            return [(st, some(v))]
        if p in ('std::path::PathBuf',):
            return [(st, v)]
    return None


@model('TryFrom::try_from', 'TryInto::try_into')
def m_try_from(eng, st, ci, args, fr, dty):
    ts = [eng.prog.types[a] for a in (ci.get('a') or []) if a is not None]
    if len(ts) < 2:
        return None
    if ci['p'].endswith('try_from'):
        to, frm = ts[0], ts[1]
    else:
        frm, to = ts[0], ts[1]
    v = args[0]
    if to['k'] == 'ref':
        to2 = eng.prog.types[to['e']]
        asref = True
    else:
        to2, asref = to, False
    if to2['k'] == 'array' and to2['l'] is not None:
        r = lastref(eng, st, v)
        n = eng.ref_len(st, r) if isT(r, 'ref') else (seqlen(r) if isT(r, 'seq') else None)
        if n is None:
            return None
        out = []
        for s2, t in split_bool(eng, st, eng.eq_terms(st, n, to2['l'])):
            if t:
                if asref:
                    out.append((s2, ok(r)))
                else:
                    x = deref(eng, s2, v)
                    if isT(x, 'seq'):
                        # the length is now known
                        x = eng.subseq(s2, x, 0, to2['l'])
                        el = elements(x)
                        if el is None:
                            b = mk('base', mk('arr', x), to2['l'])
                            if len(x.a) == 1 and x.a[0][0] == 'o' and isinstance(x.a[0][2], int):
                                x = mkseq([('o', x.a[0][1], x.a[0][2], x.a[0][2] + to2['l'])])
                            elif len(x.a) == 1 and x.a[0][0] == 'o':
                                x = sq_elems([at(x.a[0][1], ladd(x.a[0][2], i)) for i in range(to2['l'])])
                    out.append((s2, ok(x)))
            else:
                out.append((s2, errval(eng, s2, dty, 'tryfromslice') if not isT(v, 'seq') else err(v)))
        return out
    if to['k'] in ('int', 'uint') and frm['k'] in ('int', 'uint'):
        lo, hi = TYR[to['n']]
        c = eng.mk_and([eng.compare(st, 'Le', lo, v), eng.compare(st, 'Le', v, hi)])
        out = []
        for s2, t in split_bool(eng, st, c):
            out.append((s2, ok(eng.conv(s2, v, frm['n'], to['n'])) if t else errval(eng, s2, dty, 'tryfromint')))
        return out
    return None


@model('Default::default')
def m_default(eng, st, ci, args, fr, dty):
    t = selfty(eng, ci)
    k = t.get('k')
    if k in ('int', 'uint', 'bool'):
        return [(st, 0)]
    if k == 'array' and t['l'] is not None and eng.scalar_name(t['e']):
        return [(st, mkseq([('r', 0, t['l'])]))]
    if k == 'adt' and t['p'] in ('std::string::String', 'std::vec::Vec'):
        return [(st, EMPTY)]
    if k == 'adt' and t['p'] == OPT:
        return [(st, NONE)]
    return None


# ------------------------------------------------------------------ integers
def _int_of(ci):
    m = re.search(r'<impl ([iu](?:8|16|32|64|128|size))>', ci['p'])
    if m:
        return m.group(1)
    m = re.match(r'(?:core|std)::num::([iu]\d+|[iu]size)', ci['p'])
    return m.group(1) if m else None


def _arr_of(v):
    return v


for _t in list(TYR):
    if _t[0] in 'iu':
        for _m in ('to_le_bytes', 'to_ne_bytes', 'to_be_bytes', 'from_le_bytes', 'from_ne_bytes', 'from_be_bytes', 'to_le', 'from_le', 'to_be', 'from_be', 'swap_bytes',
                   'wrapping_add', 'wrapping_sub', 'wrapping_mul', 'wrapping_neg', 'wrapping_shl', 'wrapping_shr', 'rotate_right', 'rotate_left',
                   'saturating_sub', 'saturating_add', 'saturating_mul', 'checked_add', 'checked_sub', 'checked_mul', 'checked_div', 'overflowing_add', 'overflowing_sub',
                   'min_value', 'max_value', 'pow', 'leading_zeros', 'trailing_zeros', 'count_ones', 'is_power_of_two', 'checked_shl', 'checked_shr', 'abs_diff', 'div_ceil', 'ilog2',
                   'next_multiple_of', 'unsigned_abs', 'abs', 'rem_euclid', 'div_euclid', 'checked_pow', 'is_multiple_of', 'cast_signed', 'cast_unsigned'):
            def _mk(tn, mn):
                def f(eng, st, ci, args, fr, dty):
                    return int_op(eng, st, ci, args, tn, mn, dty)
                return f
            MODELS['%s::%s' % (_t, _m)] = _mk(_t, _m)


def int_op(eng, st, ci, args, t, m, dty):
    w = WID[t] // 8
    a = args[0] if args else None
    if m in ('to_le', 'from_le'):
        return [(st, a)]
    if m in ('to_be', 'from_be', 'swap_bytes'):
        return [(st, eng.mk_cat(list(reversed(eng.as_bytes(a, w))), t))]
    if m in ('to_le_bytes', 'to_ne_bytes'):
        return [(st, sq_elems(eng.as_bytes(a, w)))]
    if m == 'to_be_bytes':
        return [(st, sq_elems(list(reversed(eng.as_bytes(a, w)))))]
    if m in ('from_le_bytes', 'from_ne_bytes', 'from_be_bytes'):
        e = elements(a) if isT(a, 'seq') else None
        if e is None or len(e) != w:
            return None
        if m == 'from_be_bytes':
            e = e[::-1]
        return [(st, eng.mk_cat(e, t))]
    if m in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        return [(st, eng.binop(st, {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[m[9:]], a, args[1], t))]
    if m == 'wrapping_neg':
        return [(st, eng.binop(st, 'Sub', 0, a, t))]
    if m in ('wrapping_shl', 'wrapping_shr'):
        return [(st, eng.binop(st, 'Shl' if m.endswith('shl') else 'Shr', a, args[1], t))]
    if m in ('rotate_right', 'rotate_left'):
        if isinstance(a, int) and isinstance(args[1], int):
            n = WID[t]
            k = args[1] % n
            u = a & ((1 << n) - 1)
            if m == 'rotate_left':
                k = (n - k) % n
            return [(st, wrap((u >> k) | (u << (n - k)), t))]
        return [(st, mk('rot', m, a if isinstance(a, T) else mk('k', a), args[1] if isinstance(args[1], T) else mk('k', args[1]), ty=t))]
    if m in ('saturating_sub', 'saturating_add', 'saturating_mul', 'checked_add', 'checked_sub', 'checked_mul', 'overflowing_add', 'overflowing_sub'):
        op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[m.split('_')[1]]
        e = eng.exact_arith(op, a, args[1])
        lo, hi = TYR[t]
        if e is None:
            if not m.startswith('checked'):
                return None
            pr = mk('prod', a, args[1])
            c = mk('fits', pr, t, ty='bool')
            return [(s, some(mk('mulx', a, args[1], ty=t)) if tv else NONE) for s, tv in split_bool(eng, st, c)]
        if m.startswith('saturating') or m.startswith('checked') or m.startswith('over'):
            c1 = eng.compare(st, 'Le', lo, e)
            out = []
            for s, tv in split_bool(eng, st, c1):
                if not tv:
                    out.append((s, lo if m[0] == 's' else NONE if m[0] == 'c' else tup(eng.binop(s, op, a, args[1], t), 1)))
                    continue
                for s2, tv2 in split_bool(eng, s, eng.compare(s, 'Le', e, hi)):
                    if tv2:
                        out.append((s2, e if m[0] == 's' else some(e) if m[0] == 'c' else tup(e, 0)))
                    else:
                        out.append((s2, hi if m[0] == 's' else NONE if m[0] == 'c' else tup(eng.binop(s2, op, a, args[1], t), 1)))
            return out
    if m == 'checked_div':
        out = []
        for s, tv in split_bool(eng, st, eng.eq_terms(st, args[1], 0)):
            out.append((s, NONE if tv else some(eng.binop(s, 'Div', a, args[1], t))))
        return out
    if m == 'min_value':
        return [(st, TYR[t][0])]
    if m == 'max_value':
        return [(st, TYR[t][1])]
    if m == 'pow' and isinstance(a, int) and isinstance(args[1], int):
        return [(st, wrap(a ** args[1], t))]
    if m in ('cast_signed', 'cast_unsigned'):
        return [(st, eng.conv(st, a, t, ('i' if m == 'cast_signed' else 'u') + t[1:]))]
    if isinstance(a, int):
        u = a & ((1 << WID[t]) - 1)
        if m == 'leading_zeros':
            return [(st, WID[t] - u.bit_length())]
        if m == 'trailing_zeros':
            return [(st, (u & -u).bit_length() - 1 if u else WID[t])]
        if m == 'count_ones':
            return [(st, bin(u).count('1'))]
        if m == 'ilog2' and u:
            return [(st, u.bit_length() - 1)]
        if m == 'is_power_of_two':
            return [(st, int(u != 0 and u & (u - 1) == 0))]
    if m in ('leading_zeros', 'trailing_zeros', 'count_ones', 'ilog2'):
        x = mk('intop', m, a, ty='u32')
        st.rng[x] = (0, WID[t])
        return [(st, x)]
    return None


def _binop_model(op):
    def f(eng, st, ci, args, fr, dty):
        ts = [eng.prog.types[a] for a in (ci.get('a') or []) if a is not None]
        t = peel(eng, ts[0]) if ts else {}
        n = t['n'] if t.get('k') in ('int', 'uint') else 'bool' if t.get('k') == 'bool' else None
        if n is None:
            return None
        a, b = deref(eng, st, args[0]), deref(eng, st, args[1])
        return [(st, eng.binop(st, op, a, b, n))]
    return f


for _op, _nm in (('BitOr', 'bitor'), ('BitXor', 'bitxor'), ('BitAnd', 'bitand'), ('Shl', 'shl'), ('Shr', 'shr')):
    MODELS['%s::%s' % (_op, _nm)] = _binop_model(_op)


def _binassign_model(op):
    g = _binop_model(op)

    def f(eng, st, ci, args, fr, dty):
        r = g(eng, st, ci, args, fr, dty)
        if r is None:
            return None
        s, v = r[0]
        eng.store(s, args[0], v)
        return [(s, UNIT)]
    return f


for _op, _nm in (('BitOr', 'bitor'), ('BitXor', 'bitxor'), ('BitAnd', 'bitand')):
    MODELS['%sAssign::%s_assign' % (_op, _nm)] = _binassign_model(_op)


def _arith_model(op):
    def f(eng, st, ci, args, fr, dty):
        # debug builds panic on overflow, release builds wrap: follow the build being analysed
        return None
    return f


@model('mem::size_of')
def m_sizeof(eng, st, ci, args, fr, dty):
    t = selfty(eng, ci)
    n = t.get('n')
    if n in WID:
        return [(st, WID[n] // 8)]
    return [(st, mk('sizeof', t.get('d', '?'), ty='usize'))]


@model('Box::new')
def m_boxnew(eng, st, ci, args, fr, dty):
    return [(st, mk('box', args[0]))]


# ------------------------------------------------------------------ calls through Fn traits
@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def m_fncall(eng, st, ci, args, fr, dty):
    a = args[1]
    if is_agg(a, '()'):
        ex = list(a.a[2:])
    elif a is UNIT:
        ex = []
    else:
        return None
    f = args[0]
    g = deref(eng, st, f)
    if isT(g, 'clo') or isT(g, 'fn') or isT(g, 'pyfn'):
        return eng.call_any(st, f, ex, mk('fr', fr, 'call', 0))
    if isT(g, 'zst') or isT(g, 'opaque'):
        return ctor_call(eng, st, ci, g, ex, dty)
    return None


def ctor_call(eng, st, ci, g, ex, dty):
    t = selfty(eng, ci)
    if t.get('k') == 'fndef':
        return eng.call_fn(st, t['c'], ex, mk('fr', 'ctor', st.ctr), dty)
    return None


# ------------------------------------------------------------------ iterators
def is_iter(v):
    return (isT(v) and v.op in ITER_OPS) or is_agg(v, RANGE) or (isT(v, 'agg') and v.a[0] in (RANGEI, 'std::ops::RangeFrom', 'std::range::Range'))


def to_iter(eng, st, v):
    """IntoIterator::into_iter"""
    if is_iter(v):
        return v
    if isT(v, 'seq'):
        return mk('vit', v, 0, seqlen(v))
    if isT(v, 'ref'):
        w = eng.load(st, v)
        if isT(w, 'ref'):
            return to_iter(eng, st, w)
        if is_iter(w):
            return v
        if isT(w, 'seq'):
            return mk('sit', v, 0, eng.ref_len(st, v))
        if is_agg(w, OPT):
            return mk('optit', some(eng.extend_path(st, eng.extend_path(st, v, ('v', 1)), ('f', 0, None)))) if w.a[1] == 1 else mk('optit', NONE)
        return None
    if is_agg(v, OPT):
        return mk('optit', v)
    if isT(v, 'box') and isT(v.a[0], 'seq'):
        return mk('vit', v.a[0], 0, seqlen(v.a[0]))
    return None


@model('IntoIterator::into_iter')
def m_into_iter(eng, st, ci, args, fr, dty):
    it = to_iter(eng, st, args[0])
    return [(st, it)] if it is not None else None


@model('slice::iter', 'slice::iter_mut', 'Vec::iter', 'Option::iter')
def m_iter(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    if 'option' in ci['p']:
        it = to_iter(eng, st, r)
        return [(st, it)] if it is not None else None
    return [(st, mk('sit', r, 0, eng.ref_len(st, r)))]


@model('ChunksExact::remainder', 'ChunksExactMut::into_remainder')
def m_chunks_rest(eng, st, ci, args, fr, dty):
    it = args[0]
    while isT(it, 'ref'):
        it = eng.load(st, it)
    if not isT(it, 'chunks') or not it.a[4]:
        return None
    r, lo, hi, n, ex = it.a
    d = lsub(hi, lo)
    if isinstance(d, int) and isinstance(n, int):
        lo = ladd(lo, d - d % n)
    elif eng.truth(st, eng.compare(st, 'Lt', d, n)) != 1:
        return None
    return [(st, eng.extend_path(st, r, ('s', lo, hi)))]


@model('slice::chunks', 'slice::chunks_mut', 'slice::chunks_exact', 'slice::chunks_exact_mut', 'slice::rchunks')
def m_chunks(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    n = eng.ref_len(st, r)
    if 'rchunks' in ci['p']:
        return None
    ex = 1 if 'exact' in ci['p'] else 0
    if not need(eng, st, eng.compare(st, 'Le', 1, args[1]), 'chunks:size'):
        return []
    return [(st, mk('chunks', r, 0, n, args[1], ex))]


@model('slice::windows')
def m_windows(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    return [(st, mk('windows', r, 0, eng.ref_len(st, r), args[1]))]


def K(v):
    return v


ADAPT = {
    'enumerate': lambda a: mk('enumr', a[0], 0),
    'cloned': lambda a: mk('cloned', a[0]),
    'copied': lambda a: mk('cloned', a[0]),
    'rev': lambda a: mk('rev', a[0]),
    'map': lambda a: mk('map', a[0], a[1]),
    'take': lambda a: mk('take', a[0], a[1]),
    'skip': lambda a: mk('skip', a[0], a[1]),
    'filter': lambda a: mk('filter', a[0], a[1]),
    'filter_map': lambda a: mk('filtermap', a[0], a[1]),
    'flat_map': lambda a: mk('flatmap', a[0], a[1], NONE),
    'flatten': lambda a: mk('flatmap', a[0], mk('k', 'id'), NONE),
    'peekable': lambda a: mk('peek', a[0], NONE),
    'step_by': lambda a: mk('stepby', a[0], a[1], 1),
    'take_while': lambda a: mk('takew', a[0], a[1]),
    'inspect': lambda a: mk('inspect', a[0], a[1]),
}


def _adapter(n):
    def f(eng, st, ci, args, fr, dty):
        it = args[0]
        if not is_iter(it):
            it = to_iter(eng, st, it)
            if it is None:
                return None
        return [(st, ADAPT[n]([it] + list(args[1:])))]
    return f


for _n in ADAPT:
    MODELS['Iterator::' + _n] = _adapter(_n)


@model('Iterator::zip', 'Iterator::chain', 'iter::zip', 'std::iter::zip')
def m_zip(eng, st, ci, args, fr, dty):
    a, b = to_iter(eng, st, args[0]), to_iter(eng, st, args[1])
    if a is None or b is None:
        return None
    return [(st, mk('zip' if ci['p'].endswith('zip') else 'chain', a, b))]


@model('iter::once', 'iter::empty', 'iter::repeat', 'iter::repeat_n')
def m_once(eng, st, ci, args, fr, dty):
    n = ci['p'].rsplit('::', 1)[-1]
    if n == 'once':
        return [(st, mk('optit', some(args[0])))]
    if n == 'empty':
        return [(st, mk('optit', NONE))]
    if n == 'repeat':
        return [(st, mk('repeat', args[0] if isinstance(args[0], T) else mk('k', args[0])))]
    return [(st, mk('vit', mkseq([('r', args[0], args[1])]), 0, args[1]))]


@model('array::map')
def m_array_map(eng, st, ci, args, fr, dty):
    e = elements(args[0])
    if e is None:
        return None
    sts = [(st, [])]
    for i, x in enumerate(e):
        nx = []
        for s, l in sts:
            for s2, v in eng.call_any(s, args[1], [x], mk('fr', fr, 'amap', i)):
                nx.append((s2, l + [v]))
        sts = nx
    return [(s, sq_elems(l)) for s, l in sts]


@model('array::from_fn', 'std::array::from_fn')
def m_array_from_fn(eng, st, ci, args, fr, dty):
    t = eng.prog.types[dty] if dty is not None else {}
    if t.get('k') != 'array' or t['l'] is None or t['l'] > 1024:
        return None
    root = (mk('fnstate', fr, st.ctr), 0)
    st.ctr += 1
    st.mem[root] = args[0]
    ref = mk('ref', root, ())
    sts = [(st, [])]
    for i in range(t['l']):
        nx = []
        for s, l in sts:
            for s2, v in eng.call_any(s, ref, [i], mk('fr', fr, 'afn', i)):
                nx.append((s2, l + [v]))
        sts = nx
    return [(s, sq_elems(l)) for s, l in sts]


def unbounded(eng, st, it):
    """the number of items left in an iterator, when it is a quantity only known at run time"""
    n = it_remaining(eng, st, it)
    if n is None or isinstance(n, int):
        return None
    lo, hi = eng.trange(st, n)
    return n if lo != hi else None


def pick_next(eng, st, it, n, fr):
    """next item of a filter over an unknown number of items: some later item that passes, or none"""
    inner, f = it.a
    none = st.copy()
    out = [(none, None, mk(it.op, mk('optit', NONE), f))]
    j = st.fresh('pick', ty='usize')
    if not eng.assume(st, eng.compare(st, 'Lt', j, n), 1):
        return out
    rest = skip_n(eng, st, inner, j)
    if rest is None:
        return None
    for s2, x, i2 in it_next(eng, st, rest, fr):
        if x is None:
            continue
        for s3, v in eng.call_any(s2, f, [x if it.op == 'filtermap' else cref(x)], mk('fr', fr, 'flt', 0)):
            if it.op == 'filtermap':
                if is_agg(v, OPT, 1):
                    out.append((s3, v.a[2], mk(it.op, i2, f)))
                elif not is_agg(v, OPT, 0):
                    return None
                continue
            for s4, t in split_bool(eng, s3, v):
                if t:
                    out.append((s4, x, mk(it.op, i2, f)))
    return out


def rng_next(eng, st, lo, hi, mkit, item, fwd=True):
    """one step over the half-open index interval [lo, hi)"""
    c = eng.compare(st, 'Lt', lo, hi)
    out = []
    for s, t in split_bool(eng, st, c):
        if t:
            if fwd:
                out.append((s, item(s, lo), mkit(ladd(lo, 1), hi)))
            else:
                h = lsub(hi, 1)
                out.append((s, item(s, h), mkit(lo, h)))
        else:
            out.append((s, None, mkit(lo, hi)))
    return out


def it_next(eng, st, it, fr, fwd=True):
    """-> [(state, item | None, iterator')]"""
    op = it.op
    if op == 'sit':
        r = it.a[0]
        return rng_next(eng, st, it.a[1], it.a[2], lambda a, b: mk('sit', r, a, b), lambda s, i: eng.extend_path(s, r, ('i', i)), fwd)
    if op == 'vit':
        q = it.a[0]
        return rng_next(eng, st, it.a[1], it.a[2], lambda a, b: mk('vit', q, a, b), lambda s, i: eng.seq_at(s, q, i), fwd)
    if op == 'agg' and it.a[0] in (RANGE, 'std::range::Range'):
        return rng_next(eng, st, it.a[2], it.a[3], lambda a, b: mk('agg', it.a[0], 0, a, b), lambda s, i: i, fwd)
    if op == 'agg' and it.a[0] == RANGEI:
        lo, hi, ex = it.a[2], it.a[3], it.a[4]
        if ex == 1:
            return [(st, None, it)]
        out = []
        for s, t in split_bool(eng, st, eng.compare(st, 'Lt', lo, hi)):
            if t:
                if fwd:
                    out.append((s, lo, mk('agg', RANGEI, 0, ladd(lo, 1), hi, 0)))
                else:
                    out.append((s, hi, mk('agg', RANGEI, 0, lo, lsub(hi, 1), 0)))
            else:
                for s2, t2 in split_bool(eng, s, eng.eq_terms(s, lo, hi)):
                    out.append((s2, lo if t2 else None, mk('agg', RANGEI, 0, lo, hi, 1)))
        return out
    if op == 'agg' and it.a[0] == 'std::ops::RangeFrom':
        return [(st, it.a[2], mk('agg', it.a[0], 0, ladd(it.a[2], 1)))]
    if op == 'zip':
        if not fwd:
            na, nb = it_remaining(eng, st, it.a[0]), it_remaining(eng, st, it.a[1])
            if na is None or nb is None:
                raise Unsupported('rev of zip')
            if na is not nb and na != nb:
                out = []
                for s, t in split_bool(eng, st, eng.compare(st, 'Le', na, nb)):
                    n = na if t else nb
                    x = mk('zip', keep_n(eng, s, it.a[0], n), keep_n(eng, s, it.a[1], n))
                    for s2, i, ia in it_next(eng, s, x.a[0], fr, False):
                        if i is None:
                            out.append((s2, None, mk('zip', ia, x.a[1])))
                            continue
                        for s3, j, ib in it_next(eng, s2, x.a[1], fr, False):
                            out.append((s3, None if j is None else tup(i, j), mk('zip', ia, ib)))
                return out
        out = []
        for s, x, ia in it_next(eng, st, it.a[0], fr, fwd):
            if x is None:
                out.append((s, None, mk('zip', ia, it.a[1])))
                continue
            for s2, y, ib in it_next(eng, s, it.a[1], fr, fwd):
                out.append((s2, None if y is None else tup(x, y), mk('zip', ia, ib)))
        return out
    if op == 'enumr':
        if not fwd:
            n = it_remaining(eng, st, it.a[0])
            if n is None:
                raise Unsupported('rev of enumerate')
            return [(s, None if x is None else tup(ladd(it.a[1], lsub(n, 1)), x), mk('enumr', i2, it.a[1])) for s, x, i2 in it_next(eng, st, it.a[0], fr, fwd)]
        return [(s, None if x is None else tup(it.a[1], x), mk('enumr', i2, ladd(it.a[1], 1) if x is not None else it.a[1])) for s, x, i2 in it_next(eng, st, it.a[0], fr)]
    if op == 'cloned':
        return [(s, None if x is None else (eng.load(s, x) if isT(x, 'ref') else x), mk('cloned', i2)) for s, x, i2 in it_next(eng, st, it.a[0], fr, fwd)]
    if op == 'rev':
        return [(s, x, mk('rev', i2)) for s, x, i2 in it_next(eng, st, it.a[0], fr, not fwd)]
    if op == 'map' or op == 'inspect':
        out = []
        for s, x, i2 in it_next(eng, st, it.a[0], fr, fwd):
            if x is None:
                out.append((s, None, mk(op, i2, it.a[1])))
                continue
            s.ctr += 1
            for s2, f2, v in call_keep(eng, s, it.a[1], [x] if op == 'map' else [cref(x)], mk('fr', fr, 'map', 0)):
                out.append((s2, v if op == 'map' else x, mk(op, i2, f2)))
        return out
    if op == 'take':
        if isinstance(it.a[1], int) and it.a[1] <= 0:
            return [(st, None, it)]
        if not fwd:
            n = it_remaining(eng, st, it.a[0])
            if n is None:
                raise Unsupported('rev of take')
            out = []
            for s, t in split_bool(eng, st, eng.compare(st, 'Le', n, it.a[1])):
                for s2, x, i2 in it_next(eng, s, it.a[0] if t else keep_n(eng, s, it.a[0], it.a[1]), fr, False):
                    out.append((s2, x, i2))
            return out
        out = []
        for s, t in split_bool(eng, st, eng.compare(st, 'Le', 1, it.a[1])):
            if not t:
                out.append((s, None, it))
                continue
            for s2, x, i2 in it_next(eng, s, it.a[0], fr):
                out.append((s2, x, mk('take', i2, lsub(it.a[1], 1))))
        return out
    if op == 'skip':
        inner, n = it.a
        if isinstance(n, int) and n == 0:
            return [(s, x, mk('skip', i2, 0)) for s, x, i2 in it_next(eng, st, inner, fr, fwd)]
        j = skip_n(eng, st, inner, n)
        if j is not None:
            return [(s, x, mk('skip', i2, 0)) for s, x, i2 in it_next(eng, st, j, fr, fwd)]
        if not isinstance(n, int) or not fwd:
            raise Unsupported('skip')
        sts = [(st, inner, False)]
        for _ in range(n):
            nx = []
            for s, i, done in sts:
                if done:
                    nx.append((s, i, True))
                    continue
                for s2, x, i2 in it_next(eng, s, i, fr):
                    nx.append((s2, i2, x is None))
            sts = nx
        out = []
        for s, i, done in sts:
            if done:
                out.append((s, None, mk('skip', i, 0)))
            else:
                out.extend((s2, x, mk('skip', i2, 0)) for s2, x, i2 in it_next(eng, s, i, fr))
        return out
    if op == 'chain':
        a, b = it.a
        if not fwd:
            raise Unsupported('rev of chain')
        out = []
        for s, x, ia in it_next(eng, st, a, fr):
            if x is not None:
                out.append((s, x, mk('chain', ia, b)))
            else:
                out.extend((s2, y, mk('chain', ia, ib)) for s2, y, ib in it_next(eng, s, b, fr))
        return out
    if op == 'optit':
        o = it.a[0]
        if is_agg(o, OPT, 1):
            return [(st, o.a[2], mk('optit', NONE))]
        return [(st, None, it)]
    if op == 'repeat':
        v = it.a[0]
        return [(st, v.a[0] if isT(v, 'k') else v, it)]
    if op == 'chunks':
        r, lo, hi, n, ex = it.a
        if not fwd:
            raise Unsupported('rev of chunks')
        out = []
        c = eng.compare(st, 'Le', ladd(lo, n), hi)
        for s, t in split_bool(eng, st, c):
            if t:
                out.append((s, eng.extend_path(s, r, ('s', lo, ladd(lo, n))), mk('chunks', r, ladd(lo, n), hi, n, ex)))
                continue
            if ex:
                out.append((s, None, it))
                continue
            for s2, t2 in split_bool(eng, s, eng.compare(s, 'Lt', lo, hi)):
                if t2:
                    out.append((s2, eng.extend_path(s2, r, ('s', lo, hi)), mk('chunks', r, hi, hi, n, ex)))
                else:
                    out.append((s2, None, it))
        return out
    if op == 'windows':
        r, lo, hi, n = it.a
        out = []
        for s, t in split_bool(eng, st, eng.compare(st, 'Le', ladd(lo, n), hi)):
            out.append((s, eng.extend_path(s, r, ('s', lo, ladd(lo, n))), mk('windows', r, ladd(lo, 1), hi, n)) if t else (s, None, it))
        return out
    if op == 'lines':
        s0, k = it.a
        if not fwd:
            raise Unsupported('rev of lines')
        if not isinstance(k, int):
            ln = mk('line', s0, k)
            return [(st.copy(), None, it), (st, opaque_text(ln), mk('lines', s0, ladd(k, 1)))]
        known = text_lines(eng, st, s0, True)
        if known is not None:
            if k >= len(known[0]):
                return [(st, None, it)]
            return [(st, cref(known[0][k]), mk('lines', s0, k + 1))]
        c = mk('nlines', s0, k, ty='bool')
        # having line k implies having every earlier one
        for j in range(k):
            if eng.truth(st, mk('nlines', s0, j, ty='bool')) == 0:
                return [(st, None, it)]
        out = []
        for s, t in split_bool(eng, st, c):
            out.append((s, opaque_text(mk('line', s0, k)), mk('lines', s0, k + 1)) if t else (s, None, it))
        return out
    if op == 'splitit':
        sp, k = it.a
        if not isinstance(k, int) or not fwd:
            raise Unsupported('split')
        if sp.a[0] in ('split', 'split_terminator') and sp.a[2:] == (mk('k', 10),):
            ps = text_pieces(eng, st, sp.a[1])
            if ps is not None:
                if sp.a[0] == 'split_terminator' and ps[-1] is EMPTY:
                    ps.pop()
                return [(st, cref(ps[k]), mk('splitit', sp, k + 1)) if k < len(ps) else (st, None, it)]
        out = []
        for s, t in split_bool(eng, st, mk('npieces', sp, k, ty='bool')):
            out.append((s, opaque_text(mk('piece', sp, k)), mk('splitit', sp, k + 1)) if t else (s, None, it))
        return out
    if op in ('filter', 'filtermap') and fwd:
        n = unbounded(eng, st, it.a[0])
        if n is not None:
            r = pick_next(eng, st, it, n, fr)
            if r is not None:
                return r
    if op == 'filter' or op == 'takew' or op == 'filtermap':
        out = []
        work = [(st, it.a[0])]
        n = 0
        while work:
            n += 1
            if n > 6000 or len(out) > 300:
                raise Unsupported('filter')
            s, i = work.pop()
            for s2, x, i2 in it_next(eng, s, i, fr, fwd):
                if x is None:
                    out.append((s2, None, mk(op, i2, it.a[1])))
                    continue
                for s3, v in eng.call_any(s2, it.a[1], [x if op == 'filtermap' else cref(x)], mk('fr', fr, 'flt', 0)):
                    if op == 'filtermap':
                        if is_agg(v, OPT, 1):
                            out.append((s3, v.a[2], mk(op, i2, it.a[1])))
                        elif is_agg(v, OPT, 0):
                            work.append((s3, i2))
                        else:
                            raise Unsupported('filter_map')
                        continue
                    for s4, t in split_bool(eng, s3, v):
                        if t:
                            out.append((s4, x, mk(op, i2, it.a[1])))
                        elif op == 'filter':
                            work.append((s4, i2))
                        else:
                            out.append((s4, None, mk(op, mk('optit', NONE), it.a[1])))
        return out
    if op == 'flatmap':
        inner, f, cur = it.a
        out = []
        work = [(st, inner, cur)]
        n = 0
        while work:
            n += 1
            if n > 6000 or not fwd:
                raise Unsupported('flat_map')
            s, i, c = work.pop()
            if c is not NONE:
                for s2, x, c2 in it_next(eng, s, c, fr):
                    if x is not None:
                        out.append((s2, x, mk('flatmap', i, f, c2)))
                    else:
                        work.append((s2, i, NONE))
                continue
            for s2, x, i2 in it_next(eng, s, i, fr):
                if x is None:
                    out.append((s2, None, mk('flatmap', i2, f, NONE)))
                    continue
                rs = [(s2, x)] if isT(f, 'k') else eng.call_any(s2, f, [x], mk('fr', fr, 'flat', 0))
                for s3, v in rs:
                    j = to_iter(eng, s3, v)
                    if j is None:
                        raise Unsupported('flat_map of %r' % (v,))
                    work.append((s3, i2, j))
        return out
    if op == 'peek':
        inner, pk = it.a
        if pk is not NONE:
            return [(st, pk.a[2].a[2] if is_agg(pk.a[2], OPT, 1) else None, mk('peek', inner, NONE))]
        return [(s, x, mk('peek', i2, NONE)) for s, x, i2 in it_next(eng, st, inner, fr, fwd)]
    if op == 'stepby':
        inner, n, first = it.a
        if not isinstance(n, int) or not fwd:
            raise Unsupported('step_by')
        k = 0 if first else n - 1
        j = skip_n(eng, st, inner, k) if k else inner
        if j is None:
            raise Unsupported('step_by')
        return [(s, x, mk('stepby', i2, n, 0)) for s, x, i2 in it_next(eng, st, j, fr)]
    if op == 'charsof':
        raise Unsupported('chars of unknown text')
    raise Unsupported('next on ' + op)


def call_keep(eng, st, f, args, fr):
    """call an FnMut held by value; returns (state, closure afterwards, value)"""
    if isT(f, 'clo'):
        st.ctr += 1
        root = (mk('clokeep', fr, st.ctr), 0)
        st.mem[root] = f
        ref = mk('ref', root, ())
        out = []
        for s, v in eng.call_closure(st, f, ref, args, fr):
            out.append((s, s.mem.pop(root, f), v))
        return out
    return [(s, f, v) for s, v in eng.call_any(st, f, args, fr)]


def skip_n(eng, st, it, n):
    """iterator after n steps when it surely has them (or clamps); None if unknown"""
    if is_iter(it) and it.op in ('sit', 'vit', 'agg'):
        if it.op == 'agg' and it.a[0] not in (RANGE, 'std::range::Range'):
            return None
        i, j = (1, 2) if it.op != 'agg' else (2, 3)
        lo, hi = it.a[i], it.a[j]
        nl = ladd(lo, n)
        if eng.nonneg(st, lsub(hi, nl)):
            a = list(it.a)
            a[i] = nl
            return mk(it.op, *a)
        if eng.nonneg(st, lsub(nl, hi)):
            a = list(it.a)
            a[i] = hi
            return mk(it.op, *a)
        return None
    if it.op in ('cloned', 'rev', 'map') and it.op != 'rev' and it.op != 'map':
        x = skip_n(eng, st, it.a[0], n)
        return None if x is None else mk(it.op, x)
    if it.op == 'enumr':
        x = skip_n(eng, st, it.a[0], n)
        return None if x is None else mk('enumr', x, ladd(it.a[1], n))
    if it.op == 'zip':
        x, y = skip_n(eng, st, it.a[0], n), skip_n(eng, st, it.a[1], n)
        return None if x is None or y is None else mk('zip', x, y)
    if it.op == 'skip' and isinstance(it.a[1], int) and it.a[1] == 0:
        return skip_n(eng, st, it.a[0], n)
    return None


def keep_n(eng, st, it, n):
    """the iterator cut to its first n items, which it is known to have"""
    if it_remaining(eng, st, it) is n or it_remaining(eng, st, it) == n:
        return it
    if is_iter(it) and it.op in ('sit', 'vit') or it.op == 'agg' and it.a[0] in (RANGE, 'std::range::Range'):
        i, j = (1, 2) if it.op != 'agg' else (2, 3)
        a = list(it.a)
        a[j] = ladd(a[i], n)
        return mk(it.op, *a)
    if it.op in ('cloned', 'map', 'enumr'):
        return mk(it.op, keep_n(eng, st, it.a[0], n), *it.a[1:])
    if it.op == 'zip':
        return mk('zip', keep_n(eng, st, it.a[0], n), keep_n(eng, st, it.a[1], n))
    if it.op == 'rev':
        m = it_remaining(eng, st, it.a[0])
        x = skip_n(eng, st, it.a[0], lsub(m, n)) if m is not None else None
        if x is not None:
            return mk('rev', x)
    raise Unsupported('cut of ' + it.op)


def it_remaining(eng, st, it):
    """number of items left, as a linear term, or None"""
    op = it.op
    if op in ('sit', 'vit'):
        return lsub(it.a[2], it.a[1])
    if op == 'agg' and it.a[0] in (RANGE, 'std::range::Range'):
        n = lsub(it.a[3], it.a[2])
        if isinstance(n, int):
            return max(n, 0)
        return n if eng.nonneg(st, n) else 0 if eng.nonneg(st, lsub(0, n)) else None
    if op == 'agg' and it.a[0] == RANGEI:
        if it.a[4] == 1:
            return 0
        n = ladd(lsub(it.a[3], it.a[2]), 1)
        return max(n, 0) if isinstance(n, int) else (n if eng.nonneg(st, n) else None)
    if op == 'zip':
        a, b = it_remaining(eng, st, it.a[0]), it_remaining(eng, st, it.a[1])
        if a is None and isT(it.a[0], 'agg'):
            return b
        if b is None and isT(it.a[1], 'agg'):
            return a
        if a is None or b is None:
            if isT(it.a[1], 'repeat'):
                return a
            return None
        if eng.nonneg(st, lsub(b, a)):
            return a
        if eng.nonneg(st, lsub(a, b)):
            return b
        return None
    if op in ('enumr', 'cloned', 'rev', 'map', 'inspect'):
        return it_remaining(eng, st, it.a[0])
    if op == 'take':
        a = it_remaining(eng, st, it.a[0])
        n = it.a[1]
        if a is None:
            return n if isT(it.a[0], 'repeat') else None
        return n if eng.nonneg(st, lsub(a, n)) else a if eng.nonneg(st, lsub(n, a)) else None
    if op == 'skip':
        a = it_remaining(eng, st, it.a[0])
        if a is None:
            return None
        d = lsub(a, it.a[1])
        return d if eng.nonneg(st, d) else 0 if eng.nonneg(st, lsub(0, d)) else None
    if op == 'chain':
        a, b = it_remaining(eng, st, it.a[0]), it_remaining(eng, st, it.a[1])
        return None if a is None or b is None else ladd(a, b)
    if op == 'optit':
        return 1 if is_agg(it.a[0], OPT, 1) else 0
    if op == 'chunks':
        n = lsub(it.a[2], it.a[1])
        if isinstance(n, int) and isinstance(it.a[3], int):
            return n // it.a[3] if it.a[4] else -(-n // it.a[3])
        return None
    if op == 'stepby':
        n = it_remaining(eng, st, it.a[0])
        if isinstance(n, int) and isinstance(it.a[1], int):
            k = it.a[1]
            return -(-n // k) if it.a[2] else n // k
        return None
    return None


@model('Iterator::next', 'DoubleEndedIterator::next_back', 'Iterator::nth')
def m_next(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    it = eng.load(st, r) if isT(r, 'ref') else r
    # an iterator stored behind a reference held by another reference
    if not is_iter(it):
        return None
    fwd = not ci['p'].endswith('next_back')
    try:
        if ci['p'].endswith('nth'):
            res = it_next(eng, st, mk('skip', it, args[1]), fr)
            res = [(s, x, i2.a[0] if i2.op == 'skip' else i2) for s, x, i2 in res]
        else:
            res = it_next(eng, st, it, fr, fwd)
    except Unsupported as e:
        eng.note_unmodelled('iterator: %s' % e, st)
        return eng.havoc_call(st, ci['p'], args, dty)
    out = []
    for s, x, i2 in res:
        eng.store(s, r, i2)
        out.append((s, NONE if x is None else some(x)))
    return out


@model('Peekable::peek')
def m_peek(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    it = eng.load(st, r)
    if not isT(it, 'peek'):
        return None
    out = []
    if it.a[1] is not NONE:
        o = it.a[1].a[2]
        return [(st, some(cref(o.a[2])) if o.a[1] == 1 else NONE)]
    for s, x, i2 in it_next(eng, st, it.a[0], fr):
        o = NONE if x is None else some(x)
        eng.store(s, r, mk('peek', i2, some(o)))
        out.append((s, NONE if x is None else some(cref(x))))
    return out


LOOP_BODY = {'key': '(iteration)', 'p': '(iteration)', 'crate': 'core', 'span': [0, 0], 'argc': 2, 'locals': [0] * 5, 'names': [], 'spread': None,
             'parent': None}


def loop_over(eng, st, it, fr, step, init):
    """fold step over a symbolic number of items: a loop body made of the step, run with an inductive invariant like any other loop"""
    from .prog import Body

    def advance(eng, s, args):
        i, acc = args
        out = []
        for s2, x, i2 in it_next(eng, s, i, fr):
            if x is None:
                out.append((s2, E.tup(0, i2 if i2 is not None else i, acc)))
                continue
            for s3, a3, stop in step(s2, acc, x):
                out.append((s3, E.tup(2 if stop else 1, i2, a3)))
        return out

    def part(k):
        return mk('pyfn', lambda eng, s, args: [(s, args[0].a[2 + k])])

    def call(f, args, dest, nxt):
        return {'s': [], 't': ['call', ['v', f], args, [dest, []], nxt, [0, 0]]}
    blocks = [{'s': [], 't': ['goto', 1]},
              call(mk('pyfn', advance), [['c', [1, []]], ['c', [2, []]]], 3, 2),
              call(part(0), [['c', [3, []]]], 4, 3),
              {'s': [], 't': ['sw', ['c', [4, []]], [[0, 6], [1, 4]], 6, [0, 0]]},
              call(part(1), [['c', [3, []]]], 1, 5),
              call(part(2), [['c', [3, []]]], 2, 1),
              {'s': [['=', [0, []], ['use', ['c', [3, []]]], [0, 0]]], 't': ['ret']}]
    body = Body(eng.prog, dict(LOOP_BODY, blocks=blocks))
    outs = eng.run_body(st, body, [it, init], mk('fr', fr, 'iteration', 0))
    return [(s, v.a[4], v.a[2] == 2) for s, v in outs]


def exhaust(eng, st, it, fr, step, init, limit=5000):
    """fold step over the remaining items; step(state, acc, item) -> [(state, acc, stop)]"""
    n = it_remaining(eng, st, it)
    if n is not None and not isinstance(n, int):
        lo, hi = eng.trange(st, n)
        if lo != hi:
            if isinstance(init, (int, T)):
                return loop_over(eng, st, it, fr, step, init)
            return None
    if n is None:
        for x in subterms(it):
            if isT(x, 'agg') and x.a[0] in (RANGE, 'std::range::Range') and not isinstance(lsub(x.a[3], x.a[2]), int) and it_remaining(eng, st, x) is None:
                out = []
                for s, _ in split_bool(eng, st, eng.compare(st, 'Lt', x.a[2], x.a[3])):
                    r = exhaust(eng, s, it, fr, step, init, limit)
                    if r is None:
                        return None
                    out.extend(r)
                return out
    guess = n is None and isinstance(init, (int, T)) and st.copy()
    work = [(st, it, init)]
    done = []
    k = 0
    while work:
        k += 1
        if guess and k > 150:
            return loop_over(eng, guess, it, fr, step, init)
        if k > limit:
            return None
        s, i, acc = work.pop()
        for s2, x, i2 in it_next(eng, s, i, fr):
            if x is None:
                done.append((s2, acc, False))
                continue
            for s3, a3, stop in step(s2, acc, x):
                if stop:
                    done.append((s3, a3, True))
                else:
                    work.append((s3, i2, a3))
        if len(work) > 600:
            return None
    return done


def sym_collect(eng, st, it):
    """sequence of the items of an iterator of unknown length, without running it"""
    if it.op == 'vit':
        return eng.subseq(st, it.a[0], it.a[1], it.a[2])
    if it.op == 'cloned' and it.a[0].op == 'sit':
        s = as_seq(eng, st, it.a[0].a[0])
        return eng.subseq(st, s, it.a[0].a[1], it.a[0].a[2])
    if it.op == 'cloned' and it.a[0].op == 'vit':
        return None
    if it.op == 'chain':
        a, b = sym_collect(eng, st, it.a[0]), sym_collect(eng, st, it.a[1])
        return None if a is None or b is None else concat(a, b)
    if it.op == 'take':
        n = it_remaining(eng, st, it)
        a = sym_collect(eng, st, it.a[0])
        return None if n is None or a is None else eng.subseq(st, a, 0, n)
    if it.op == 'skip':
        a = sym_collect(eng, st, it.a[0])
        n = it_remaining(eng, st, it)
        if a is None or n is None:
            return None
        return eng.subseq(st, a, it.a[1], seqlen(a))
    if it.op == 'optit':
        return sq_elems([it.a[0].a[2]]) if is_agg(it.a[0], OPT, 1) else EMPTY
    return None


def flatten_syms(eng, st, it, fr):
    """a flat_map over a concrete outer list with inner iterators of symbolic length"""
    if it.op != 'flatmap':
        return None
    acc = [(st, EMPTY)]
    if it.a[2] is not NONE:
        c = sym_collect(eng, st, it.a[2])
        if c is None:
            return None
        acc = [(st, c)]
    n = it_remaining(eng, st, it.a[0])
    if not isinstance(n, int):
        return None
    outer = [(st, it.a[0], acc[0][1])]
    done = []
    while outer:
        s, i, a = outer.pop()
        for s2, x, i2 in it_next(eng, s, i, fr):
            if x is None:
                done.append((s2, a))
                continue
            rs = [(s2, x)] if isT(it.a[1], 'k') else eng.call_any(s2, it.a[1], [x], mk('fr', fr, 'flat', 0))
            for s3, v in rs:
                j = to_iter(eng, s3, v)
                if j is None:
                    return None
                c = sym_collect(eng, s3, j)
                if c is None:
                    return None
                outer.append((s3, i2, concat(a, c)))
    return done


def gather(eng, st, it, fr):
    """-> [(state, seq)] or None"""
    c = sym_collect(eng, st, it)
    if c is not None:
        return [(st, c)]
    f = flatten_syms(eng, st.copy(), it, fr)
    if f is not None:
        return f
    for x in subterms(it):
        if isinstance(x, T) and x.op in ('filter', 'filtermap', 'takew') and unbounded(eng, st, x.a[0]) is not None:
            # some of the items: only that they come from there is known
            n = unbounded(eng, st, x.a[0])
            nm = mk('some_of', deep_in(eng, st, it), st.ctr)
            st.ctr += 1
            try:
                sts = loop_over(eng, st, it, fr, lambda s, a, y: [(s, a, False)], 0)
            except Unsupported:
                return None
            if sts is None:
                return None
            return [(s, sq_base(mk('base', nm, mk('len', nm, ty='usize')))) for s, _, _ in sts]
    try:
        r = exhaust(eng, st, it, fr, lambda s, a, x: [(s, a + (x,), False)], ())
    except Unsupported:
        return None
    if r is None:
        return None
    return [(s, sq_elems(list(a))) for s, a, _ in r]


@model('Extend::extend')
def m_extend(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    if not isT(v, 'seq'):
        return None
    it = to_iter(eng, st, args[1])
    if it is None:
        return None
    vt = peel(eng, selfty(eng, ci))
    et = eng.prog.types[vt['a'][0]] if vt.get('k') == 'adt' and vt.get('a') and vt['a'][0] is not None else {}
    if is_str_ty(vt):
        g = gather(eng, st, it, fr)
        if g is None:
            return None
        out = []
        for s, q in g:
            e = elements(q)
            if e is None:
                return None
            parts = [utf8_of(x) if not isT(x, 'ref') and not isT(x, 'seq') else as_seq(eng, s, x) for x in e]
            eng.store(s, r, concat(v, *parts))
            out.append((s, UNIT))
        return out
    # Extend<&T>: items are references to copy
    if et.get('k') != 'ref' and it.op == 'sit':
        it = mk('cloned', it)
    g = gather(eng, st, it, fr)
    if g is None:
        return None
    out = []
    for s, q in g:
        e = elements(q)
        if e is not None and et.get('k') != 'ref' and any(isT(x, 'ref') for x in e):
            q = sq_elems([eng.load(s, x) if isT(x, 'ref') else x for x in e])
        eng.store(s, r, concat(eng.load(s, r), q))
        out.append((s, UNIT))
    return out


@model('Iterator::collect', 'FromIterator::from_iter')
def m_collect(eng, st, ci, args, fr, dty):
    it = args[0] if is_iter(args[0]) else to_iter(eng, st, args[0])
    if it is None:
        return None
    t = eng.prog.types[dty] if dty is not None else {}
    if it.op == 'lines' and t.get('p') == 'std::vec::Vec' and it.a[1] == 0:
        et = t['a'][0]
        nm = mk('linesof', it.a[0])
        return [(st, sq_base(mk('base', nm, mk('len', nm, ty='usize'), ty=et)))]
    if t.get('k') == 'adt' and t['p'] in ('std::vec::Vec', 'std::string::String') or (t.get('k') == 'adt' and t['p'] == 'std::boxed::Box'):
        g = gather(eng, st, it, fr)
        if g is None:
            return None
        if t['p'] == 'std::string::String':
            out = []
            for s, q in g:
                e = elements(q)
                if e is None:
                    return None
                out.append((s, concat(*[utf8_of(x) if not isT(x, 'ref') and not isT(x, 'seq') else as_seq(eng, s, x) for x in e])))
            return out
        if t['p'] == 'std::boxed::Box':
            return [(s, mk('box', q)) for s, q in g]
        return g
    if t.get('k') == 'adt' and t['p'] in (RES, OPT):
        good = 0 if t['p'] == RES else 1

        def step(s, a, x):
            if is_agg(x, t['p'], good):
                return [(s, a + (x.a[2],), False)]
            if is_agg(x, t['p']):
                return [(s, x, True)]
            raise Unsupported('collect')
        try:
            r = exhaust(eng, st, it, fr, step, ())
        except Unsupported:
            return None
        if r is None:
            return None
        return [(s, a if stop else agg(t['p'], good, sq_elems(list(a)))) for s, a, stop in r]
    return None


@model('Iterator::count')
def m_count(eng, st, ci, args, fr, dty):
    it = args[0]
    if not is_iter(it):
        return None
    n = it_remaining(eng, st, it)
    if n is not None:
        return [(st, n)]
    if it.op == 'lines':
        return [(st, mk('linecount', it.a[0], ty='usize'))]
    try:
        r = exhaust(eng, st, it, fr, lambda s, a, x: [(s, ladd(a, 1), False)], 0, 600)
    except Unsupported:
        r = None
    if r is None:
        nm = mk('count', it, ty='usize')
        return [(st, nm)]
    return [(s, a) for s, a, _ in r]


@model('Iterator::fold', 'Iterator::for_each', 'Iterator::any', 'Iterator::all', 'Iterator::position', 'Iterator::find', 'Iterator::sum',
       'Iterator::product', 'Iterator::last', 'Iterator::max', 'Iterator::min', 'Iterator::eq', 'Iterator::ne', 'Iterator::try_fold', 'Iterator::try_for_each', 'Iterator::reduce',
       'Iterator::find_map')
def m_consume(eng, st, ci, args, fr, dty):
    n = ci['p'].rsplit('::', 1)[-1]
    byref = isT(args[0], 'ref')
    it0 = args[0]
    r = None
    if byref:
        r = lastref(eng, st, args[0])
        it0 = eng.load(st, r)
    if not is_iter(it0):
        return None
    it = it0
    fs = args[-1] if len(args) > 1 else None
    f = None
    if n in ('fold', 'try_fold'):
        f = args[2]
    elif n in ('for_each', 'any', 'all', 'position', 'find', 'try_for_each', 'reduce', 'find_map'):
        f = args[1]
    # any/all over text of unknown length: decide what it says about line breaks
    if n in ('any', 'all') and (it.op == 'charsof' or it_remaining(eng, st, it) is None or not isinstance(it_remaining(eng, st, it), int)):
        src = None
        br = False
        if it.op == 'charsof' and it.a[1] == 'chars':
            src = it.a[0]
        elif it.op == 'cloned' and it.a[0].op == 'sit':
            src = as_seq(eng, st, it.a[0].a[0])
            if not (it.a[0].a[1] == 0 and it.a[0].a[2] is seqlen(src)):
                src = eng.subseq(st, src, it.a[0].a[1], it.a[0].a[2])
        elif it.op == 'sit':
            src = as_seq(eng, st, it.a[0])
            br = True
        if src is not None:
            if n == 'any':
                t = const_search(eng, st, src, f, fr, br)
                if t is not None:
                    return [(st, t)]
                cs, exact = pred_set(eng, st, f, fr, br, bytes_=it.op != 'charsof')
                if exact and all(no_break(eng, st, g) for g in src.a):
                    return [(st, 0)]
                return [(st, contains_term(eng, src, cs, mk('exact') if exact else mk('pred', f if isT(f) else mk('k', 0))))]
            if const_bytes(src) is not None and all(c < 128 for c in const_bytes(src)):
                vs = [v for c in sorted(set(const_bytes(src))) for _, v in eng.call_any(st.copy(), f, [cref(c) if br else c], mk('fr', fr, 'pred', c))]
                if all(isinstance(v, int) for v in vs):
                    return [(st, 1 if all(vs) else 0)]
            cs, exact = pred_set(eng, st, f, fr, br, 0, it.op != 'charsof')
            if exact and all(no_break(eng, st, g) for g in src.a):
                return [(st, 1)]
            return [(st, eng.mk_not(contains_term(eng, src, cs, mk('exact') if exact else mk('npred', f if isT(f) else mk('k', 0)))))]
    fref = None
    if f is not None and isT(f, 'clo'):
        st.ctr += 1
        root = (mk('clofold', fr, st.ctr), 0)
        st.mem[root] = f
        fref = mk('ref', root, ())

    def callf(s, a, k=[0]):
        k[0] += 1
        return eng.call_any(s, fref if fref is not None else f, a, mk('fr', fr, 'it', 0))

    def finish(res, conv):
        out = []
        for s, a, stop in res:
            if fref is not None:
                s.mem.pop(fref.a[0], None)
            out.append((s, conv(s, a, stop)))
        return out
    try:
        if n == 'fold':
            res = exhaust(eng, st, it, fr, lambda s, a, x: [(s2, v, False) for s2, v in callf(s, [a, x])], args[1])
            return None if res is None else finish(res, lambda s, a, p: a)
        if n == 'for_each':
            res = exhaust(eng, st, it, fr, lambda s, a, x: [(s2, a, False) for s2, v in callf(s, [x])], UNIT)
            return None if res is None else finish(res, lambda s, a, p: UNIT)
        if n in ('any', 'all'):
            # evaluated without short-circuit splitting when the predicate has no effect
            def step(s, a, x):
                o = []
                for s2, v in callf(s, [x]):
                    o.append((s2, (eng.mk_or if n == 'any' else eng.mk_and)([a, v]), False))
                return o
            res = exhaust(eng, st, it, fr, step, 0 if n == 'any' else 1)
            if res is None:
                return None
            return finish(res, lambda s, a, p: a)
        if n in ('position', 'find', 'find_map'):
            def step(s, a, x):
                o = []
                for s2, v in callf(s, [cref(x) if n == 'find' else x]):
                    if n == 'find_map':
                        if is_agg(v, OPT, 1):
                            o.append((s2, v, True))
                        elif is_agg(v, OPT, 0):
                            o.append((s2, a, False))
                        else:
                            raise Unsupported('find_map')
                        continue
                    for s3, t in split_bool(eng, s2, v):
                        o.append((s3, some(a if n == 'position' else x), True) if t else (s3, ladd(a, 1), False))
                return o
            res = exhaust(eng, st, it, fr, step, 0, 700)
            if res is None:
                return None
            return finish(res, lambda s, a, p: a if p else NONE)
        if n in ('sum', 'product'):
            tn = eng.scalar_name(dty) or 'u64'
            res = exhaust(eng, st, it, fr, lambda s, a, x: [(s, eng.binop(s, 'Add' if n == 'sum' else 'Mul', a, deref(eng, s, x), tn), False)], 0 if n == 'sum' else 1)
            return None if res is None else finish(res, lambda s, a, p: a)
        if n == 'last':
            res = exhaust(eng, st, it, fr, lambda s, a, x: [(s, some(x), False)], NONE)
            return None if res is None else finish(res, lambda s, a, p: a)
        if n in ('eq', 'ne'):
            a = gather(eng, st, it, fr)
            b = to_iter(eng, st, args[1])
            if a is None or b is None or len(a) != 1:
                return None
            st, qa = a[0]
            b = gather(eng, st, b, fr)
            if b is None or len(b) != 1:
                return None
            st, qb = b[0]
            qa = sq_elems([deep(eng, st, x) for x in elements(qa)]) if elements(qa) is not None else qa
            qb = sq_elems([deep(eng, st, x) for x in elements(qb)]) if elements(qb) is not None else qb
            t = eng.seq_eq(st, qa, qb)
            return [(st, t if n == 'eq' else eng.mk_not(t))]
        if n in ('try_fold', 'try_for_each'):
            def step(s, a, x):
                o = []
                for s2, v in callf(s, [a, x] if n == 'try_fold' else [x]):
                    if is_agg(v, RES, 0) or is_agg(v, OPT, 1) or is_agg(v, E.CF, 0):
                        o.append((s2, v.a[2], False))
                    elif is_agg(v):
                        o.append((s2, v, True))
                    else:
                        raise Unsupported('try_fold')
                return o
            res = exhaust(eng, st, it, fr, step, args[1] if n == 'try_fold' else UNIT)
            if res is None:
                return None
            t = eng.prog.types[dty] if dty is not None else {}
            p = t.get('p', RES)
            if byref:
                for s, a, stop in res:
                    eng.store(s, r, mk('optit', NONE))
            return finish(res, lambda s, a, stop: a if stop else agg(p, 1 if p == OPT else 0, a))
        if n == 'reduce':
            def step(s, a, x):
                if a is NONE:
                    return [(s, some(x), False)]
                return [(s2, some(v), False) for s2, v in callf(s, [a.a[2], x])]
            res = exhaust(eng, st, it, fr, step, NONE)
            return None if res is None else finish(res, lambda s, a, p: a)
    except Unsupported as e:
        eng.note_unmodelled('iterator %s: %s' % (n, e), st)
        return eng.havoc_call(st, ci['p'], args, dty)
    return None


@model('Iterator::size_hint')
def m_size_hint(eng, st, ci, args, fr, dty):
    it = deref(eng, st, args[0])
    if not is_iter(it):
        return None
    n = it_remaining(eng, st, it)
    if n is None:
        return None
    return [(st, tup(n, some(n)))]


# ------------------------------------------------------------------ raw pointers
@model('slice::as_ptr', 'slice::as_mut_ptr', 'str::as_ptr', 'Vec::as_ptr', 'Vec::as_mut_ptr')
def m_as_ptr(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    return [(st, eng.extend_path(st, r, ('i', 0)))]


def ptr_step(eng, st, p, n):
    """pointer arithmetic over elements"""
    if isT(p, 'ref') and p.a[1] and p.a[1][-1][0] == 'i':
        e = p.a[1][-1]
        return mk('ref', p.a[0], p.a[1][:-1] + (('i', ladd(e[1], n)),))
    return None


@model('ptr::offset', 'mutptr::offset', 'ptr::add', 'mutptr::add', 'ptr::sub', 'mutptr::sub', 'ptr::wrapping_add', 'mutptr::wrapping_add')
def m_offset(eng, st, ci, args, fr, dty):
    n = args[1]
    if ci['p'].endswith('sub'):
        n = lmul(n, -1)
    q = ptr_step(eng, st, args[0], n)
    if q is None:
        if eng.rawmem and 'wrapping' not in ci['p']:
            eng.hook('unchecked', st, ('pointer offset', None, None), eng.where())
        return [(st, mk('ptroff', args[0] if isT(args[0]) else mk('k', args[0]), n if isT(n) else mk('k', n)))]
    if 'wrapping' not in ci['p']:
        base = mk('ref', q.a[0], q.a[1][:-1])
        i = q.a[1][-1][1]
        L = eng.ref_len(st, base)
        c = eng.mk_and([eng.compare(st, 'Le', 0, i), eng.compare(st, 'Le', i, L)])
        eng.hook('unchecked', st, ('pointer offset', eng.truth(st, c), c), eng.where())
    return [(st, q)]


@model('ptr::copy_nonoverlapping', 'ptr::copy', 'intrinsics::copy_nonoverlapping', 'intrinsics::copy', 'mutptr::copy_from_nonoverlapping', 'ptr::copy_to_nonoverlapping')
def m_memcpy(eng, st, ci, args, fr, dty):
    src, dst, n = args[0], args[1], args[2]
    if 'copy_from' in ci['p']:
        src, dst = dst, src
    do_memcpy(eng, st, src, dst, n)
    return [(st, UNIT)]


def extent(eng, st, p, n):
    """(condition that n elements fit from pointer p, range reference or None)"""
    if isT(p, 'ref') and p.a[1] and p.a[1][-1][0] == 'i':
        base = mk('ref', p.a[0], p.a[1][:-1])
        i = p.a[1][-1][1]
        L = eng.ref_len(st, base)
        c = eng.mk_and([eng.compare(st, 'Le', 0, i), eng.compare(st, 'Le', ladd(i, n), L)])
        return c, eng.extend_path(st, base, ('s', i, ladd(i, n)))
    return None, None


def do_memcpy(eng, st, src, dst, n):
    cs, rs = extent(eng, st, src, n)
    cd, rd = extent(eng, st, dst, n)
    for side, c, p in (('source', cs, src), ('destination', cd, dst)):
        if c is None:
            # pointer to a whole scalar or object: n bytes of a scalar of n bytes is fine
            try:
                v = eng.load(st, p) if isT(p, 'ref') else None
            except Unsupported:
                v = None
            w = None
            if isT(v) and v.ty in WID:
                w = WID[v.ty] // 8
            t = 1 if (w is not None and isinstance(n, int) and n <= w) else None
            eng.hook('unchecked', st, ('raw copy ' + side, t, mk('k', 0)), eng.where())
        else:
            eng.hook('unchecked', st, ('raw copy ' + side, eng.truth(st, c), c), eng.where())
    if rs is not None:
        v = eng.load(st, rs)
    else:
        v = None
        if isT(src, 'ref'):
            try:
                x = eng.load(st, src)
                if not isT(x, 'seq') and isinstance(n, int):
                    v = sq_elems(eng.as_bytes(x, n))
            except Unsupported:
                pass
    if rd is not None:
        if v is None:
            st.ctr += 1
            v = mkseq([('o', mk('base', mk('rawcopy', st.ctr), n), 0, n)])
        eng.store(st, rd, v)
    elif isT(dst, 'ref'):
        if v is not None and isT(v, 'seq') and isinstance(n, int) and elements(v) is not None and n in (1, 2, 4, 8):
            eng.store(st, dst, eng.mk_cat(elements(v), 'u%d' % (8 * n)))
        else:
            eng.store(st, dst, st.fresh('raw', ty='u64'))


@model('ptr::read', 'ptr::read_unaligned', 'ptr::read_volatile', 'mutptr::read', 'mutptr::read_unaligned')
def m_ptr_read(eng, st, ci, args, fr, dty):
    if not eng.rawmem or not isT(args[0], 'ref'):
        return None
    eng.raw_access(st, args[0])
    return [(st, eng.load(st, args[0]))]


@model('ptr::write', 'ptr::write_unaligned', 'ptr::write_volatile', 'mutptr::write', 'mutptr::write_unaligned')
def m_ptr_write(eng, st, ci, args, fr, dty):
    if not eng.rawmem or not isT(args[0], 'ref'):
        return None
    eng.raw_access(st, args[0])
    eng.store(st, args[0], args[1])
    return [(st, UNIT)]


@model('MaybeUninit::uninit')
def m_uninit(eng, st, ci, args, fr, dty):
    t = eng.prog.types[dty] if isinstance(dty, int) else {}
    a = [x for x in t.get('a') or [] if isinstance(x, int)]
    return [(st, mk('sym', 'uninit', ty=eng.scalar_name(a[0]) if a else None))]


@model('MaybeUninit::as_mut_ptr', 'MaybeUninit::as_ptr')
def m_mu_ptr(eng, st, ci, args, fr, dty):
    return [(st, args[0])]


@model('MaybeUninit::assume_init')
def m_mu_init(eng, st, ci, args, fr, dty):
    if isT(args[0], 'sym') and args[0].a[0] == 'uninit':
        eng.hook('unchecked', st, ('read of uninitialised memory', 0, None), eng.where())
    return [(st, args[0])]


@model('slice::from_raw_parts', 'slice::from_raw_parts_mut', 'std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut')
def m_from_raw(eng, st, ci, args, fr, dty):
    c, r = extent(eng, st, args[0], args[1])
    eng.hook('unchecked', st, ('from_raw_parts', eng.truth(st, c) if c is not None else None, c if c is not None else mk('k', 0)), eng.where())
    return [(st, r)] if r is not None else None


# ------------------------------------------------------------------ the crate's own primitives
LOCAL_PRIMS = {}


def prim(*names):
    def d(f):
        for n in names:
            LOCAL_PRIMS[n] = f
        return f
    return d


@prim('crypto::blake2b::Blake2b::new')
def p_b2new(eng, st, ci, args, fr, dty):
    if not need(eng, st, eng.mk_and([eng.compare(st, 'Lt', 0, args[0]), eng.compare(st, 'Le', args[0], 64)]), 'Blake2b::new:size'):
        return []
    return [(st, mk('b2', args[0], EMPTY))]


@prim('crypto::blake2b::Blake2b::update')
def p_b2update(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    if not isT(v, 'b2'):
        raise Unsupported('Blake2b state')
    eng.store(st, r, mk('b2', v.a[0], concat(v.a[1], as_seq(eng, st, args[1]))))
    return [(st, UNIT)]


@prim('crypto::blake2b::Blake2b::finalize')
def p_b2final(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    if not isT(v, 'b2'):
        raise Unsupported('Blake2b state')
    o = lastref(eng, st, args[1])
    n = eng.ref_len(st, o)
    if not need(eng, st, eng.eq_terms(st, n, v.a[0]), 'Blake2b::finalize:size'):
        return []
    eng.store(st, o, sq_base(mk('blake2b', v.a[0], v.a[1])))
    return [(st, UNIT)]


@prim('<crypto::blake2b::Blake2b as std::clone::Clone>::clone', '<crypto::sha512::Hash as std::clone::Clone>::clone')
def p_hclone(eng, st, ci, args, fr, dty):
    return [(st, eng.load(st, args[0]))]


@prim('crypto::blake2b::Blake2b::blake2b')
def p_b2all(eng, st, ci, args, fr, dty):
    o = lastref(eng, st, args[0])
    n = eng.ref_len(st, o)
    eng.store(st, o, sq_base(mk('blake2b', n, as_seq(eng, st, args[1]))))
    return [(st, UNIT)]


@prim('crypto::sha512::Hash::new', '<crypto::sha512::Hash as std::default::Default>::default')
def p_shanew(eng, st, ci, args, fr, dty):
    return [(st, mk('sha', EMPTY))]


@prim('crypto::sha512::Hash::update')
def p_shaupdate(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    v = eng.load(st, r)
    if not isT(v, 'sha'):
        raise Unsupported('SHA-512 state')
    eng.store(st, r, mk('sha', concat(v.a[0], as_seq(eng, st, args[1]))))
    return [(st, UNIT)]


@prim('crypto::sha512::Hash::finalize')
def p_shafinal(eng, st, ci, args, fr, dty):
    v = deref(eng, st, args[0])
    if not isT(v, 'sha'):
        raise Unsupported('SHA-512 state')
    return [(st, sq_base(mk('sha512', v.a[0])))]


@prim('crypto::sha512::Hash::hash')
def p_sha(eng, st, ci, args, fr, dty):
    return [(st, sq_base(mk('sha512', as_seq(eng, st, args[0]))))]


def fixed(eng, st, v, n, what):
    """the first n bytes read from a slice argument"""
    s = as_seq(eng, st, v)
    L = eng.ref_len(st, lastref(eng, st, v)) if isT(v, 'ref') else seqlen(s)
    if not need(eng, st, eng.compare(st, 'Le', n, L), what + ':bounds'):
        return None
    return eng.subseq(st, s, 0, n)


@prim('crypto::curve25519::sc_reduce')
def p_scred(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    s = fixed(eng, st, r, 64, 'sc_reduce')
    if s is None:
        return []
    eng.store(st, eng.extend_path(st, r, ('s', 0, 32)), sq_base(mk('scred', s)))
    return [(st, UNIT)]


@prim('crypto::curve25519::sc_muladd')
def p_muladd(eng, st, ci, args, fr, dty):
    r = lastref(eng, st, args[0])
    xs = [fixed(eng, st, a, 32, 'sc_muladd') for a in args[1:4]]
    if any(x is None for x in xs) or fixed(eng, st, r, 32, 'sc_muladd') is None:
        return []
    eng.store(st, eng.extend_path(st, r, ('s', 0, 32)), sq_base(mk('muladd', *xs)))
    return [(st, UNIT)]


@prim('crypto::curve25519::ge_scalarmult_base')
def p_smb(eng, st, ci, args, fr, dty):
    s = fixed(eng, st, args[0], 32, 'ge_scalarmult_base')
    return [(st, mk('smb', s))] if s is not None else []


@prim('crypto::curve25519::GeP3::to_bytes', 'crypto::curve25519::GeP2::to_bytes')
def p_enc(eng, st, ci, args, fr, dty):
    return [(st, sq_base(mk('enc', deref(eng, st, args[0]))))]


@prim('crypto::curve25519::GeP3::from_bytes_negate_vartime')
def p_dec(eng, st, ci, args, fr, dty):
    s = fixed(eng, st, args[0], 32, 'from_bytes_negate_vartime')
    if s is None:
        return []
    out = []
    for s2, t in split_bool(eng, st, mk('isPt', s, ty='bool')):
        out.append((s2, some(mk('negpt', s)) if t else NONE))
    return out


@prim('crypto::curve25519::GeP2::double_scalarmult_vartime')
def p_dsm(eng, st, ci, args, fr, dty):
    a, b = fixed(eng, st, args[0], 32, 'double_scalarmult'), fixed(eng, st, args[2], 32, 'double_scalarmult')
    if a is None or b is None:
        return []
    return [(st, mk('dsm', a, deref(eng, st, args[1]), b))]


@prim('crypto::curve25519::is_identity')
def p_isid(eng, st, ci, args, fr, dty):
    s = as_seq(eng, st, args[0])
    L = eng.ref_len(st, lastref(eng, st, args[0]))
    t = mk('isid', s, ty='bool')
    tv = eng.truth(st, t)
    return [(st, t if tv is None else tv)]


# ------------------------------------------------------------------ dynamic fallback
def dynamic(eng, st, ci, args, fr, dty):
    """last resort for callees without a model or a body"""
    p = ci['p']
    n = p.rsplit('::', 1)[-1]
    name = ci.get('r') or p
    # tuple-struct and enum constructors used as functions
    if dty is not None and n[:1].isupper():
        t = eng.prog.types[dty]
        if t['k'] == 'adt':
            for i, v in enumerate(t['v']):
                if v['n'] == n and len(v['f']) == len(args):
                    return [(st, agg(t['p'], i, *args))]
    if ci.get('trait'):
        # a trait method on a value of a modelled kind
        if n in ('fmt',):
            k, w = writer_of(eng, st, args[1])
            return sink_write(eng, st, w, display(eng, st, deref(eng, st, args[0]), peel(eng, selfty(eng, ci)), 'd' if 'fmt::Display' in p else '?', None), dty)
    if 'debug_struct' in n or 'debug_tuple' in n or n.startswith('debug_'):
        k, w = writer_of(eng, st, args[0])
        vals = [deep(eng, st, a) for a in args[1:]]
        vals = [v if isinstance(v, T) else mk('k', v) for v in vals]
        nm = mk('fmt', '?', None, mk('dbg', *vals), 'debug')
        return sink_write(eng, st, w, sq_base(mk('base', nm, mk('len', nm, ty='usize'))), dty)
    return None
