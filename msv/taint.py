"""Interprocedural taint analysis over the exported MIR: which branches, indices and ranges depend on the contents of given byte strings.

Objects are locals, their tuple/variant parts, and one object per field of every local type (field based); what a pointer points at is
one object per pointer (unification).  A value's own bits (V), an enum's variant (D) and what lies behind its pointers are kept apart, so
the length of a secret slice, or the position of an iterator over one, is not secret.  There are no implicit flows to follow: a branch on
a tainted value is itself the violation."""
from .callgraph import callee_infos

SCALARS = ('bool', 'char', 'int', 'uint', 'float')

# external functions: last two path segments
NO_FLOW = {'len', 'is_empty', 'capacity', 'size_hint', 'size_of', 'size_of_val', 'align_of'}
# the variant of the result says nothing about contents
PLAIN = {'next', 'next_back', 'nth', 'get', 'get_mut', 'first', 'last', 'first_mut', 'last_mut', 'split_first', 'split_last', 'try_into', 'try_from',
         'split_first_chunk', 'first_chunk', 'split_at_checked', 'split_at', 'iter', 'iter_mut', 'into_iter', 'zip', 'map', 'rev', 'enumerate', 'copied',
         'cloned', 'chunks', 'chunks_exact', 'chunks_mut', 'chunks_exact_mut', 'take', 'skip', 'step_by', 'by_ref', 'chain', 'windows', 'fold',
         'for_each', 'as_ref', 'as_mut', 'as_slice', 'as_mut_slice', 'borrow', 'borrow_mut', 'deref', 'deref_mut', 'to_vec', 'to_owned', 'clone',
         'clone_from', 'from', 'into', 'default', 'copy_from_slice', 'clone_from_slice', 'fill', 'swap', 'split_at_mut', 'extend', 'extend_from_slice', 'push',
         'with_capacity', 'new', 'to_le', 'to_be', 'from_le', 'from_be', 'to_le_bytes', 'to_be_bytes', 'to_ne_bytes', 'from_le_bytes', 'from_be_bytes',
         'from_ne_bytes', 'swap_bytes', 'wrapping_add', 'wrapping_sub', 'wrapping_mul', 'wrapping_neg', 'wrapping_shl', 'wrapping_shr',
         'overflowing_add', 'overflowing_sub', 'overflowing_mul', 'rotate_left', 'rotate_right', 'count_ones', 'add', 'sub', 'mul', 'neg', 'not', 'bitand',
         'bitor', 'bitxor', 'shl', 'shr', 'add_assign', 'sub_assign', 'mul_assign', 'bitand_assign', 'bitor_assign', 'bitxor_assign',
         'shl_assign', 'shr_assign', 'unwrap', 'expect', 'index', 'index_mut', 'sum', 'reduce', 'write', 'write_all', 'write_bytes', 'copy_nonoverlapping', 'replace',
         'black_box', 'offset', 'as_ptr', 'as_mut_ptr', 'get_unchecked', 'get_unchecked_mut', 'uninit', 'assume_init', 'write_volatile',
         'read_volatile', 'compiler_fence', 'fence', 'from_fn', 'array_chunks', 'as_chunks', 'array_from_fn', 'from_mut', 'from_ref', 'read',
         'zeroed', 'widening_mul', 'carrying_mul', 'inspect', 'last_chunk', 'concat', 'into_boxed_slice', 'map_or', 'ok', 'unwrap_or', 'unwrap_or_default',
         'branch', 'from_output', 'from_residual', 'map_err', 'drop', 'forget', 'is_some', 'is_none', 'is_ok', 'is_err', 'flush', 'truncate', 'resize', 'ne_tuple',
         'div', 'rem', 'cycle', 'collect', 'flatten', 'flat_map', 'repeat_n', 'once', 'repeat', 'from_iter', 'finish', 'finish_non_exhaustive', 'debug_struct', 'fmt'}
INDEXERS = {'index', 'index_mut', 'get_unchecked', 'get_unchecked_mut', 'get', 'get_mut', 'split_at', 'split_at_mut', 'offset', 'add', 'nth', 'take', 'skip',
            'truncate', 'resize', 'swap', 'copy_nonoverlapping', 'write_bytes', 'rotate_left', 'rotate_right'}


class O:
    __slots__ = ('up', 'kids', 'pt', 'v', 'd', 'vo', 'do', 'why', 'name')

    def __init__(self, name):
        self.up = None
        self.kids = {}
        self.pt = None
        self.v = self.d = False
        self.vo = []
        self.do = []
        self.why = None
        self.name = name


class Taint:
    def __init__(self, prog, barriers=()):
        self.prog = prog
        self.T = prog.types
        self.barriers = set(barriers)
        self.objs = {}
        self.sinks = []         # (object, 'v'|'d', what, site, function)
        self.done = set()
        self.todo = []
        self.unknown = {}       # external functions with no known behaviour that see objects: name -> [objects]
        self.calls = 0

    # ---------------------------------------------------------------- objects
    def find(self, o):
        while o.up is not None:
            if o.up.up is not None:
                o.up = o.up.up
            o = o.up
        return o

    def obj(self, key):
        o = self.objs.get(key)
        if o is None:
            o = self.objs[key] = O(key)
        return self.find(o)

    def kid(self, o, k):
        o = self.find(o)
        c = o.kids.get(k)
        if c is None:
            c = o.kids[k] = O((o.name, k))
        return self.find(c)

    def ptee(self, o):
        o = self.find(o)
        if o.pt is None:
            o.pt = O((o.name, '*'))
        return self.find(o.pt)

    def union(self, a, b):
        work = [(a, b)]
        while work:
            a, b = work.pop()
            a, b = self.find(a), self.find(b)
            if a is b:
                continue
            b.up = a
            a.v |= b.v
            a.d |= b.d
            a.why = a.why or b.why
            a.vo += b.vo
            a.do += b.do
            for k, c in b.kids.items():
                if k in a.kids:
                    work.append((a.kids[k], c))
                else:
                    a.kids[k] = c
            if b.pt is not None:
                if a.pt is not None:
                    work.append((a.pt, b.pt))
                else:
                    a.pt = b.pt

    def flow(self, src, dst, kind='vv'):
        """bits of src (kind[0]) make bits of dst (kind[1]) secret"""
        src, dst = self.find(src), self.find(dst)
        if src is dst and kind[0] == kind[1]:
            return
        (src.vo if kind[0] == 'v' else src.do).append((dst, kind[1]))

    # ---------------------------------------------------------------- types
    def ty(self, i):
        return self.T[i] if isinstance(i, int) else {'k': 'other', 'd': '?'}

    def fields(self, t, v=0):
        """field types of a type whose parts are tracked separately, else None"""
        if t['k'] == 'tuple' or t['k'] == 'closure':
            return t['f']
        if t['k'] == 'adt' and not t['local']:
            if v >= len(t['v']):
                return None
            fs = [f[1] for f in t['v'][v]['f']]
            if t['ak'] == 'enum' or t['p'].startswith('std::ops::Range'):
                return None if any(f is None for f in fs) else fs
        return None

    def link(self, dst, src, ti, d=0):
        """dst receives a copy of the value in src, of type ti"""
        t = self.ty(ti)
        k = t['k']
        if k in SCALARS:
            self.flow(src, dst)
        elif k in ('ref', 'ptr'):
            self.union(self.ptee(dst), self.ptee(src))
        elif k in ('array', 'slice'):
            self.link(dst, src, t['e'], d + 1)
        elif k == 'tuple':
            for i, f in enumerate(t['f']):
                self.link(self.kid(dst, i), self.kid(src, i), f, d + 1)
        elif k == 'closure':
            return          # captures are one object per closure
        elif k == 'adt' and t['local']:
            return          # fields are one object per type
        elif k == 'adt' and t['ak'] in ('enum', 'struct') and d < 6 and self.fields(t) is not None or (k == 'adt' and t['ak'] == 'enum' and d < 6):
            self.flow(src, dst, 'dd')
            for v in range(len(t['v'])):
                fs = self.fields(t, v)
                if fs is None:
                    self.flow(src, dst)
                    self.union(self.ptee(dst), self.ptee(src))
                    continue
                for i, f in enumerate(fs):
                    self.link(self.kid(dst, (v, i)), self.kid(src, (v, i)), f, d + 1)
        elif k in ('fndef', 'never'):
            return
        else:
            self.flow(src, dst)
            self.flow(src, dst, 'dd')
            self.union(self.ptee(dst), self.ptee(src))

    # ---------------------------------------------------------------- places
    def field(self, o, ti, v, i):
        """(object, type) of field i of variant v of an object of type ti"""
        t = self.ty(ti)
        if t['k'] == 'tuple':
            return self.kid(o, i), t['f'][i]
        if t['k'] == 'closure':
            return self.obj(('clo', t['key'], i)), (t['f'][i] if i < len(t['f']) else None)
        if t['k'] == 'adt':
            fs = t['v'][v]['f'] if v < len(t['v']) else []
            fty = fs[i][1] if i < len(fs) else None
            if t['local']:
                return self.obj(('fld', t['p'], v, i)), fty
            if self.fields(t, v) is not None:
                return self.kid(o, (v, i)), fty
            return o, fty
        return o, None

    def place(self, body, pl, use=True):
        """(object, type index) denoted by a place"""
        o = self.obj((body.key, pl[0]))
        ti = body.locals[pl[0]]
        ti = ti if isinstance(ti, int) else ti[0]
        v = 0
        for e in pl[1]:
            k = e[0]
            if k == 'd':
                t = self.ty(ti)
                if t['k'] in ('ref', 'ptr'):
                    o, ti = self.ptee(o), t['e']
                else:                       # a box
                    a = [x for x in (t.get('a') or []) if isinstance(x, int)]
                    o, ti = self.ptee(o), (a[0] if a else None)
            elif k == 'f':
                o, fty = self.field(o, ti, v, e[1])
                ti = e[2] if len(e) > 2 and isinstance(e[2], int) else fty
                v = 0
            elif k == 'v':
                v = e[1]
            elif k == 'i':
                if use:
                    self.sink(self.obj((body.key, e[1])), 'v', 'an index', body)
                t = self.ty(ti)
                ti = t.get('e')
            elif k == 'c':
                ti = self.ty(ti).get('e')
            elif k == 's':
                pass
        return o, ti

    def sink(self, o, kind, what, body, span=None):
        self.sinks.append((o, kind, what, body, span or self.span))

    def operand(self, body, op):
        """(object or None for a constant, type, callee info for function values)"""
        if op[0] in ('c', 'm'):
            o, ti = self.place(body, op[1])
            return o, ti, None
        if op[0] == 'k':
            infos = []
            callee_infos(op[2], infos)
            t = self.ty(op[1])
            if t['k'] == 'fndef':
                infos = [t['c']]
            return None, op[1], (infos[0] if infos else None)
        return None, None, None

    # ---------------------------------------------------------------- bodies
    def add(self, key):
        if key not in self.done and key in self.prog.bodies:
            self.done.add(key)
            self.todo.append(key)

    def run(self):
        while self.todo:
            self.scan(self.prog.bodies[self.todo.pop()])

    def scan(self, body):
        for bl in body.blocks:
            if bl is None:
                continue
            for s in bl['s']:
                self.span = s[-1] if isinstance(s[-1], list) else None
                if s[0] == '=':
                    self.assign(body, s)
                elif s[0] == 'memcpy':
                    a, b, n = (self.operand(body, x) for x in s[1:4])
                    if a[0] is not None and b[0] is not None:
                        self.union(self.ptee(a[0]), self.ptee(b[0]))
                    if n[0] is not None:
                        self.sink(n[0], 'v', 'a copy length', body)
            t = bl['t']
            if t[0] == 'sw':
                self.span = t[4]
                o, ti, _ = self.operand(body, t[1])
                if o is not None:
                    self.sink(o, 'v', 'a branch', body)
            elif t[0] == 'assert':
                self.span = t[6]
                o, ti, _ = self.operand(body, t[1])
                if o is not None:
                    self.sink(o, 'v', 'a bounds or overflow check', body)
            elif t[0] == 'call':
                self.span = t[5]
                self.call(body, t)

    def assign(self, body, s):
        dst, dti = self.place(body, s[1])
        r = s[2]
        k = r[0]

        def ops(xs):
            return [self.operand(body, x) for x in xs]
        if k == 'use':
            o, ti, _ = self.operand(body, r[1])
            if o is not None:
                self.link(dst, o, ti if ti is not None else dti)
        elif k in ('ref', 'raw'):
            pl = r[-1]
            o, ti = self.place(body, pl)
            self.union(self.ptee(dst), o)
        elif k == 'cast':
            o, ti, _ = self.operand(body, r[2])
            if o is not None:
                st, dt = self.ty(ti), self.ty(dti)
                if st['k'] in ('ref', 'ptr') and dt['k'] in ('ref', 'ptr'):
                    self.union(self.ptee(dst), self.ptee(o))
                else:
                    self.flow(o, dst)
                    self.flow(o, dst, 'dv')
                    if st['k'] not in SCALARS:
                        self.union(self.ptee(dst), self.ptee(o))
                        self.link(dst, o, ti)
        elif k in ('bin', 'un'):
            if k == 'un' and r[1] == 'PtrMetadata':
                return
            for o, ti, _ in ops(r[2:] if k == 'bin' else r[2:3]):
                if o is not None:
                    if self.ty(ti)['k'] in ('ref', 'ptr'):
                        continue
                    for tgt in ([self.kid(dst, 0), self.kid(dst, 1)] if self.ty(dti)['k'] == 'tuple' else [dst]):
                        self.flow(o, tgt)
        elif k == 'disc':
            o, ti = self.place(body, r[1])
            t = self.ty(ti)
            if t['k'] == 'adt' and t['local']:
                self.flow(self.obj(('disc', t['p'])), dst, 'dv')
            else:
                self.flow(o, dst, 'dv')
        elif k == 'rep':
            o, ti, _ = self.operand(body, r[1])
            if o is not None:
                self.link(dst, o, ti)
        elif k == 'arr':
            for o, ti, _ in ops(r[1]):
                if o is not None:
                    self.link(dst, o, ti)
        elif k == 'tup':
            for i, (o, ti, _) in enumerate(ops(r[1])):
                if o is not None:
                    self.link(self.kid(dst, i), o, ti)
        elif k == 'clo':
            t = self.ty(r[1])
            for i, (o, ti, _) in enumerate(ops(r[2])):
                if o is not None:
                    self.link(self.obj(('clo', t['key'], i)), o, ti)
        elif k == 'adt':
            for i, (o, ti, _) in enumerate(ops(r[3])):
                if o is not None:
                    f, fty = self.field(dst, r[1], r[2], i)
                    self.link(f, o, ti)
        elif k == 'rawagg':
            for o, ti, _ in ops(r[2])[:1]:
                if o is not None:
                    self.union(self.ptee(dst), self.ptee(o))
        elif k == 'len':
            return
        else:
            # an operation without a rule: everything named in it flows
            pls = []
            self.places_in(r, pls)
            for pl in pls:
                o, ti = self.place(body, pl)
                self.flow(o, dst)

    def places_in(self, x, out):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
                out.append(x)
            else:
                for y in x:
                    self.places_in(y, out)

    # ---------------------------------------------------------------- calls
    def call(self, body, t):
        self.calls += 1
        fo, fti, ci = self.operand(body, t[1])
        args = [self.operand(body, a) for a in t[2]]
        dst, dti = self.place(body, t[3])
        if ci is None:
            # a function value or closure called directly
            self.external(body, '(function value)', None, args, dst, dti)
            return
        self.apply(body, ci, args, dst, dti)

    def apply(self, body, ci, args, dst, dti):
        key = ci.get('key')
        if key in self.barriers:
            return
        name = (ci.get('r') or ci['p']).rsplit('::', 1)[-1]
        callee = self.prog.bodies.get(key)
        isclo = [a for a in args[:1] if self.ty(a[1])['k'] == 'closure' or
                 (self.ty(a[1])['k'] == 'ref' and self.ty(self.ty(a[1])['e'])['k'] == 'closure')]
        if isclo and ci['p'].startswith('std::ops::Fn'):
            t = self.ty(args[0][1])
            if t['k'] == 'ref':
                t = self.ty(t['e'])
            self.closure(t, args[1:], dst, dti, untuple=True)
            return
        if callee is not None and (callee.crate == self.prog.crate or (name not in PLAIN and name not in NO_FLOW)) and callee.argc == len(args):
            self.add(key)
            for i, (o, ti, f) in enumerate(args):
                if o is not None:
                    lt = callee.locals[i + 1]
                    self.link(self.obj((key, i + 1)), o, lt if isinstance(lt, int) else lt[0])
            rt = callee.locals[0]
            self.link(dst, self.obj((key, 0)), rt if isinstance(rt, int) else rt[0])
            return
        self.external(body, ci.get('r') or ci['p'], ci, args, dst, dti)

    def closure(self, t, args, dst, dti, untuple=False):
        b = self.prog.bodies.get(t['key'])
        if b is None:
            return
        self.add(t['key'])
        if untuple and len(args) == 1 and self.ty(args[0][1])['k'] == 'tuple':
            o, ti, _ = args[0]
            args = [(self.kid(o, i), f, None) for i, f in enumerate(self.ty(ti)['f'])] if o is not None else []
        for i, (o, ti, _) in enumerate(args):
            if o is not None and i + 2 < len(b.locals):
                self.link(self.obj((b.key, i + 2)), o, ti)
        rt = b.locals[0]
        if dst is not None:
            self.link(dst, self.obj((b.key, 0)), rt if isinstance(rt, int) else rt[0])

    def parts(self, o, ti, S, C, leafs, d=0):
        """split what an external function sees into scalars S (values handed over) and contents C (what lies behind them)"""
        t = self.ty(ti)
        k = t['k']
        if d > 7:
            return
        if k in SCALARS:
            leafs.add(t['d'])
            if o is not None:
                S.append(o)
        elif k in ('ref', 'ptr'):
            e = self.ty(t['e'])
            p = self.ptee(o) if o is not None else None
            if e['k'] in SCALARS or e['k'] in ('array', 'slice', 'str'):
                self.leaf_types(t['e'], leafs)
                if p is not None:
                    C.append(p)
            else:
                self.parts(p, t['e'], S, C, leafs, d + 1)
        elif k in ('array', 'slice', 'str'):
            self.leaf_types(ti, leafs)
            if o is not None:
                C.append(o)
        elif k == 'tuple':
            for i, f in enumerate(t['f']):
                self.parts(self.kid(o, i) if o is not None else None, f, S, C, leafs, d + 1)
        elif k == 'adt' and not t['local']:
            fs = self.fields(t)
            if fs is not None or t['ak'] == 'enum':
                for v in range(len(t['v'])):
                    for i, f in enumerate(self.fields(t, v) or []):
                        self.parts(self.kid(o, (v, i)) if o is not None else None, f, S, C, leafs, d + 1)
                return
            self.leaf_types(ti, leafs)
            if o is not None:
                short = t['p'].rsplit('::', 1)[-1]
                if short in ('Vec', 'String', 'Box', 'IntoIter', 'Cursor', 'Cow', 'MaybeUninit', 'Wrapping'):
                    C.append(o)
                else:
                    S.append(o)
                C.append(self.ptee(o))
        elif k in ('param', 'dyn', 'other', 'alias', 'fnptr'):
            if o is not None:
                S.append(o)
                C.append(self.ptee(o))

    def leaf_types(self, ti, out, d=0):
        t = self.ty(ti)
        if d > 8:
            return
        if t['k'] in SCALARS:
            out.add(t['d'])
        for a in ([t['e']] if isinstance(t.get('e'), int) else []) + [x for x in (t.get('a') or []) if isinstance(x, int)]:
            self.leaf_types(a, out, d + 1)
        if t['k'] == 'tuple':
            for f in t['f']:
                self.leaf_types(f, out, d + 1)
        if t['k'] == 'closure':
            b = self.prog.bodies.get(t['key'])
            if b is not None:
                rt = b.locals[0]
                self.leaf_types(rt if isinstance(rt, int) else rt[0], out, d + 1)

    def closures_in(self, ti, out, d=0):
        t = self.ty(ti)
        if d > 8:
            return
        if t['k'] == 'closure':
            out.append(t)
        if t['k'] == 'fndef':
            out.append(t)
        for a in ([t['e']] if isinstance(t.get('e'), int) else []) + [x for x in (t.get('a') or []) if isinstance(x, int)]:
            self.closures_in(a, out, d + 1)

    def external(self, body, path, ci, args, dst, dti):
        name = path.rsplit('::', 1)[-1]
        if name in NO_FLOW:
            return
        S, C, leafs = [], [], set()
        clos = []
        for o, ti, f in args:
            self.closures_in(ti, clos)
            if f is not None and self.ty(ti)['k'] == 'fndef':
                continue
            self.parts(o, ti, S, C, leafs)
        S2, C2 = [], []
        rleafs = set()
        self.parts(dst, dti, S2, C2, rleafs)
        J = O((body.key, path, 'seen by'))
        for c in C + C2:
            self.union(J, c)
        J = self.find(J)
        # a mutable content may receive the scalars handed over
        index_like = name in INDEXERS and bool(args) and self.ty(args[0][1])['k'] not in SCALARS
        P = []
        if index_like:
            for o, ti, f in args[1:]:
                self.parts(o, ti, P, [], set())
        P = {id(self.find(x)) for x in P}
        for s in S:
            if id(self.find(s)) not in P:
                self.flow(s, J)
            else:
                self.sink(s, 'v', 'a position, length or range given to %s' % name, body)
        t = self.ty(dti)

        def results(o, ti, d=0):
            """scalars of the result, with their types"""
            x = self.ty(ti)
            if x['k'] in SCALARS:
                return [(o, x['d'])]
            if d > 5:
                return []
            if x['k'] == 'tuple':
                return [y for i, f in enumerate(x['f']) for y in results(self.kid(o, i), f, d + 1)]
            if x['k'] in ('array', 'slice'):
                return []
            if x['k'] == 'adt' and not x['local'] and (x['ak'] == 'enum' or self.fields(x) is not None):
                return [y for v in range(len(x['v'])) for i, f in enumerate(self.fields(x, v) or []) for y in results(self.kid(o, (v, i)), f, d + 1)]
            if x['k'] == 'adt' and not x['local']:
                return [(o, None)]
            return []
        for o, ts in results(dst, dti):
            if ts is None:
                # an external object such as an iterator: its own state comes from the scalars, not from the contents
                for s in S:
                    self.flow(s, o)
                continue
            for s in S:
                self.flow(s, o)
            if ts in leafs or not leafs:
                self.flow(J, o)
        # results that are enums: which variant
        if t['k'] == 'adt' and t['ak'] == 'enum':
            tgt = self.obj(('disc', t['p'])) if t['local'] else dst
            for s in S:
                self.flow(s, tgt, 'vd')
            if name not in PLAIN:
                self.flow(J, tgt, 'vd')
            else:
                # the variant of an enum handed over
                for o, ti, f in args:
                    if o is not None and self.ty(ti)['k'] == 'adt' and self.ty(ti)['ak'] == 'enum':
                        self.flow(o, tgt, 'dd')
        if name in ('is_some', 'is_none', 'is_ok', 'is_err'):
            for o, ti, f in args:
                if o is not None:
                    p = self.ptee(o) if self.ty(ti)['k'] == 'ref' else o
                    self.flow(p, dst, 'dv')
            return
        # closures: their parameters see contents and scalars, their results are contents
        for t2 in clos:
            if t2['k'] == 'closure':
                b = self.prog.bodies.get(t2['key'])
                if b is None:
                    continue
                self.add(b.key)
                ps = range(2, b.argc + 1)
            else:
                b = self.prog.bodies.get(t2['c'].get('key'))
                if b is None or t2['c'].get('key') in self.barriers:
                    continue
                if b.crate != self.prog.crate:
                    continue
                self.add(b.key)
                ps = range(1, b.argc + 1)
            for i in ps:
                lt = b.locals[i]
                lt = lt if isinstance(lt, int) else lt[0]
                PS, PC, pl = [], [], set()
                self.parts(self.obj((b.key, i)), lt, PS, PC, pl)
                for c in PC:
                    self.union(J, c)
                J = self.find(J)
                for o, ts in results(self.obj((b.key, i)), lt):
                    for s in S:
                        self.flow(s, o)
                    if ts is None or ts in leafs:
                        self.flow(J, o)
            rt = b.locals[0]
            rt = rt if isinstance(rt, int) else rt[0]
            RS, RC, rl = [], [], set()
            self.parts(self.obj((b.key, 0)), rt, RS, RC, rl)
            for c in RC:
                self.union(J, c)
            J = self.find(J)
            for s in RS:
                self.flow(s, J)
                for o, ts in results(dst, dti):
                    if ts is not None:
                        self.flow(s, o)
        if name not in PLAIN:
            self.sinks.append((J, 'v', 'what %s does' % path, body, self.span))
            for s in S:
                self.sinks.append((s, 'v', 'what %s does' % path, body, self.span))

    # ---------------------------------------------------------------- solving
    def taint(self, o, why):
        o = self.find(o)
        if not o.v:
            o.v = True
            o.why = why

    def solve(self):
        work = []
        seen = set()
        for o in list(self.all_objects()):
            if o.v:
                work.append((o, 'v'))
            if o.d:
                work.append((o, 'd'))
        while work:
            o, k = work.pop()
            o = self.find(o)
            if (id(o), k) in seen:
                continue
            seen.add((id(o), k))
            for dst, k2 in (o.vo if k == 'v' else o.do):
                dst = self.find(dst)
                if k2 == 'v' and not dst.v:
                    dst.v = True
                    dst.why = o
                elif k2 == 'd' and not dst.d:
                    dst.d = True
                    dst.why = dst.why or o
                work.append((dst, k2))

    def all_objects(self):
        seen = set()
        todo = list(self.objs.values())
        while todo:
            o = self.find(todo.pop())
            if id(o) in seen:
                continue
            seen.add(id(o))
            yield o
            todo.extend(o.kids.values())
            if o.pt is not None:
                todo.append(o.pt)

    def violations(self):
        out = []
        for o, k, what, body, span in self.sinks:
            o = self.find(o)
            if (o.v if k == 'v' else o.d):
                loc = body.loc(span) if isinstance(span, list) else body.loc()
                out.append((body.path, what, loc))
        return sorted(set(out))
