"""The type-checked program as exported by the driver, with control-flow facts."""
import json


class Body:
    def __init__(self, prog, j):
        self.prog = prog
        self.key = j['key']
        self.path = j['p']
        self.crate = j['crate']
        self.span = j['span']
        self.argc = j['argc']
        self.locals = j['locals']
        self.names = j['names']
        self.blocks = j['blocks']
        self.spread = j['spread']
        self.parent = j['parent']
        self._cfg = None

    def loc(self, span=None):
        s = span or self.span
        f = self.prog.files[s[0]]
        return '%s:%d' % (f, s[1])

    def name_of(self, local):
        for n, p in self.names:
            if p[0] == local and not p[1]:
                return n
        return '_%d' % local

    def succs(self, b):
        t = self.blocks[b]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'sw':
            r = []
            for _, x in t[2]:
                if x not in r:
                    r.append(x)
            if t[3] not in r:
                r.append(t[3])
            return r
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[5]]
        return []

    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg


class Cfg:
    def __init__(self, body):
        self.body = body
        n = len(body.blocks)
        self.succ = {}
        order = []
        seen = set()
        st = [(0, iter(body.succs(0)))]
        seen.add(0)
        self.succ[0] = body.succs(0)
        while st:
            b, it = st[-1]
            adv = False
            for s in it:
                if body.blocks[s] is None:
                    continue
                if s not in seen:
                    seen.add(s)
                    self.succ[s] = body.succs(s)
                    st.append((s, iter(self.succ[s])))
                    adv = True
                    break
            if not adv:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = order
        self.pos = {b: i for i, b in enumerate(order)}
        self.pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                if s in self.pred:
                    self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.pos[x] > self.pos[y]:
                            x = idom[x]
                        while self.pos[y] > self.pos[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if s in self.pos and self.dominates(s, b):
                    l = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in l:
                            l.add(x)
                            w.extend(self.pred[x])
        self._live = None
        self.dead = {}

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def live(self):
        """live-in locals per block; locals whose address is taken are kept aside"""
        if self._live is not None:
            return self._live
        body = self.body
        addr = set()
        use = {}
        deff = {}

        def pl_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o[0] in ('c', 'm'):
                pl_use(o[1], u, d)

        def pl_def(p, u, d):
            if not p[1]:
                d.add(p[0])
            else:
                pl_use(p, u, d)

        for b in self.rpo:
            u, d = set(), set()
            bl = body.blocks[b]
            for s in bl['s']:
                if s[0] == '=':
                    r = s[2]
                    k = r[0]
                    if k == 'use':
                        op_use(r[1], u, d)
                    elif k == 'rep':
                        op_use(r[1], u, d)
                    elif k == 'ref':
                        pl_use(r[2], u, d)
                        if not any(e[0] == 'd' for e in r[2][1]):
                            addr.add(r[2][0])
                    elif k == 'raw':
                        pl_use(r[1], u, d)
                        if not any(e[0] == 'd' for e in r[1][1]):
                            addr.add(r[1][0])
                    elif k == 'cast':
                        op_use(r[2], u, d)
                    elif k == 'bin':
                        op_use(r[2], u, d)
                        op_use(r[3], u, d)
                    elif k == 'un':
                        op_use(r[2], u, d)
                    elif k == 'disc':
                        pl_use(r[1], u, d)
                    elif k in ('arr', 'tup'):
                        for o in r[1]:
                            op_use(o, u, d)
                    elif k == 'adt':
                        for o in r[3]:
                            op_use(o, u, d)
                    elif k in ('clo', 'rawagg'):
                        for o in r[2]:
                            op_use(o, u, d)
                    pl_def(s[1], u, d)
                elif s[0] == 'setd':
                    pl_use(s[1], u, d)
                elif s[0] == 'assume':
                    op_use(s[1], u, d)
                elif s[0] == 'memcpy':
                    for o in s[1:4]:
                        op_use(o, u, d)
                elif s[0] in ('dead', 'live'):
                    if s[1] not in u:
                        d.add(s[1])
            t = bl['t']
            if t[0] == 'sw':
                op_use(t[1], u, d)
            elif t[0] == 'assert':
                op_use(t[1], u, d)
                for o in t[4]:
                    op_use(o, u, d)
            elif t[0] == 'drop':
                pass
            elif t[0] == 'call':
                op_use(t[1], u, d)
                for o in t[2]:
                    op_use(o, u, d)
                pl_def(t[3], u, d)
            elif t[0] == 'ret':
                if 0 not in d:
                    u.add(0)
            use[b] = u
            deff[b] = d
        livein = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    if s in livein:
                        o |= livein[s]
                i = use[b] | (o - deff[b])
                if i != livein[b]:
                    livein[b] = i
                    ch = True
        self._live = (livein, addr)
        return self._live


class Program:
    def __init__(self, path):
        j = json.load(open(path))
        self.crate = j['crate']
        self.files = j['files']
        self.types = j['types']
        self.fns = j['fns']
        self.adts = j['adts']
        self.impls = j['impls']
        self.statics = {p: v for p, v in j['statics']}
        self.bodies = {}
        for b in j['bodies']:
            self.bodies[b['key']] = Body(self, b)
        self.fn_by_path = {}
        for f in self.fns:
            self.fn_by_path.setdefault(f['p'], f)
        self.lname = {}

    def ty(self, i):
        return self.types[i]

    def fn(self, path):
        return self.fn_by_path.get(path)

    def local_bodies(self):
        return [b for b in self.bodies.values() if b.crate == 'minisign']

    def find(self, suffix):
        """functions whose path ends with the given suffix"""
        return [f for f in self.fns if f['p'] == suffix or f['p'].endswith('::' + suffix)]

    def peel(self, i):
        t = self.types[i]
        while t['k'] in ('ref', 'ptr'):
            t = self.types[t['e']]
        return t
