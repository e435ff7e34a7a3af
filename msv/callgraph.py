"""Call graph over the exported bodies (closures, drops and formatting included)."""
import re


def callee_infos(x, out):
    if isinstance(x, dict):
        if 'p' in x and 'a' in x:
            out.append(x)
        for y in x.values():
            callee_infos(y, out)
    elif isinstance(x, (list, tuple)):
        if len(x) == 3 and x[0] == 'fnptr' and isinstance(x[1], str):
            out.append({'p': x[1], 'key': x[2], 'a': []})
        elif len(x) == 2 and x[0] in ('sref', 'tls') and isinstance(x[1], str):
            out.append({'static': x[1], 'p': None, 'a': []})
        for y in x:
            callee_infos(y, out)


class CallGraph:
    def __init__(self, prog):
        self.prog = prog
        self.children = {}
        for b in prog.bodies.values():
            if b.parent:
                self.children.setdefault(b.parent, []).append(b.key)
        self.cache = {}
        self.statics = {}
        # trait impl methods of local types: reachable when a foreign function is instantiated with the type
        self.by_self = {}
        for f in prog.fns:
            if f['traitimpl'] and f['body'] and f['in']:
                m = re.match(r'^<(?:&(?:mut )?)?([\w:]+)(?:<.*>)? as ([\w:]+)', f['p'])
                if m:
                    self.by_self.setdefault(m.group(1), []).append((m.group(2), f['key']))

    def adts_of(self, ti, seen=None):
        seen = set() if seen is None else seen
        if ti is None or ti in seen:
            return set()
        seen.add(ti)
        t = self.prog.types[ti]
        r = set()
        if t['k'] == 'adt':
            if t.get('local'):
                r.add(t['p'])
            for a in t.get('a') or []:
                if isinstance(a, int):
                    r |= self.adts_of(a, seen)
            for v in t.get('v') or []:
                for f in v['f']:
                    r |= self.adts_of(f[1], seen)
        for k in ('e',):
            if isinstance(t.get(k), int):
                r |= self.adts_of(t[k], seen)
        if t['k'] == 'tuple':
            for a in t['f']:
                r |= self.adts_of(a, seen)
        return r

    def out(self, key):
        """(local successors, [(external path, callee info)])"""
        if key in self.cache:
            return self.cache[key]
        b = self.prog.bodies[key]
        succ, ext = set(self.children.get(key, ())) | set(self.children.get(b.path, ())), []
        infos = []
        for bl in b.blocks:
            if bl is None:
                continue
            callee_infos(bl['s'], infos)
            callee_infos(bl['t'], infos)
            if bl['t'][0] == 'drop':
                try:
                    ti = b.locals[bl['t'][1][0]]
                    for a in self.adts_of(ti if isinstance(ti, int) else ti[0]):
                        succ |= {k for tr, k in self.by_self.get(a, ()) if tr.endswith('Drop')}
                except (TypeError, IndexError, KeyError):
                    pass
        sts = set()
        todo = list(infos)
        infos = []
        while todo:
            ci = todo.pop(0)
            if 'static' not in ci:
                infos.append(ci)
            elif ci['static'] not in sts:
                sts.add(ci['static'])
                callee_infos((self.prog.statics.get(ci['static']) or {}).get('v'), todo)
        self.statics[key] = sts
        for ci in infos:
            if ci.get('key') in self.prog.bodies:
                succ.add(ci['key'])
                continue
            ext.append((ci.get('r') or ci['p'], ci))
            for a in ci.get('a') or []:
                if isinstance(a, int):
                    for adt in self.adts_of(a):
                        succ |= {k for tr, k in self.by_self.get(adt, ()) if k in self.prog.bodies}
        self.cache[key] = (succ, ext)
        return self.cache[key]

    def reach(self, key):
        """{body key: path of keys from the root}"""
        seen = {key: (key,)}
        todo = [key]
        while todo:
            k = todo.pop()
            if k not in self.prog.bodies:
                continue
            for n in sorted(self.out(k)[0]):
                if n not in seen:
                    seen[n] = seen[k] + (n,)
                    todo.append(n)
        return seen

    def used_statics(self, key):
        """{static path: key of the body that names it} reachable from key"""
        r = {}
        for k in self.reach(key):
            if k in self.prog.bodies:
                self.out(k)
                for s in self.statics[k]:
                    r.setdefault(s, k)
        return r

    def externals(self, key):
        """{external path: (call info, path of keys)} reachable from key"""
        r = {}
        for k, path in self.reach(key).items():
            if k in self.prog.bodies:
                for p, ci in self.out(k)[1]:
                    r.setdefault(p, (ci, path))
        return r
