"""Loader for the MIR dumps written by driver/mirdump.rs: types, bodies, CFG helpers."""
import json, os, glob


class Ty:
    __slots__ = ('k', 's', 'raw', '_t', 'crate')

    def __init__(self, raw, crate):
        self.raw, self.crate = raw, crate
        self.k, self.s = raw['k'], raw['s']

    @property
    def key(self):
        return self.raw.get('key')

    def arg(self, i):
        a = self.raw.get('args') or []
        if i < len(a) and isinstance(a[i], int):
            return self.crate.ty(a[i])
        return None

    def args(self):
        return [self.crate.ty(a) if isinstance(a, int) else a for a in (self.raw.get('args') or [])]

    def pointee(self):
        t = self.raw.get('t')
        if isinstance(t, int):
            return self.crate.ty(t)
        if self.raw.get('box'):
            return self.arg(0)
        return None

    def peel(self):
        t = self
        while t is not None and t.k in ('ref', 'ptr'):
            t = t.pointee()
        return t

    @property
    def mut(self):
        return bool(self.raw.get('mut'))

    def __repr__(self):
        return 'Ty(%s)' % self.s


class Crate:
    def __init__(self, d):
        self.d = d
        self.name = d['crate']
        self.bin = d.get('bin')
        self._tys = {}

    def ty(self, i):
        t = self._tys.get(i)
        if t is None:
            t = self._tys[i] = Ty(self.d['types'][i], self)
        return t


class Body:
    def __init__(self, b, crate, promoted_of=None, idx=0):
        self.raw, self.crate = b, crate
        if promoted_of is None:
            self.key, self.path, self.kind = b['key'], b['path'], b['kind']
            self.span = b['span']
            self.promoted = [Body(p, crate, self, i) for i, p in enumerate(b.get('promoted') or [])]
        else:
            self.key = '%s::{promoted#%d}' % (promoted_of.key, idx)
            self.path, self.kind, self.span, self.promoted = promoted_of.path, 'promoted', promoted_of.span, []
        self.argc = b['argc']
        self.locals = b['locals']
        self.blocks = b['blocks']
        self.names = {}
        for n, pl in b.get('names') or []:
            if isinstance(pl, list) and pl and isinstance(pl[0], int) and not pl[1]:
                self.names.setdefault(pl[0], n)
        self._rpo = None

    def lty(self, l):
        return self.crate.ty(self.locals[l])

    def succ(self, b):
        t = self.blocks[b]['t']
        k = t['k']
        if k == 'goto':
            return [t['t']]
        if k == 'switch':
            r = []
            for _, x in t['ts']:
                if x not in r:
                    r.append(x)
            if t['o'] is not None and t['o'] not in r:
                r.append(t['o'])
            return r
        if k in ('drop', 'call', 'assert'):
            return [t['t']] if t.get('t') is not None else []
        return []

    def analyse(self):
        if self._rpo is not None:
            return
        seen, order = set(), []
        st = [(0, iter(self.succ(0)))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    st.append((m, iter(self.succ(m))))
                    break
            else:
                order.append(n)
                st.pop()
        order.reverse()
        self._rpo = order
        self.rpo_i = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ(b):
                preds[s].append(b)
        self.preds = preds
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while self.rpo_i[a] > self.rpo_i[c]:
                            a = idom[a]
                        while self.rpo_i[c] > self.rpo_i[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.dom = dom
        loops = {}
        for b in order:
            for s in self.succ(b):
                if self.rpo_i[s] <= self.rpo_i[b]:
                    if not dom(s, b):
                        raise Exception('irreducible loop in %s' % self.key)
                    L = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in L:
                            L.add(x)
                            w.extend(preds[x])
        self.loops = loops
        # liveness of locals (whole-local granularity)
        n = len(self.locals)
        mutb = set()
        use, dfn = {}, {}
        for b in order:
            u, d = set(), set()

            def rd(l):
                if l not in d:
                    u.add(l)

            def rplace(p):
                rd(p[0])
                for e in p[1]:
                    if e[0] == 'i':
                        rd(e[1])

            def rop(o):
                if o[0] in ('c', 'm'):
                    rplace(o[1])

            def wplace(p):
                if p[1]:
                    rplace(p)
                else:
                    d.add(p[0])

            def rrv(rv):
                k = rv[0]
                if k in ('use', 'repeat'):
                    rop(rv[1])
                elif k in ('ref', 'rawptr'):
                    rplace(rv[1])
                    if (k == 'rawptr' or rv[2]) and not any(e[0] == '*' for e in rv[1][1]):
                        mutb.add(rv[1][0])
                elif k == 'cast':
                    rop(rv[2])
                elif k == 'bin':
                    rop(rv[2]); rop(rv[3])
                elif k == 'un':
                    rop(rv[2])
                elif k == 'discr':
                    rplace(rv[1])
                elif k == 'agg':
                    for o in rv[2]:
                        rop(o)
                else:
                    for x in rv[1:]:
                        if isinstance(x, list) and x and x[0] in ('c', 'm'):
                            rop(x)
            for s in self.blocks[b]['st']:
                if s[0] == '=':
                    rrv(s[2])
                    wplace(s[1])
                elif s[0] == 'setd':
                    rplace(s[1])
            t = self.blocks[b]['t']
            if t['k'] == 'switch':
                rop(t['d'])
            elif t['k'] == 'call':
                rop(t['f'])
                for a in t['a']:
                    rop(a)
                wplace(t['d'])
            elif t['k'] == 'assert':
                rop(t['c'])
                for o in t.get('ops') or []:
                    rop(o)
            elif t['k'] == 'drop':
                pass
            elif t['k'] == 'return':
                rd(0)
            use[b], dfn[b] = u, d
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in self.succ(b):
                    o |= live[s]
                i = use[b] | (o - dfn[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.live_in = live
        self.mutb = mutb

    def spanstr(self, sp):
        return '%s:%d' % (sp[0], sp[1]) if sp else '?'


class Program:
    def __init__(self, dumpdir):
        self.crates = {}
        self.bodies = {}
        self.fns = {}
        self.adts = {}
        self.impls = []
        for f in sorted(glob.glob(os.path.join(dumpdir, '*.json'))):
            d = json.load(open(f))
            c = Crate(d)
            nm = os.path.basename(f)[:-5]
            self.crates[nm] = c
            pre = ''
            for b in d['bodies']:
                bo = Body(b, c)
                k = bo.key
                if k in self.bodies and c.bin:
                    k = nm + '!' + k
                if c.bin:
                    self.bodies.setdefault(nm + '!' + bo.key, bo)
                self.bodies.setdefault(k, bo)
            for fn in d['fns']:
                o = self.fns.get(fn['key'])
                if o is None or fn.get('local'):
                    self.fns[fn['key']] = fn
            for a in d['adts']:
                self.adts.setdefault(a['key'], a)
            for im in d['impls']:
                self.impls.append((im, c))

    def impl_method(self, trait_suffix, adt_key, method):
        for im, c in self.impls:
            if not im.get('trait') or not im['trait'].endswith(trait_suffix):
                continue
            ty = c.ty(im['ty']) if isinstance(im['ty'], int) else None
            if ty is not None and ty.k == 'adt' and ty.key == adt_key:
                for m in im['methods']:
                    if m[0] == method and m[1] in self.bodies:
                        return self.bodies[m[1]]
        return None
