"""Disjunctive typestate + value-origin dataflow over MIR for the command-line program.

Every abstract state carries (a) for each live local an *origin term* saying from which inputs and
library calls its value is made, (b) the variants of results/options/booleans already decided on
the way, (c) the sequence of effects (file, process, environment, browser operations) performed.
States that agree are merged at control-flow joins; loop-carried locals are widened.  Nothing is
executed and no solver is involved: terms are only compared for equality."""
import heapq

RES, OPT, CF = 'core::result::Result', 'core::option::Option', 'core::ops::control_flow::ControlFlow'
WS = ('smd', 'smd_core')
TOP = ('top',)
LOG = ('log',)


def K(v):
    return ('k', v)


UNIT = ('tup', ())


def Ok(v):
    return ('adt', RES, 0, (v,))


def Err(v):
    return ('adt', RES, 1, (v,))


def Some(v):
    return ('adt', OPT, 1, (v,))


NONE = ('adt', OPT, 0, ())
VN = {RES: ('Ok', 'Err'), OPT: ('None', 'Some'), CF: ('Continue', 'Break')}


class St:
    __slots__ = ('mem', 'facts', 'ev', 'it', 'when')

    def __init__(self, mem=None, facts=None, ev=(), it=None, when=None):
        self.mem, self.facts, self.ev, self.it, self.when = mem or {}, facts or {}, ev, it or {}, when or {}

    def know(self, t, v):
        self.facts[t] = v
        self.when.setdefault(t, len(self.ev))

    def copy(self):
        return St(dict(self.mem), dict(self.facts), self.ev, dict(self.it), dict(self.when))

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.ev, frozenset(self.it.items()), frozenset(self.when.items()))


class Frame:
    __slots__ = ('id', 'body', 'targs', 'depth')

    def __init__(self, id, body, targs, depth):
        self.id, self.body, self.targs, self.depth = id, body, targs, depth


def lastseg(p):
    """method name and type/trait name of a path, generics removed"""
    out, d = [], 0
    cur = ''
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>':
            if i and p[i - 1] == '-':
                pass
            else:
                d -= 1
        elif d == 0:
            if p.startswith('::', i):
                if cur:
                    out.append(cur)
                cur = ''
                i += 2
                continue
            cur += c
        i += 1
    if cur:
        out.append(cur)
    return out


class Flow:
    ws_ops = True
    MAXSTATES = 60000

    def __init__(self, prog):
        self.p = prog
        self.fids = {}
        self.fnty = {}
        self.tyof = {}
        self.funcs = set()
        self.steps = 0
        self.calls = 0
        self.unknown = {}
        self.truncated = []

    # ---- values -----------------------------------------------------------------------------
    def settype(self, v, ty):
        if v[0] in ('call', 'eff', 'fld', 'root', 'arg', 'mut', 'top') and ty is not None and v not in self.tyof:
            self.tyof[v] = ty
        return v

    def variants(self, ty):
        t = ty.peel() if ty is not None else None
        if t is not None and t.k == 'adt':
            a = self.p.adts.get(t.key)
            if a and a.get('kind') == 'enum':
                return a['variants']
        return None

    def fld(self, v, var, i, ty=None):
        k = v[0]
        if k in ('adt',):
            if i < len(v[3]):
                return v[3][i]
        if k in ('tup', 'arr'):
            if i < len(v[1]):
                return v[1][i]
        if k == 'clo':
            if i < len(v[2]):
                return v[2][i]
        if k == 'eff' and var == 'Ok' and v[2] in ('read_to_string', 'read', 'contents'):
            return ('content', v[3][0], v[1])
        if k == 'call' and v[1] == 'to_str' and var == 'Some':
            return v[2][0]
        if k == 'log':
            return v
        r = ('fld', v, var, i)
        return self.settype(r, ty)

    def setfld(self, v, var, i, x):
        k = v[0]
        if k == 'adt':
            f = list(v[3])
            while len(f) <= i:
                f.append(TOP)
            f[i] = x
            return ('adt', v[1], v[2], tuple(f))
        if k in ('tup', 'arr'):
            f = list(v[1])
            while len(f) <= i:
                f.append(TOP)
            f[i] = x
            return (k, tuple(f))
        if k == 'clo':
            f = list(v[2])
            f[i] = x
            return ('clo', v[1], tuple(f))
        return ('mut', 'field%d' % i, v, (x,))

    def getpath(self, v, path):
        for e in path:
            v = self.fld(v, e[1], e[2]) if e[0] == 'f' else ('idx', v, e[1])
        return v

    def setpath(self, v, path, x):
        if not path:
            return x
        e = path[0]
        if e[0] == 'f':
            return self.setfld(v, e[1], e[2], self.setpath(self.fld(v, e[1], e[2]), path[1:], x))
        return ('mut', 'idx', v, (x,))

    def loadref(self, st, r):
        v = st.mem.get((r[1], r[2]), TOP)
        return self.getpath(v, r[3])

    def content(self, st, v):
        n = 0
        while v[0] == 'ref' and n < 20:
            v = self.loadref(st, v)
            n += 1
        return v

    def deep(self, st, v, d=0):
        v = self.content(st, v)
        if d > 6:
            return v
        if v[0] == 'adt':
            return ('adt', v[1], v[2], tuple(self.deep(st, x, d + 1) for x in v[3]))
        if v[0] in ('tup', 'arr'):
            return (v[0], tuple(self.deep(st, x, d + 1) for x in v[1]))
        if v[0] == 'clo':
            return ('clo', v[1], tuple(self.deep(st, x, d + 1) for x in v[2]))
        return v

    # ---- places -----------------------------------------------------------------------------
    def place(self, st, fr, pl):
        """-> ('loc', root, path, ty) or ('val', v, ty): where the place lives"""
        root, path, val, var = (fr.id, pl[0]), (), None, None
        ty = fr.body.lty(pl[0])
        for e in pl[1]:
            k = e[0]
            if k == '*':
                v = val if val is not None else self.getpath(st.mem.get(root, TOP), path)
                if v[0] == 'ref':
                    root, path, val = (v[1], v[2]), v[3], None
                else:
                    val = v
                var = None
            elif k == 'd':
                var = e[2] if len(e) > 2 else e[1]
            elif k == 'f':
                ft = fr.body.crate.ty(e[2]) if len(e) > 2 and isinstance(e[2], int) else None
                if val is not None:
                    val = self.fld(val, var, e[1], ft)
                else:
                    path = path + (('f', var, e[1]),)
                    v = self.getpath(st.mem.get(root, TOP), path)
                    if ft is not None:
                        self.settype(v, ft)
                var = None
            else:
                ix = self.deep(st, st.mem.get((fr.id, e[1]), TOP)) if k == 'i' else (k,) + tuple(str(x) for x in e[1:])
                if k == 'ci' and not (len(e) > 3 and e[3]):
                    a = val if val is not None else self.getpath(st.mem.get(root, TOP), path)
                    if a[0] in ('arr', 'tup') and e[1] < len(a[1]):
                        if val is not None:
                            val = a[1][e[1]]
                        else:
                            path = path + (('f', None, e[1]),)
                        continue
                if val is not None:
                    val = ('idx', val, ix)
                else:
                    path = path + (('i', ix),)
        if val is not None:
            return ('val', val)
        return ('loc', root, path)

    def read(self, st, fr, pl):
        w = self.place(st, fr, pl)
        if w[0] == 'val':
            return w[1]
        return self.getpath(st.mem.get(w[1], TOP), w[2])

    def write(self, st, fr, pl, v):
        w = self.place(st, fr, pl)
        if w[0] == 'loc':
            st.mem[w[1]] = self.setpath(st.mem.get(w[1], TOP), w[2], v)

    def operand(self, st, fr, o):
        if o[0] in ('c', 'm'):
            return self.read(st, fr, o[1])
        return self.const(st, fr, o[1])

    def memval(self, j, ty):
        """constant memory as dumped by the driver"""
        if not isinstance(j, list) or not j:
            return None
        k = j[0]
        if k == 'bytes':
            return K(bytes(j[1]))
        if k == 'str':
            return K(j[1])
        if k in ('int', 'char', 'bool'):
            return K(j[1])
        return None

    def const(self, st, fr, c):
        k = c['k']
        ty = fr.body.crate.ty(c['ty'])
        if k == 'int':
            v = c['v']
            return K(int(v) if isinstance(v, str) and v.lstrip('-').isdigit() else v)
        if k == 'str':
            return K(c['v'])
        if k == 'bytes':
            return K(bytes(c['v']) if isinstance(c['v'], list) else c['v'])
        if k == 'fn' or ty.k == 'fndef':
            v = ('fn', ty.raw.get('key'), ty.s)
            self.fnty[v] = ty
            return v
        if k == 'promoted':
            b = fr.body
            ob = b if (c.get('of') is None or b.key == c['of']) else self.p.bodies.get(c['of'])
            if ob is not None and c['v'] < len(ob.promoted):
                return self.evalconst(ob.promoted[c['v']], st)
            return ('const', str(c.get('of')), c['v'])
        if k in ('memref', 'mem') and isinstance(c.get('v'), list):
            v = self.memval(c['v'], ty)
            if v is not None:
                return v
        it = c.get('item') or (c.get('v') if isinstance(c.get('v'), str) else None)
        b = self.p.bodies.get(it) if it else None
        if b is not None and b.kind in ('const', 'static'):
            return self.evalconst(b, st)
        if k == 'zst':
            if ty.k == 'closure':
                return ('clo', ty.key, ())
            if ty.k == 'adt':
                return ('adt', ty.key, 0, ())
            return UNIT
        return self.settype(('const', str(it), str(c.get('v'))[:120]), ty)

    def evalconst(self, b, st):
        fid = self.fid(('const', b.key), 0)
        fr = Frame(fid, b, [], 0)
        s = st.copy()
        outs = self.exec(s, fr)
        for k, v, s2 in outs:
            if k == 'ret':
                # constants are read-only: keep what they point to
                for loc, x in s2.mem.items():
                    if loc not in st.mem:
                        st.mem[loc] = x
                return v
        return ('const', b.key, '')

    def fid(self, parent, site):
        return self.fids.setdefault((parent, site), len(self.fids) + 1)

    # ---- statements -------------------------------------------------------------------------
    def rvalue(self, st, fr, rv, dpl):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k in ('ref', 'rawptr'):
            w = self.place(st, fr, rv[1])
            if w[0] == 'val':
                return w[1]
            return ('ref', w[1][0], w[1][1], w[2])
        if k == 'cast':
            return self.operand(st, fr, rv[2])
        if k == 'bin':
            a = self.deep(st, self.operand(st, fr, rv[2]))
            b = self.deep(st, self.operand(st, fr, rv[3]))
            return self.binop(rv[1], a, b)
        if k == 'un':
            a = self.deep(st, self.operand(st, fr, rv[2]))
            if rv[1] == 'Not':
                return self.neg(a)
            return ('un', rv[1], a)
        if k == 'discr':
            v = self.read(st, fr, rv[1])
            v = self.content(st, v)
            if v[0] == 'adt':
                return K(v[2])
            return ('discr', v)
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in rv[2])
            g = rv[1]
            if g[0] == 'adt':
                return ('adt', g[4], g[2], ops)
            if g[0] == 'closure':
                return ('clo', g[1], ops)
            if g[0] == 'array':
                return ('arr', ops)
            return ('tup', ops)
        if k == 'repeat':
            return ('rep', self.operand(st, fr, rv[1]))
        return ('rv', k)

    def neg(self, a):
        if a[0] == 'k':
            return K(0 if a[1] else 1)
        if a[0] == 'not':
            return a[1]
        if a[0] == 'log':
            return a
        return ('not', a)

    def eqv(self, a, b):
        if a[0] == 'k' and b[0] == 'k':
            return K(1 if a[1] == b[1] else 0)
        if a[0] == 'log' or b[0] == 'log':
            return LOG
        if a == b and a[0] not in ('top',):
            return K(1)
        if b[0] == 'discr' and a[0] == 'k':
            a, b = b, a
        if a[0] == 'discr' and b[0] == 'k':
            return ('isvar', a[1], b[1])
        if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1]:
            if a[2] != b[2]:
                return K(0)
            if len(a[3]) == len(b[3]) == 0:
                return K(1)
            if len(a[3]) == len(b[3]) == 1:
                return self.eqv(a[3][0], b[3][0])
        if str(b) < str(a):
            a, b = b, a
        return ('eq', a, b)

    def binop(self, op, a, b):
        if op == 'Eq':
            return self.eqv(a, b)
        if op == 'Ne':
            return self.neg(self.eqv(a, b))
        if a == LOG or b == LOG:
            return LOG
        if a[0] == 'k' and b[0] == 'k' and isinstance(a[1], int) and isinstance(b[1], int):
            x, y = a[1], b[1]
            f = {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}
            if op in f:
                return K(int(f[op]))
            g = {'Add': x + y, 'Sub': x - y, 'Mul': x * y, 'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y,
                 'AddUnchecked': x + y, 'SubUnchecked': x - y}
            if op in g:
                return K(g[op])
            h = {'AddWithOverflow': x + y, 'SubWithOverflow': x - y, 'MulWithOverflow': x * y}
            if op in h:
                return ('tup', (K(h[op]), K(0)))
        if op.endswith('WithOverflow'):
            return ('tup', (('bin', op, a, b), K(0)))
        if op in ('BitAnd', 'BitOr'):
            for x, y in ((a, b), (b, a)):
                if x == K(0):
                    return K(0) if op == 'BitAnd' else y
                if x == K(1) and op == 'BitAnd':
                    return y
        return ('bin', op, a, b)

    # ---- deciding ---------------------------------------------------------------------------
    def assume_var(self, st, t, idx):
        """state in which t has variant idx, or None"""
        if t[0] == 'adt':
            return st if t[2] == idx else None
        f = st.facts.get(t)
        if f is not None:
            if isinstance(f, int):
                return st if f == idx else None
            if idx in f:
                return None
        vs = self.variants(self.tyof.get(t))
        if vs is not None and not 0 <= idx < len(vs):
            return None
        s = st.copy()
        s.know(t, idx)
        return s

    def assume_not(self, st, t, idxs):
        if t[0] == 'adt':
            return st if t[2] not in idxs else None
        f = st.facts.get(t)
        if isinstance(f, int):
            return st if f not in idxs else None
        bad = (f or frozenset()) | frozenset(idxs)
        vs = self.variants(self.tyof.get(t))
        s = st.copy()
        if vs is not None:
            left = [i for i in range(len(vs)) if i not in bad]
            if not left:
                return None
            if len(left) == 1:
                s.know(t, left[0])
                return s
        s.know(t, bad)
        return s

    def assume_bool(self, st, v, val):
        if v[0] == 'k':
            return st if bool(v[1]) == bool(val) else None
        if v == LOG or v == TOP:
            return st
        if v[0] == 'not':
            return self.assume_bool(st, v[1], not val)
        if v[0] == 'isvar':
            if val:
                return self.assume_var(st, v[1], v[2])
            return self.assume_not(st, v[1], (v[2],))
        if v[0] == 'bin' and v[1] == 'BitAnd' and val:
            s = self.assume_bool(st, v[2], True)
            return self.assume_bool(s, v[3], True) if s is not None else None
        if v[0] == 'bin' and v[1] == 'BitOr' and not val:
            s = self.assume_bool(st, v[2], False)
            return self.assume_bool(s, v[3], False) if s is not None else None
        if v[0] == 'eq':
            # an equality with a decided constructor decides the variant as well
            for a, b in ((v[1], v[2]), (v[2], v[1])):
                if b[0] == 'adt' and (not b[3]) and a[0] not in ('k', 'adt'):
                    return self.assume_bool(st, ('isvar', a, b[2]), val)
        f = st.facts.get(v)
        if f is not None:
            return st if bool(f) == bool(val) else None
        s = st.copy()
        s.know(v, 1 if val else 0)
        return s

    def split(self, st, v, key):
        """[(state, variant, payload)] of a Result/Option value"""
        v = self.content(st, v)
        if v[0] == 'adt':
            return [(st, v[2], v[3][0] if v[3] else None)]
        out = []
        for i, n in enumerate(VN[key]):
            s = self.assume_var(st, v, i)
            if s is not None:
                out.append((s, i, None if n == 'None' else self.fld(v, n, 0)))
        return out

    # ---- execution --------------------------------------------------------------------------
    def gc(self, st, fr, blk):
        b = fr.body
        live = b.live_in.get(blk, ())
        drop = [f for f in st.facts if f[0] == 'bin' and not (f[1] == 'BitOr' and f[2][0] == 'eq' and f[3][0] == 'eq') or (f[0] == 'eq' and any(x[0] == 'k' and isinstance(x[1], int) for x in f[1:])) or
                (f[0] == 'call' and f[1] in ('env::var', 'env::var_os'))]
        for f in drop:
            del st.facts[f]
            st.when.pop(f, None)
        keep = {k for k in st.mem if k[0] != fr.id or k[1] in live or not isinstance(k[1], int) or self.hasdrop(st.mem[k])}
        work = [st.mem[k] for k in keep]
        seen = set(keep)
        while work:
            v = work.pop()
            if not isinstance(v, tuple):
                continue
            if v and v[0] == 'ref':
                k = (v[1], v[2])
                if k not in seen and k in st.mem:
                    seen.add(k)
                    work.append(st.mem[k])
                continue
            if v and v[0] in ('k', 'call', 'eff', 'content', 'root'):
                continue
            work.extend(x for x in v if isinstance(x, tuple))
        if len(seen) != len(st.mem):
            st.mem = {k: st.mem[k] for k in seen}

    def dropimpl(self, key):
        c = self.__dict__.setdefault('_di', {})
        if key not in c:
            c[key] = self.p.impl_method('Drop', key, 'drop') if key.split('::')[0] in WS else None
        return c[key]

    def hasdrop(self, v):
        if not isinstance(v, tuple) or not v:
            return False
        if v[0] == 'adt':
            return self.dropimpl(v[1]) is not None or any(self.hasdrop(x) for x in v[3])
        if v[0] in ('tup', 'arr'):
            return any(self.hasdrop(x) for x in v[1])
        return False

    def exec(self, st, fr):
        """-> [(kind, value, state)] with kind in ret/exit/panic"""
        b = fr.body
        b.analyse()
        self.funcs.add(b.key)
        outs, outseen = [], set()
        seen = set()
        heap = [(0, 0, 0, st)]
        n = 0
        while heap:
            _, _, blk, s = heapq.heappop(heap)
            if blk in b.loops or len(b.preds[blk]) > 1:
                self.gc(s, fr, blk)
                if blk in b.loops:
                    c = s.it.get((fr.id, blk), 0)
                    if c >= 5:
                        self.truncated.append((b.path, blk))
                        continue
                    s.it[(fr.id, blk)] = c + 1
                    if c >= 2:
                        self.widen(s, fr, blk)
                kk = (blk, s.key())
                if kk in seen:
                    continue
                seen.add(kk)
            self.steps += 1
            if self.steps > self.MAXSTATES * 20:
                raise Exception('state explosion in %s' % b.path)
            for r in self.block(s, fr, blk):
                if r[0] == 'go':
                    n += 1
                    heapq.heappush(heap, (b.rpo_i[r[1]], n, r[1], r[2]))
                else:
                    o = self.finish(r, fr)
                    k = (o[0], o[1], o[2].key())
                    if k not in outseen:
                        outseen.add(k)
                        outs.append(o)
        return outs

    def finish(self, r, fr):
        k, v, s = r
        if k == 'ret':
            refs = []

            def scan(x):
                if isinstance(x, tuple) and x:
                    if x[0] == 'ref':
                        if x[1] == fr.id or (x[1], x[2]) in s.mem:
                            refs.append((x[1], x[2]))
                        return
                    for y in x:
                        scan(y)
            scan(v)
            kept, w = set(), list(refs)
            while w:
                q = w.pop()
                if q in kept:
                    continue
                kept.add(q)
                del refs[:]
                scan(s.mem.get(q, TOP))
                w.extend(refs)
            s.mem = {q: x for q, x in s.mem.items() if q[0] != fr.id or q in kept}
            s.it = {q: x for q, x in s.it.items() if q[0] != fr.id}
        return (k, v, s)

    def widen(self, s, fr, head):
        b = fr.body
        mod = b.__dict__.setdefault('_mod', {}).get(head)
        if mod is None:
            mod = set()
            for x in b.loops[head]:
                for q in b.blocks[x]['st']:
                    if q[0] == '=':
                        mod.add(q[1][0])
                        if q[2][0] in ('ref', 'rawptr') and q[2][2]:
                            mod.add(q[2][1][0])
                if b.blocks[x]['t']['k'] == 'call':
                    mod.add(b.blocks[x]['t']['d'][0])
            b._mod[head] = mod
        for l in mod:
            if (fr.id, l) in s.mem:
                v = s.mem[(fr.id, l)]
                if v[0] in ('k', 'ref'):
                    if v[0] == 'ref':
                        continue
                s.mem[(fr.id, l)] = self.settype(('loop', fr.body.key, head, l), b.lty(l))

    def block(self, st, fr, blk):
        b = fr.body
        B = b.blocks[blk]
        for s in B['st']:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, fr, s[2], s[1])
                self.write(st, fr, s[1], v)
            elif k == 'dead':
                st.mem.pop((fr.id, s[1]), None) if not self.referenced(st, (fr.id, s[1])) else None
            elif k == 'setd':
                v = self.read(st, fr, s[1])
                if v[0] == 'adt':
                    self.write(st, fr, s[1], ('adt', v[1], s[2], v[3]))
        t = B['t']
        k = t['k']
        if k == 'goto':
            return [('go', t['t'], st)]
        if k == 'return':
            return [('ret', st.mem.get((fr.id, 0), UNIT), st)]
        if k == 'switch':
            return self.switch(st, fr, t)
        if k == 'call':
            return self.call(st, fr, blk, t)
        if k == 'drop':
            outs = [('ret', None, st)]
            v = self.read(st, fr, t['p'])
            outs = self.dropval(st, fr, blk, v, t)
            return [('go', t['t'], s) if kk == 'ret' else (kk, vv, s) for kk, vv, s in outs]
        if k == 'assert':
            return [('go', t['t'], st)] if t.get('t') is not None else []
        return []

    def referenced(self, st, loc):
        return False

    def dropval(self, st, fr, blk, v, t):
        if not self.hasdrop(v):
            # dropping a buffered writer that still holds data loses errors: visible to the rules
            c = self.content(st, v) if v[0] != 'ref' else v
            if c[0] == 'call' and c[1] in ('BufWriter::new', 'BufWriter::with_capacity', 'LineWriter::new'):
                st.ev = st.ev + (('bufdrop', 'drop', (c,), None, t.get('s') and tuple(t['s']), fr.body.path),)
            return [('ret', None, st)]
        res = [st]
        outs = []
        if v[0] == 'adt':
            d = self.dropimpl(v[1])
            if d is not None:
                nxt = []
                for s in res:
                    root = (self.fid(fr.id, ('drop', blk, v[1])), 'dropped')
                    s.mem[root] = v
                    fid = self.fid(fr.id, ('dropfn', blk, v[1]))
                    s.mem[(fid, 1)] = ('ref', root[0], root[1], ())
                    for kk, vv, s2 in self.exec(s, Frame(fid, d, [], fr.depth + 1)):
                        if kk == 'ret':
                            s2.mem.pop(root, None)
                            nxt.append(s2)
                        else:
                            outs.append((kk, vv, s2))
                res = nxt
        for x in (v[3] if v[0] == 'adt' else v[1]):
            nxt = []
            for s in res:
                for kk, vv, s2 in self.dropval(s, fr, ('f', blk), x, t):
                    (nxt if kk == 'ret' else outs).append(s2 if kk == 'ret' else (kk, vv, s2))
            res = nxt
        return outs + [('ret', None, s) for s in res]

    def switch(self, st, fr, t):
        v = self.deep(st, self.operand(st, fr, t['d']))
        ts, o = t['ts'], t['o']
        out = []
        if v[0] == 'k':
            for val, blk in ts:
                if int(val) == int(v[1]) if not isinstance(v[1], (str, bytes)) else False:
                    return [('go', blk, st)]
            return [('go', o, st)] if o is not None else []
        if v[0] == 'discr':
            for val, blk in ts:
                s = self.assume_var(st, v[1], int(val))
                if s is not None:
                    out.append(('go', blk, s.copy()))
            if o is not None:
                s = self.assume_not(st, v[1], tuple(int(x[0]) for x in ts))
                if s is not None:
                    out.append(('go', o, s.copy()))
            return out
        if v == LOG or v[0] in ('top', 'loop'):
            return [('go', x, st.copy()) for x in dict.fromkeys([b for _, b in ts] + ([o] if o is not None else []))]
        dty = fr.body.crate.ty(t['dty'])
        if dty.s == 'bool':
            for val, blk in ts:
                s = self.assume_bool(st, v, int(val))
                if s is not None:
                    out.append(('go', blk, s.copy()))
            if o is not None:
                s = self.assume_bool(st, v, 0 if any(int(x[0]) == 1 for x in ts) else 1)
                if s is not None:
                    out.append(('go', o, s.copy()))
            return out
        for val, blk in ts:
            s = self.assume_bool(st, self.eqv(v, K(int(val))), True)
            if s is not None:
                out.append(('go', blk, s.copy()))
        if o is not None:
            s = st
            for val, _ in ts:
                s = self.assume_bool(s, self.eqv(v, K(int(val))), False)
                if s is None:
                    break
            if s is not None:
                out.append(('go', o, s.copy()))
        return out

    # ---- calls ------------------------------------------------------------------------------
    def call(self, st, fr, blk, t):
        f = t['f']
        args = [self.operand(st, fr, a) for a in t['a']]
        if f[0] == 'k':
            fty = fr.body.crate.ty(f[1]['ty'])
            outs = self.invoke(st, fr, blk, fty, args, t)
        else:
            fv = self.operand(st, fr, f)
            outs = self.apply(st, fr, ('ptr', blk), fv, args, t)
        res = []
        for k, v, s in outs:
            if k == 'ret':
                if t.get('t') is None:
                    res.append(('panic', TOP, s))
                    continue
                if v is not None:
                    self.settype(v, fr.body.lty(t['d'][0]) if not t['d'][1] else None)
                    self.write(s, fr, t['d'], v)
                res.append(('go', t['t'], s))
            else:
                res.append((k, v, s))
        return res

    def subst(self, fr, ty):
        n = 0
        while ty is not None and ty.k == 'param' and n < 4:
            i = ty.raw.get('idx')
            ty2 = fr.targs[i] if i is not None and i < len(fr.targs) else None
            if ty2 is None or ty2 is ty:
                return ty
            ty = ty2
            n += 1
        return ty

    def invoke(self, st, fr, blk, fty, args, t):
        self.calls += 1
        path = fty.raw.get('path') or fty.s
        res = fty.raw.get('res') or {}
        key = res.get('key') or fty.raw.get('key')
        targs = [self.subst(fr, a) if hasattr(a, 'peel') else a for a in fty.args()]
        targs = [a if hasattr(a, 'peel') else None for a in targs]
        body = self.p.bodies.get(key)
        if body is None and not res.get('key') and targs and targs[0] is not None:
            # trait method on a type known only through the caller's generics
            tt = targs[0].peel()
            if tt is not None and tt.k == 'adt':
                meth = path.split('::')[-1]
                tr = '::'.join(path.split('::')[:-1])
                body = self.p.impl_method(tr, tt.key, meth)
        if body is not None and body.crate.name in WS and fr.depth < 40 and body.kind in ('fn', 'closure'):
            if self.derived_skip(path, res):
                pass
            else:
                if body.kind == 'closure' and len(args) == 2 and path.split('::')[-1] in ('call', 'call_mut', 'call_once'):
                    # a closure called by its name: the arguments come as a tuple
                    a = self.content(st, args[1])
                    if a[0] == 'tup' and self.content(st, args[0])[0] == 'clo':
                        return self.apply(st, fr, ('call', blk), args[0], list(a[1]), t)
                return self.enter(st, fr, blk, body, args, targs)
        rp = res.get('path') or path
        return self.external(st, fr, blk, path, rp, fty, targs, args, t)

    def derived_skip(self, path, res):
        p = path
        return p.startswith(('std::fmt::', 'core::fmt::', 'serde::', '_serde::', 'clap'))

    def enter(self, st, fr, blk, body, args, targs):
        fid = self.fid(fr.id, (blk, body.key))
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
            if body.lty(i + 1) is not None:
                self.settype(a, body.lty(i + 1))
        return self.exec(st, Frame(fid, body, targs, fr.depth + 1))

    def apply(self, st, fr, site, f, args, t):
        """call a closure or function value"""
        f = self.content(st, f)
        if f[0] == 'clo':
            body = self.p.bodies.get(f[1])
            if body is not None:
                fid = self.fid(fr.id, (site, body.key))
                env = f
                if body.lty(1).k in ('ref', 'ptr'):
                    st.mem[(fid, 'env')] = f
                    env = ('ref', fid, 'env', ())
                a = [env] + list(args)
                if body.argc != len(a) and body.argc == 2 and len(a) != 2:
                    a = [env, ('tup', tuple(args))]
                for i, x in enumerate(a):
                    st.mem[(fid, i + 1)] = x
                return self.exec(st, Frame(fid, body, fr.targs, fr.depth + 1))
        if f[0] == 'fn' and f in self.fnty:
            ft = self.fnty[f]
            key = ft.raw.get('key') or ''
            # enum/struct constructors used as functions
            ctor = self.ctor(ft)
            if ctor is not None:
                return [('ret', ('adt', ctor[0], ctor[1], tuple(args)), st)]
            return self.invoke(st, fr, site, ft, list(args), t)
        return [('ret', ('call', 'apply', (self.deep(st, f),) + tuple(self.deep(st, a) for a in args)), st)]

    def ctor(self, ft):
        path = ft.raw.get('path') or ''
        key = ft.raw.get('key') or ''
        for k in (key, path):
            parts = k.replace('::{constructor#0}', '').split('::')
            for cut in (1, 0):
                adt = '::'.join(parts[:len(parts) - cut])
                a = self.p.adts.get(adt)
                if a:
                    for i, v in enumerate(a['variants']):
                        if v['name'] == parts[-1]:
                            return (a['key'], i)
        last = lastseg(path)
        if len(last) >= 2 and last[-1] in ('Ok', 'Err'):
            return (RES, 0 if last[-1] == 'Ok' else 1)
        if last and last[-1] in ('Some',):
            return (OPT, 1)
        return None

    def external(self, st, fr, blk, path, rp, fty, targs, args, t):
        import flowmodels
        return flowmodels.external(self, st, fr, blk, path, rp, fty, targs, args, t)

    def run(self, key, args):
        b = self.p.bodies[key]
        fid = self.fid('root', key)
        st = St()
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
            self.settype(a, b.lty(i + 1))
        return self.exec(st, Frame(fid, b, [], 0))
