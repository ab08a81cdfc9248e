"""Abstract interpreter over the dumped MIR.

Flow-sensitive, inlining (context-sensitive) interpretation over the domain of dom.py.  States at
merge points are joined (phi symbols + entailed facts); loops are peeled and then run to a fixpoint
of inductive candidate facts.  No path is handed to a solver and nothing is executed."""
import heapq, sys, threading
import val, dom
from val import *
from dom import *
from mir import Program

sys.setrecursionlimit(200000)
MAXP = 220


GHOST = ('ghost', 'entry')
PUSHED = ('ghost', 'pushed')       # how many tokens the current round has appended
SITE = ('ghost', 'site')
FOLDS = ('lower', 'alower', 'upper', 'aupper')


def t_span(blk):
    return blk['t'].get('s')


class Frame:
    __slots__ = ('id', 'body', 'parent', 'site', 'fnkey')

    def __init__(self, id, body, parent, site):
        self.id, self.body, self.parent, self.site = id, body, parent, site


class Pure:
    """pseudo location of a value that lives in no known place"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


from balance import Balance
from content import Content


class Engine(Balance, Content):
    def __init__(self, prog, models, opts=None):
        self.p = prog
        self.opts = opts or {}
        dom.ADTS.clear()
        dom.ADTS.update(prog.adts)
        self.models = models
        self.log = []
        self.tag = ()
        self.pins = []
        self.fids = {}
        self.stack = []       # body keys being inlined
        self.cut = set(self.opts.get('cut', ()))
        self.contracts = {}
        self.cell_inv = self.opts.get('cell_inv', {})
        self.visited = set()
        self.blocks_seen = set()
        self.steps = 0
        self.promo_cache = {}
        self.notes = []
        self.balall = {}
        self.vecphis = set()
        self.elstack = []      # elements of the collections being looped over
        self.shown = []        # (loop, rounds) whose elements were shown to be kept
        self.losses = {}       # element -> kinds of it that a branch was found to leave out
        self.nstates = 0
        self.coarse = set()
        self.charcache = {}
        self.short = {}
        self.sitekeys = set(self.opts.get('sitekeys', ()))

    # ------------------------------------------------------------ misc
    def shortness(self, o):
        """verdict of `shorter` with the joined texts it refers to resolved"""
        seen, todo, w = set(), [o], 'lt'
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                if x[1] not in seen:
                    seen.add(x[1])
                    todo += self.short.get(x[1]) or [None]
            elif x is None:
                return None
            elif x == 'le':
                w = 'le'
        return w

    def fid(self, *k):
        r = self.fids.get(k)
        if r is None:
            r = self.fids[k] = len(self.fids) + 1
        return r

    def note(self, *a):
        self.log.append(('note',) + a)

    def fresh(self, *name, ty=None):
        v = Sym('u', self.tag, *name)
        self.settype(v, ty)
        return v

    def settype(self, v, ty):
        if ty is None or v.k not in ('sym', 'app'):
            return v
        if v not in tyof:
            tyof[v] = ty
        t = ty.peel() or ty
        if t.k in ('int', 'uint') and v not in tyname:
            tyname[v] = t.s
        return v

    def where(self, fr, sp=None):
        b = fr.body
        sp = sp or b.span
        return (b.path, '%s:%s' % (sp[0], sp[1]) if sp else '?')

    def trace(self, fr):
        r = []
        f = fr
        while f is not None:
            r.append(f.body.path)
            f = f.parent
        return ' <- '.join(r[:8])

    # ------------------------------------------------------------ places
    def project(self, st, v, variant, i, key, ty):
        v = st.norm(v)
        if v.k == 'ref':
            return v            # field of a box / pointer wrapper
        if v.k == 'agg':
            if v.a[0] == 'it':
                return self.settype(App('pl', v, key, variant or 0, i), ty)
            if v.a[0] != 'adt' or variant is None or v.a[2] == variant:
                fs = v.a[3]
                if i < len(fs):
                    return fs[i]
        r = Pl(v, key, variant if variant is not None else 0, i)
        self.settype(r, ty)
        self.assume_cell(st, r, v, key, variant or 0, i)
        return r

    def assume_cell(self, st, r, base, key, variant, i):
        inv = self.cell_inv.get((key, variant, i))
        if inv and r.k in ('app', 'sym') and base.k != 'agg':
            if inv.get('minlen', 0) > 0:
                try:
                    st.add_ge(ladd(Len(r), Int(-inv['minlen'])))
                except Dead:
                    pass

    def resolve(self, st, fr, place):
        """-> (location, Ty).  location is (root, path) or Pure(V)"""
        l, projs = place
        loc = ((fr.id, l), ())
        ty = fr.body.lty(l)
        variant = None
        for e in projs:
            k = e[0]
            if k == '*':
                v = self.loadloc(st, loc)
                v = st.norm(v)
                if v.k == 'ref':
                    loc = (v.a[0], v.a[1])
                else:
                    loc = Pure(v)
                ty = ty.pointee() if ty is not None else None
                variant = None
            elif k == 'd':
                variant = e[1]
            elif k == 'f':
                fty = fr.body.crate.ty(e[2]) if isinstance(e[2], int) else None
                key = ty.key if ty is not None and ty.k in ('adt', 'closure') else None
                if isinstance(loc, Pure):
                    loc = Pure(self.project(st, loc.v, variant, e[1], key, fty))
                else:
                    loc = (loc[0], loc[1] + (('f', variant, e[1], key, fty),))
                ty = fty
                variant = None
            elif k == 'i':
                iv = st.norm(self.load(st, (fr.id, e[1]), ()))
                ety = ty.pointee() if ty is not None else None
                if isinstance(loc, Pure):
                    r = At(loc.v, iv)
                    self.settype(r, ety)
                    loc = Pure(r)
                else:
                    loc = (loc[0], loc[1] + (('i', iv, ety),))
                ty = ety
            elif k in ('ci', 'ss'):
                ety = ty.pointee() if ty is not None else None
                base = self.loadloc(st, loc)
                if k == 'ci':
                    off, fe = e[1], e[-1]
                    iv = Int(off) if not fe else ladd(Len(base), Int(-off))
                    r = At(base, iv)
                    self.settype(r, ety)
                    loc = Pure(r)
                else:
                    loc = Pure(App('subseq', base, str(e[1:])))
                ty = ety
            else:
                loc = Pure(self.loadloc(st, loc))
        return loc, ty

    def load(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            v = Sym('undef', root)
        for e in path:
            v = st.norm(v)
            if v.k == 'ref' and e[0] == 'f':
                continue
            if e[0] == 'f':
                v = self.project(st, v, e[1], e[2], e[3], e[4])
            else:
                v2 = At(v, e[1])
                self.settype(v2, e[2])
                v = v2
        return v

    def loadloc(self, st, loc):
        if isinstance(loc, Pure):
            return loc.v
        return self.load(st, loc[0], loc[1])

    def read(self, st, fr, place):
        loc, ty = self.resolve(st, fr, place)
        v = self.loadloc(st, loc)
        self.settype(v, ty)
        return v

    def storeloc(self, st, loc, v):
        if isinstance(loc, Pure):
            self.note('write-through-unknown')
            return
        root, path = loc
        if isinstance(root, tuple) and root and root[0] == 'box':
            st.mem[root] = v
            return
        if not path:
            st.mem[root] = v
            return
        st.mem[root] = self.setpath(st, st.mem.get(root) or Sym('undef', root), path, v)

    def setpath(self, st, cur, path, v):
        if not path:
            return v
        cur = st.norm(cur)
        e = path[0]
        if e[0] == 'f':
            _, variant, i, key, fty = e
            if cur.k == 'ref':
                self.storeloc(st, (cur.a[0], cur.a[1] + tuple(path)), v)
                return cur
            if cur.k == 'agg' and (cur.a[0] != 'adt' or variant is None or cur.a[2] == variant):
                fs = list(cur.a[3])
                while len(fs) <= i:
                    fs.append(Sym('undef', len(fs)))
                fs[i] = self.setpath(st, fs[i], path[1:], v)
                return mk('agg', cur.a[0], cur.a[1], cur.a[2], tuple(fs))
            n = i + 1
            adt = self.p.adts.get(key) if key else None
            var = variant or 0
            if adt and var < len(adt['variants']):
                n = max(n, len(adt['variants'][var]['fields']))
            fs = [Pl(cur, key, var, j) for j in range(n)]
            fs[i] = self.setpath(st, fs[i], path[1:], v)
            return Agg('adt' if adt else 'tuple', key, var, fs)
        else:
            iv = e[1]
            old = At(cur, iv)
            nv = self.setpath(st, old, path[1:], v)
            if cur.k == 'agg' and is_const(iv) and cval(iv) < len(cur.a[3]):
                fs = list(cur.a[3])
                fs[cval(iv)] = nv
                return mk('agg', cur.a[0], cur.a[1], cur.a[2], tuple(fs))
            return App('set', cur, iv, nv)

    # ------------------------------------------------------------ operands / rvalues
    def memval(self, m, ty):
        if not m:
            return None
        if m[0] == 'adt':
            fs = [self.memval(y, None) for y in m[2]]
            return None if any(f is None for f in fs) else Agg('adt', m[1], 0, fs)
        k, x = m
        if k == 'char':
            return Char(x)
        if k == 'bool':
            return Bool(x)
        if k == 'int':
            if ty is not None and ty.s == 'bool':
                return Bool(x)
            if ty is not None and ty.s == 'char':
                return Char(x)
            return Int(x)
        if k == 'bytes':
            return mk('bytes', bytes(x))
        if k == 'str':
            return Str(x)
        if k == 'ref':
            return self.memval(x, ty.pointee() if ty is not None and ty.k == 'ref' else None)
        if k in ('array', 'tuple'):
            if k == 'array':
                et = ty.elem() if ty is not None and hasattr(ty, 'elem') and ty.k in ('array', 'slice') else None
                fs = [self.memval(y, et) for y in x]
            else:
                fs = [self.memval(y, None) for y in x]
            if any(f is None for f in fs):
                return None
            return Agg(k, None, 0, fs)
        return None

    def const(self, st, fr, c):
        k = c['k']
        ty = fr.body.crate.ty(c['ty'])
        if k == 'int':
            n = c['v']
            if ty.k == 'bool' or ty.s == 'bool':
                return Bool(n)
            if ty.k == 'char' or ty.s == 'char':
                return Char(n)
            if isinstance(n, str):
                n = int(n)
            return Int(n)
        if k == 'str':
            return Str(c['v'])
        if k == 'bytes':
            v = c['v']
            return mk('bytes', bytes(v) if isinstance(v, list) else v)
        if k == 'fn':
            return self.fnval(ty)
        if k == 'promoted':
            return self.promoted(fr, c)
        if k in ('memref', 'mem') and isinstance(c.get('v'), list):
            v = self.memval(c['v'], ty.pointee() if k == 'memref' else ty)
            if v is not None:
                return v
        if k == 'static' or k == 'memref':
            key = c.get('v') if isinstance(c.get('v'), str) else c.get('item')
            b = self.p.bodies.get(key) if key else None
            if b is not None and b.kind in ('static', 'const') and not b.raw.get('static_mut'):
                return self.evalconst(b)
            return self.settype(Sym('static', str(key)), ty)
        if k == 'mem' or k == 'opaque':
            it = c.get('item')
            b = self.p.bodies.get(it) if it else None
            if b is not None:
                return self.evalconst(b)
            return self.settype(Sym('const', str(it), str(c.get('v'))[:200], ty.s), ty)
        if k == 'zst':
            if ty.k == 'tuple':
                return Tup()
            if ty.k == 'fndef':
                return self.fnval(ty)
            if ty.k == 'closure':
                return Agg('closure', ty.key, 0, ())
            if ty.k == 'adt':
                return Agg('adt', ty.key, 0, ())
            return Tup()
        return self.settype(Sym('const', str(c)[:200]), ty)

    def fnval(self, ty):
        v = mk('fn', ty.raw.get('path'), ty.s)
        self.fntys = getattr(self, 'fntys', {})
        self.fntys[v] = ty
        return v

    def evalconst(self, b):
        ck = b.key
        if ck not in self.promo_cache:
            self.promo_cache[ck] = None
            self.promo_cache[ck] = self.evalpure(b)
        v = self.promo_cache[ck]
        return v if v is not None else Sym('const', ck)

    def promoted(self, fr, c):
        of = c.get('of')
        b = fr.body
        pb = None
        if b.key == of or of is None:
            pb = b.promoted
        else:
            ob = self.p.bodies.get(of)
            if ob is not None:
                pb = ob.promoted
        i = c['v']
        if not pb or i >= len(pb):
            return Sym('promoted', str(of), i)
        return self.evalconst(pb[i])

    def evalpure(self, b):
        st = St()
        n = len(self.log)
        tag, self.tag = self.tag, ('const', b.key)
        rs = self.run_body(st, b, [], None, ('const', b.key))
        self.tag = tag
        del self.log[n:]
        if len(rs) == 1:
            st2, v = rs[0]
            v = st2.norm(v)
            while v.k == 'ref':
                v = st2.norm(self.load(st2, v.a[0], v.a[1]))
            return v
        return Sym('constv', b.key)

    def operand(self, st, fr, o):
        if o[0] == 'k':
            return self.const(st, fr, o[1])
        return self.read(st, fr, o[1])

    def rvalue(self, st, fr, rv, dty, sp):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            loc, ty = self.resolve(st, fr, rv[1])
            if rv[2]:
                if isinstance(loc, Pure):
                    return loc.v
                return Ref(loc[0], loc[1])
            v = self.loadloc(st, loc)
            self.settype(v, ty)
            return v
        if k == 'rawptr':
            loc, ty = self.resolve(st, fr, rv[1])
            if isinstance(loc, Pure):
                return loc.v
            return Ref(loc[0], loc[1])
        if k == 'cast':
            v = self.operand(st, fr, rv[2])
            kind = rv[1]
            if kind.startswith('IntToInt'):
                sty = self.resolve(st, fr, rv[2][1])[1] if rv[2][0] != 'k' else None
                n = fr.body.crate.ty(rv[3]).s
                if sty is not None and is_int(st.norm(v)) and UNSIGNED.get(sty.s, 1 << 99) <= UNSIGNED.get(n, 0):
                    return st.norm(v)
                return self.intcast(st, v, fr.body.crate.ty(rv[3]))
            if kind.startswith(('PointerCoercion', 'PtrToPtr', 'BoxDerefTransmute', 'Subtype')):
                return v
            if kind == 'Transmute' and v.k == 'ref' or v.k == 'ref':
                return v
            return self.settype(App('cast', v, kind, fr.body.crate.ty(rv[3]).s), fr.body.crate.ty(rv[3]))
        if k == 'bin':
            return self.binop(st, fr, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), dty, rv, sp)
        if k == 'un':
            v = st.norm(self.operand(st, fr, rv[2]))
            if rv[1] == 'Not':
                if dty.k == 'bool' or dty.s == 'bool':
                    return Not(v)
                m = UNSIGNED.get(dty.s)
                if m is not None:
                    return lsub(Int(m), v)
                return self.settype(App('bnot', v), dty)
            if rv[1] == 'Neg':
                return lscale(v, -1)
            if rv[1] == 'PtrMetadata':
                return Len(v)
            return self.settype(App('un', rv[1], v), dty)
        if k == 'discr':
            v = st.norm(self.read(st, fr, rv[1]))
            _, ty = self.resolve(st, fr, rv[1])
            return self.discr(v, ty)
        if k == 'agg':
            d = rv[1]
            fs = [self.operand(st, fr, o) for o in rv[2]]
            if d[0] == 'array':
                return Agg('array', None, 0, fs)
            if d[0] == 'tuple':
                return Agg('tuple', None, 0, fs)
            if d[0] == 'closure':
                return Agg('closure', d[1], 0, fs)
            if d[0] == 'adt':
                key, var = d[4], d[2]
                v = Agg('adt', key, var, fs)
                self.on_agg(st, fr, key, var, fs, sp)
                return v
            return self.settype(Sym('agg', str(d), *[f.id for f in fs]), dty)
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            n = rv[2] if len(rv) > 2 else None
            if isinstance(n, int) and n <= 64:
                return Agg('array', None, 0, [v] * n)
            return App('repeat', v, str(n))
        if k == 'len':
            return Len(self.read(st, fr, rv[1]))
        return self.settype(self.fresh('rv', fr.id, str(sp)), dty)

    def discr(self, v, ty=None):
        if v.k == 'agg' and v.a[0] == 'adt':
            adt = self.p.adts.get(v.a[1])
            if adt and adt['kind'] == 'enum':
                return Int(adt['variants'][v.a[2]]['discr'])
            return Int(v.a[2])
        if ty is not None:
            self.settype(v, ty)
        return App('discr', v)

    def intcast(self, st, v, ty):
        v = st.norm(v)
        if v.k == 'char' :
            return Int(v.a)
        if v.k == 'bool':
            return Int(1 if v.a else 0)
        n = ty.s
        if n == 'char':
            if is_const(v):
                return Char(cval(v))
            return self.settype(App('tochar', v), ty)
        if not is_int(v):
            if is_app(v, 'discr'):
                inner = v
            r = App('toint', v)
            tyname.setdefault(r, n)
            return r
        if n in UNSIGNED:
            if st.prove(v) and st.prove(lsub(Int(UNSIGNED[n]), v)):
                return v
        elif n in SIGNED:
            if st.prove(lsub(Int(SIGNED[n] - 1), v)) and st.prove(ladd(v, Int(SIGNED[n]))):
                return v
        r = App('trunc', v, n)
        tyname.setdefault(r, n)
        return r

    def binop(self, st, fr, op, a, b, dty, rv, sp):
        a, b = st.norm(a), st.norm(b)
        isb = a.k == 'bool' or b.k == 'bool' or (dty.k == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor'))
        if op in ('Eq', 'Ne'):
            if is_app(a, 'discr') or is_app(b, 'discr'):
                if is_app(b, 'discr'):
                    a, b = b, a
                if is_const(b):
                    r = self.isdiscr(a.a[1], cval(b))
                elif is_app(b, 'discr'):
                    r = App('eq', *sorted((a, b), key=lambda q: q.id)) if a is not b else Bool(True)
                else:
                    r = App('eq', a, b)
            else:
                r = Eq(a, b)
            return r if op == 'Eq' else Not(r)
        if op in ('Ge', 'Gt', 'Le', 'Lt'):
            if a.k == 'char' and b.k == 'char':
                x, y = a.a, b.a
                return Bool({'Ge': x >= y, 'Gt': x > y, 'Le': x <= y, 'Lt': x < y}[op])
            if a.k == 'char' or b.k == 'char' or not (is_int(a) and is_int(b)):
                if op in ('Lt', 'Gt'):
                    return Not(App('cmple', *((b, a) if op == 'Lt' else (a, b))))
                return App('cmple', *((a, b) if op == 'Le' else (b, a)))
            if op == 'Ge':
                return Ge0(lsub(a, b))
            if op == 'Gt':
                return Ge0(ladd(lsub(a, b), Int(-1)))
            if op == 'Le':
                return Ge0(lsub(b, a))
            return Ge0(ladd(lsub(b, a), Int(-1)))
        if op in ('BitAnd', 'BitOr', 'BitXor') and isb:
            if op == 'BitAnd':
                return And(a, b)
            if op == 'BitOr':
                return Or(a, b)
            return Not(Eq(a, b)) if (a.k == 'bool' or b.k == 'bool') else App('xor', a, b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        r = None
        if base == 'Add':
            r = ladd(a, b)
        elif base == 'Sub':
            r = lsub(a, b)
        elif base == 'Mul' and (is_const(a) or is_const(b)):
            r = lscale(b, cval(a)) if is_const(a) else lscale(a, cval(b))
        elif base in ('Div', 'Rem') and is_const(a) and is_const(b) and cval(b) > 0 and cval(a) >= 0:
            r = Int(cval(a) // cval(b) if base == 'Div' else cval(a) % cval(b))
        else:
            r = App({'Div': 'div', 'Rem': 'rem', 'Mul': 'mul'}.get(base, base), a, b)
            t = dty
            if t.k == 'tuple':
                t = fr.body.crate.ty(t.raw['ts'][0])
            if t.s in UNSIGNED or t.s in SIGNED:
                tyname.setdefault(r, t.s)
        if op.endswith('WithOverflow'):
            t = fr.body.crate.ty(dty.raw['ts'][0])
            return Tup(r, App('ovf', base, r, t.s))
        return r

    def isdiscr(self, v, n):
        """predicate: discriminant of v == n"""
        ty = tyof.get(v)
        k = n
        ty = ty.peel() if ty is not None else None
        key = v.a[1] if v.k in ('menum',) else (ty.key if ty is not None and ty.k == 'adt' else None)
        adt = self.p.adts.get(key) if key else None
        if adt:
            for i, va in enumerate(adt['variants']):
                if va['discr'] == n:
                    k = i
        return Is(v, k)

    def on_agg(self, st, fr, key, var, fs, sp):
        if key in self.sitekeys:
            cur = dict(st.mem[SITE].a) if SITE in st.mem and st.mem[SITE].k == 'site' else {}
            cur[key] = (fr.id, str(sp))
            st.mem[SITE] = mk('site', tuple(sorted(cur.items())))
        if key and key.split('::')[0] in self.workspace():
            self.log.append(('cell', key, var, tuple(self.seal(st, f) for f in fs), self.where(fr, sp),
                             tuple(self.minlen(st, f) for f in fs), self.balinfo(st, fs)))
            if self.opts.get('balance'):
                for i, f in enumerate(fs):
                    if f.k in ('app', 'sym', 'str') and self.htmlish(st, f):
                        self.log.append(('balance', key, var, i, self.balanced(st, f), self.where(fr, sp)))
                    elif is_int(f) and key in self.sitekeys:
                        lo = st.prove(st.lnorm(ladd(f, Int(-1))))
                        hi = st.prove(st.lnorm(ladd(Int(6), f, -1)))
                        self.log.append(('range', key, var, i, (lo, hi), self.where(fr, sp), f))

    def balinfo(self, st, fs):
        return tuple(self.shorter(st, f) for f in fs) if self.opts.get('source') is not None else None

    def minlen(self, st, f):
        f = st.norm(f)
        if f.k in ('app', 'sym', 'agg', 'str') and not is_int(f):
            for n in (1,):
                if f.k == 'agg' and f.a[0] not in ('array',):
                    return 0
                if st.prove(st.lnorm(ladd(Len(f), Int(-n)))):
                    return 1
        return 0

    def workspace(self):
        return ('gfm', 'smd', 'smd_core')

    # ---- features: what the path conditions say about a piece of text, attached to it in the log
    def seal(self, st, v):
        """attach state-dependent features of a string value to its leaves (see htmlprops)"""
        if not self.opts.get('feats'):
            return v
        if v.k not in ('app', 'agg', 'sym'):
            return v
        facts = []
        for b, t in st.pb.items():
            if b.k != 'app':
                continue
            op = b.a[0]
            if op == 'all' and t and is_app(b.a[1], 'chars'):
                facts.append(('all', b.a[1].a[1], b))
            elif op == 'contains' and not t:
                facts.append(('lacks', b.a[1], b.a[2]))
            elif op == 'starts_with' and t and b.a[2].k == 'str':
                facts.append(('sw', b.a[1], b.a[2].a))
            elif op == 'ends_with' and t and is_app(b.a[1], 'ret'):
                facts.append(('ew', None, None))
        for x, f in st.vs.items():
            if x.k == 'app' and x.a[0] in ('lower', 'alower', 'upper', 'aupper'):
                facts.append(('fold', x.a[1], f))
        if not facts:
            return v
        return self._seal(st, v, facts, {}, 0)

    def _seal(self, st, v, facts, memo, d):
        if v in memo:
            return memo[v]
        r = v
        if d < 40:
            if v.k == 'agg' and v.a[0] in ('adt', 'tuple', 'array'):
                fs = [self._seal(st, x, facts, memo, d + 1) for x in v.a[3]]
                if any(a is not b for a, b in zip(fs, v.a[3])):
                    r = Agg(v.a[0], v.a[1], v.a[2], fs)
            elif v.k == 'app' and v.a[0] in ('cat', 'replace'):
                xs = [self._seal(st, x, facts, memo, d + 1) if isinstance(x, V) else x for x in v.a[1:]]
                if any(a is not b for a, b in zip(xs, v.a[1:])):
                    r = App(v.a[0], *xs)
                if v.a[0] == 'replace':
                    fs = {f for f in self.textfeats(st, v, facts) if f[0] == 'lacks'}
                    if fs:
                        r = App('feat', r, mk('fs', frozenset(fs)))
            elif v.k in ('app', 'sym') and not is_int(v) and not (v.k == 'app' and v.a[0] == 'feat'):
                fs = self.textfeats(st, v, facts)
                for y in subterms(v) if v.k == 'app' else ():
                    c = self.cutoff(st, y)
                    if c:
                        fs.add(('cut', y) + c)
                if fs:
                    r = App('feat', v, mk('fs', frozenset(fs)))
        memo[v] = r
        return r

    TRACK = '<>"\'&%: \t\n\r\x01'

    def cutoff(self, st, y):
        """constants that the slice y leaves out at the start and at the end of a rendered text"""
        if not (is_app(y, 'slice') and is_app(y.a[1], 'ret')):
            return None
        x, a, b = y.a[1:4]
        pre = suf = None
        for p, t in st.pb.items():
            if t and p.k == 'app' and p.a[0] in ('starts_with', 'ends_with') and p.a[1] is x and p.a[2].k == 'str':
                if p.a[0] == 'starts_with' and is_const(a) and cval(a) == blen(p.a[2].a):
                    pre = p.a[2].a
                if p.a[0] == 'ends_with' and lsub(Len(x), b) is Int(blen(p.a[2].a)):
                    suf = p.a[2].a
        if a is Int(0):
            pre = ''
        if b is Len(x):
            suf = ''
        return (pre, suf) if pre is not None and suf is not None else None

    def textfeats(self, st, v, facts):
        out = set()
        n = st.dnorm(v)
        for kind, X, x in facts:
            if kind == 'ew':
                continue
            if kind == 'sw':
                if self.sw_tail(st, n, X, x):
                    out.add(('img',)) if self.sw_tail(st, n, X, x).startswith('image/') else None
                continue
            same = X is v or st.dnorm(X) is n or self.sameslice(st, st.dnorm(X), n)
            if kind == 'fold':
                if same:
                    if x[0]:
                        out.add(('fold', frozenset(c.lower() for c in x[1] if isinstance(c, str))))
                    else:
                        for c in x[1]:
                            if isinstance(c, str):
                                out.add(('nfold', c.lower()))
                continue
            if not same and not self.within(st, n, st.dnorm(X)):
                continue
            if kind == 'all' and is_app(x.a[2], 'cset'):
                out |= {('lacks', c) for c in self.TRACK if c not in x.a[2].a[1].a}
            elif kind == 'lacks':
                if x.k in ('str', 'char'):
                    c = pat_str(x).a
                    if len(c) == 1:
                        out.add(('lacks', c))
                elif x.k == 'agg' and x.a[0] == 'array':
                    for y in x.a[3]:
                        if y.k == 'char':
                            out.add(('lacks', pat_str(y).a))
                elif is_app(x, 'cset'):
                    out |= {('lacks', c) for c in x.a[1].a if c in self.TRACK}
                elif x.k == 'fn' or x.k not in ('sym', 'app'):
                    if 'is_whitespace' in str(x):
                        out |= {('lacks', c) for c in ' \t\n\r'}
            else:
                for c in self.TRACK:
                    e = x.a[2]
                    m = {y: Char(ord(c)) for y in subterms(e) if is_app(y, 'at') and is_app(y.a[1], 'chars')}
                    if m and self.pred(st, subst(e, m)) is False:
                        out.add(('lacks', c))
        return out

    def pred(self, st, e):
        """truth of a predicate over constant characters"""
        if e.k == 'bool':
            return e.a
        if e.k == 'app':
            op = e.a[0]
            if op == 'inset' and e.a[1].k == 'char':
                s = e.a[2]
                if s.k == 'agg' and all(y.k == 'char' for y in s.a[3]):
                    return any(y is e.a[1] for y in s.a[3])
            if op == 'not':
                t = self.pred(st, e.a[1])
                return None if t is None else not t
            if op in ('and', 'or'):
                a, b = self.pred(st, e.a[1]), self.pred(st, e.a[2])
                if op == 'and':
                    return False if a is False or b is False else True if a and b else None
                return True if a or b else False if a is False and b is False else None
            if op.startswith('is_') and len(e.a) == 2 and e.a[1].k == 'char':
                c = chr(e.a[1].a)
                return {'is_alphanumeric': c.isalnum(), 'is_ascii_alphanumeric': c.isalnum() and c.isascii(), 'is_alphabetic': c.isalpha(),
                        'is_ascii_alphabetic': c.isalpha() and c.isascii(), 'is_ascii_digit': c.isdigit() and c.isascii(), 'is_whitespace': c.isspace(),
                        'is_ascii': c.isascii()}.get(op)
        t = st.truth(e)
        return t

    def sameslice(self, st, a, b):
        if is_app(a, 'slice') and is_app(b, 'slice') and a.a[1] is b.a[1]:
            return st.eqzero(st.lnorm(lsub(a.a[2], b.a[2]))) and st.eqzero(st.lnorm(lsub(a.a[3], b.a[3])))
        return False

    def within(self, st, v, X, d=0):
        """v is a part of X"""
        n = 0
        while n < 20:
            n += 1
            if v is X:
                return True
            if is_app(v, 'slice') and is_app(X, 'slice') and v.a[1] is X.a[1]:
                return st.prove(st.lnorm(lsub(v.a[2], X.a[2]))) and st.prove(st.lnorm(lsub(X.a[3], v.a[3])))
            if v.k == 'app' and (v.a[0] in SUBSTR or v.a[0] == 'slice'):
                v = v.a[1]
            elif is_app(v, 'at') and is_app(v.a[1], 'split'):
                v = v.a[1].a[1]
            else:
                return is_app(X, 'cat') and d < 4 and any(self.within(st, v, x, d + 1) for x in X.a[1:])
        return False

    def sw_tail(self, st, v, X, c):
        """what v is known to start with, given that X starts with c"""
        X = st.dnorm(X)
        if X is v:
            return c
        if is_app(v, 'slice') and is_app(X, 'slice') and v.a[1] is X.a[1] and st.eqzero(st.lnorm(lsub(v.a[3], X.a[3]))):
            k = st.lnorm(lsub(v.a[2], X.a[2]))
            if is_const(k) and 0 <= cval(k) <= len(c) and c.isascii():
                return c[cval(k):]
        return ''

    # ------------------------------------------------------------ blocks
    def exec_block(self, fr, b, st):
        """-> list of (target, state); target 'RET' for return"""
        body = fr.body
        blk = body.blocks[b]
        self.steps += 1
        self.blocks_seen.add((body.key, b))
        for s in blk['st']:
            k = s[0]
            if k == '=':
                pl = s[1]
                loc, ty = self.resolve(st, fr, pl)
                v = self.rvalue(st, fr, s[2], ty or body.lty(pl[0]), s[3] if len(s) > 3 else None)
                v = st.norm(v)
                self.storeloc(st, loc, v)
            elif k == 'dead':
                if fr.parent is None:
                    c = self.findcursor(st, fr, s[1])
                    if c is not None:
                        self.log.append(('curend', st.prove(st.lnorm(lsub(c[1], Len(c[0])))), self.where(fr, t_span(blk)), c))
                st.mem.pop((fr.id, s[1]), None)
        t = blk['t']
        k = t['k']
        if k == 'goto':
            return [(t['t'], st)]
        if k == 'return':
            return [('RET', st)]
        if k == 'switch':
            return self.do_switch(fr, st, t)
        if k == 'drop':
            self.on_drop(st, fr, t)
            return [(t['t'], st)]
        if k == 'assert':
            return self.do_assert(fr, st, t, b)
        if k == 'call':
            return self.do_call(fr, st, t, b)
        return []

    def on_drop(self, st, fr, t):
        pass

    def cases(self, st, b, want):
        """states refining st in which boolean b == want"""
        b = self.deepbool(st, b)
        tr = st.truth(b)
        if tr is not None and not (is_app(b) and b.a[0] in ('and', 'or')):
            return [st] if tr == want else []
        if is_app(b, 'not'):
            return self.cases(st, b.a[1], not want)
        if is_app(b) and b.a[0] in ('and', 'or'):
            conj = (b.a[0] == 'and') == want   # both sides must equal want
            out = []
            if conj:
                for s in self.cases(st, b.a[1], want):
                    out += self.cases(s, b.a[2], want)
            else:
                out += self.cases(st.copy(), b.a[1], want)
                for s in self.cases(st, b.a[1], not want):
                    out += self.cases(s, b.a[2], want)
            return out
        try:
            st = st.copy()
            st.assume(b, want)
            return [st]
        except Dead:
            return []

    def deepbool(self, st, b):
        return st.norm(b)

    def do_switch(self, fr, st, t):
        d = st.norm(self.operand(st, fr, t['d']))
        dty = fr.body.crate.ty(t['dty'])
        out = []
        if dty.k == 'bool' or dty.s == 'bool':
            tg = {x: y for x, y in t['ts']}
            for n in (0, 1):
                tgt = tg.get(n, t['o'])
                if tgt is None:
                    continue
                for s in self.cases(st.copy(), d, bool(n)):
                    out.append((tgt, s))
            return out
        rest = st
        for n, tgt in t['ts']:
            if isinstance(n, str):
                n = int(n)
            if is_app(d, 'discr'):
                p = self.isdiscr(d.a[1], n)
            elif d.k == 'char' or dty.s == 'char':
                p = Eq(d, Char(n))
            else:
                p = Eq(d, Int(n))
            tr = rest.truth(p)
            if tr is not False:
                try:
                    s = rest.copy()
                    s.assume(p, True)
                    out.append((tgt, s))
                except Dead:
                    pass
            if tr is True:
                rest = None
                break
            try:
                rest = rest.copy()
                rest.assume(p, False)
            except Dead:
                rest = None
                break
        if rest is not None and t['o'] is not None:
            # all declared variants excluded?
            out.append((t['o'], rest))
        return out

    def oblige(self, fr, st, kind, ok, what, sp):
        self.log.append(('ob', kind, bool(ok), what, self.where(fr, sp), self.trace(fr)))

    def do_assert(self, fr, st, t, b):
        m = t['m']
        c = st.norm(self.operand(st, fr, t['c']))
        e = t['e']
        if m == 'other':
            return [(t['t'], st)]
        if m.startswith('overflow'):
            op = m.split(':')[1]
            if is_app(c, 'ovf'):
                r, ty = c.a[2], c.a[3]
                ok = self.no_overflow(st, op, r, ty)
                if ok is None:
                    self.log.append(('assume', 'arith', op, ty, self.where(fr, t['s'])))
                else:
                    self.oblige(fr, st, 'overflow', ok, 'arithmetic %s on %s may overflow (result %s)' % (op, ty, show(r)), t['s'])
                    # continue under the assumption that it did not
                    try:
                        if ty in UNSIGNED:
                            st.add_ge(st.lnorm(r))
                            if ty not in ('usize', 'u64', 'u128'):
                                st.add_ge(lsub(Int(UNSIGNED[ty]), r))
                    except Dead:
                        return []
            return [(t['t'], st)]
        ok = st.truth(c) == e
        self.oblige(fr, st, m.split(':')[0], ok, 'run-time check `%s` may fail' % m, t['s'])
        ss = self.cases(st, c, e)
        return [(t['t'], s) for s in ss]

    def no_overflow(self, st, op, r, ty):
        r = st.lnorm(r)
        if ty in UNSIGNED:
            lo = st.prove(r)
            hi = UNSIGNED[ty]
            if op == 'Sub':
                return lo
            if hi >= 2**32 - 1:
                return None
            return st.prove(lsub(Int(hi), r))
        if ty in SIGNED:
            if SIGNED[ty] >= 2**31:
                return None
            return st.prove(lsub(Int(SIGNED[ty] - 1), r)) and st.prove(ladd(r, Int(SIGNED[ty])))
        return None

    # ------------------------------------------------------------ calls
    def do_call(self, fr, st, t, b):
        f = t['f']
        args = [st.norm(self.operand(st, fr, a)) for a in t['a']]
        fty = None
        if f[0] == 'k':
            fty = fr.body.crate.ty(f[1]['ty'])
            fv = self.fnval(fty)
        else:
            fv = st.norm(self.operand(st, fr, f))
            fty = self.fntys.get(fv)
        loc, dty = self.resolve(st, fr, t['d'])
        site = (fr.id, b)
        rs = self.call(st, fr, fv, fty, args, dty, site, t)
        out = []
        if t.get('t') is None:
            return []
        for s, v in rs:
            v = s.norm(v)
            self.settype(v, dty)
            l2, _ = self.resolve(s, fr, t['d'])
            self.storeloc(s, l2, v)
            out.append((t['t'], s))
        return out

    def callee_body(self, fty):
        if fty is None:
            return None
        r = fty.raw.get('res')
        keys = []
        if r:
            if r.get('kind') == 'item':
                keys.append(r['key'])
        else:
            keys.append(fty.raw.get('key'))
        for k in keys:
            b = self.p.bodies.get(k)
            if b is not None and b.kind in ('fn', 'closure'):
                return b
        return None

    def call(self, st, fr, fv, fty, args, dty, site, t=None):
        """-> list of (state, value)"""
        body = self.callee_body(fty)
        if body is not None:
            return self.call_body(st, fr, body, args, dty, site, t)
        if fty is not None:
            path = fty.raw.get('path') or ''
            return self.models.call(self, st, fr, path, fty, args, dty, site, t)
        return self.models.call_value(self, st, fr, fv, args, dty, site, t)

    def call_body(self, st, fr, body, args, dty, site, t=None):
        ov = self.models.override(self, st, fr, body, args, dty, site, t)
        if ov is not None:
            return ov
        if body.key in self.cut or body.key in self.stack:
            return self.summary_call(st, fr, body, args, dty, site, t)
        c = self.contract(body)
        if c is not None:
            r = self.apply_contract(st, c, body, args)
            if r is not None:
                return r
        return self.run_body(st, body, args, fr, site)

    def summary_call(self, st, fr, body, args, dty, site, t):
        """call of a function analysed separately: arguments are logged, result is opaque"""
        self.log.append(('arg', body.key, tuple(self.seal(st, self.snap(st, a)) for a in args), self.where(fr, t['s'] if t else None),
                         fr.body.key, self.callctx(st, args)))
        for a in args:
            self.havoc_refs(st, a, site)
        v = App('ret', Sym('retof', body.key), *[self.snap(st, a) for a in args])
        self.settype(v, dty)
        return [(st, v)]

    def callctx(self, st, args):
        """is each string argument provably shorter than the text the current unit works on?"""
        return tuple(self.shorter(st, self.snap(st, a)) for a in args)

    def philog(self, P, s, v):
        """the symbol P may stand for v"""
        self.log.append(('phi', P, self.seal(s, v)))
        if self.opts.get('source') is not None and not is_int(P):
            self.short.setdefault(P, set()).update(self.shorts(s, v))

    def shorts(self, s, v, d=0):
        """verdicts of `shorter` for a text, or for the elements of a sequence of texts"""
        out = set()
        while d < 40:
            d += 1
            if is_app(v, 'push'):
                out.add(self.shorter(s, s.norm(v.a[2])))
                v = s.norm(v.a[1])
                if v.k == 'sym' and v.a[0] in ('phi', 'elem'):
                    return out | {('dep', v)}
            elif is_app(v) and v.a[0] in ('rmat', 'subseq', 'skip', 'take', 'rev'):
                v = s.norm(v.a[1])
            elif v.k == 'agg' and v.a[0] == 'array':
                for x in v.a[3]:
                    out.add(self.shorter(s, s.norm(x)))
                return out
            elif is_app(v, 'collect') and v.a[1].k == 'sym':
                return out | {('dep', v.a[1])}
            else:
                return out | {self.shorter(s, v)}
        return out | {None}

    def shortbase(self, v):
        """a joined text that v is a part of"""
        n = 0
        while n < 30:
            n += 1
            if v.k == 'sym' and v.a[0] in ('phi', 'elem'):
                return v
            if v.k != 'app':
                return None
            op = v.a[0]
            if op in SUBSTR or op == 'slice':
                v = v.a[1]
            elif op == 'uor' and v.a[2].k == 'str' and v.a[2].a == '' and is_app(v.a[1]) and v.a[1].a[0] in ('get', 'strip_prefix', 'strip_suffix'):
                v = v.a[1].a[1]
            elif op == 'pl' and is_app(v.a[1]) and v.a[1].a[0] in ('get', 'strip_prefix', 'strip_suffix') and v.a[3] == 1:
                v = v.a[1].a[1]
            elif op == 'at' and is_app(v.a[1]) and v.a[1].a[0] in ('collect', 'split', 'lines', 'split_whitespace'):
                v = v.a[1].a[1]
            elif op == 'at' and v.a[1].k == 'sym' and v.a[1].a[0] in ('phi', 'elem'):
                v = v.a[1]
            elif op == 'at' and is_app(v.a[1]) and v.a[1].a[0] in ('rmat', 'slice', 'subseq', 'skip', 'take', 'rev', 'feat'):
                v = App('at', v.a[1].a[1], v.a[2])
            elif op in ('collect', 'rmat'):
                v = v.a[1]
            else:
                return None
        return None

    def shorter(self, st, v):
        """'lt' / 'le' / None: length of v against the source text of the unit"""
        src = self.opts.get('source')
        if src is None or v.k in ('agg', 'ref', 'fn', 'lin', 'bool', 'char') or is_int(v):
            return None
        if v.k == 'str' and not v.a:
            v = Str('')
        L = Len(v)
        if st.prove(st.lnorm(ladd(lsub(Len(src), L), Int(-1)))):
            return 'lt'
        b = self.shortbase(v)
        if b is not None:
            return ('dep', b)
        if st.prove(st.lnorm(lsub(Len(src), L))):
            return 'le'
        return None

    def snap(self, st, a):
        a = st.norm(a)
        n = 0
        while a.k == 'ref' and n < 5:
            a = st.norm(self.load(st, a.a[0], a.a[1]))
            n += 1
        return a

    def havoc_refs(self, st, a, site):
        if a.k == 'ref':
            v = self.fresh('havoc', site, str(a.a[0]), str(a.a[1]))
            old = st.norm(self.load(st, a.a[0], a.a[1]))
            if old in tyof:
                self.settype(v, tyof[old])
            elif old in tyname:
                tyname[v] = tyname[old]
            self.log.append(('phi', v, old))
            self.storeloc(st, (a.a[0], a.a[1]), v)
        elif a.k == 'agg':
            for x in a.a[3]:
                self.havoc_refs(st, x, site)

    def run_body(self, st, body, args, parent, site):
        body.analyse()
        self.visited.add(body.key)
        pid = parent.id if parent is not None else 0
        fr = Frame(self.fid(pid, site, body.key), body, parent, site)
        if body.kind == 'closure' and body.argc == 2 and len(args) != 2:
            pass
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a
            self.settype(a, body.lty(i + 1))
        self.stack.append(body.key)
        try:
            _, exits = self.exec_region(fr, 0, [st], None)
        finally:
            self.stack.pop()
        res = []
        for tgt, s in exits:
            v = s.mem.get((fr.id, 0))
            if v is None:
                v = Tup()
            s.mem[('ret',)] = v
            for k in [k for k in s.mem if k[0] == fr.id]:
                if k[0] == fr.id:
                    del s.mem[k]
            res.append(s)
        if len(res) > 1:
            res = self.merge(res, ('ret', fr.id))
        return [(s, s.norm(s.mem.pop(('ret',)))) for s in res]

    def call_closure(self, st, fr, clo, args, site, dty=None):
        """call closure / fn value with positional args"""
        clo = st.norm(clo)
        n = 0
        self_arg = clo
        while clo.k == 'ref' and n < 4:
            clo = st.norm(self.load(st, clo.a[0], clo.a[1]))
            n += 1
        if clo.k == 'agg' and clo.a[0] == 'closure':
            body = self.p.bodies.get(clo.a[1])
            if body is not None:
                sty = body.lty(1)
                if sty.k in ('ref',) and sty.mut and self_arg.k != 'ref':
                    root = ('clo', fr.id, site, self.tag)
                    st.mem[root] = clo
                    self_arg = Ref(root)
                elif self_arg.k == 'ref' and not (sty.k == 'ref' and sty.mut):
                    self_arg = clo
                return self.call_body(st, fr, body, [self_arg] + list(args), dty, ('clo', site, body.key))
        if clo.k == 'fn':
            fty = self.fntys.get(clo)
            if fty is not None:
                return self.call(st, fr, clo, fty, list(args), dty, ('fnv', site), None)
        # unknown callable
        return [(st, self.settype(App('callv', clo, *args), dty))]

    # ------------------------------------------------------------ regions and loops
    def exec_region(self, fr, start, states, loop):
        body = fr.body
        rpo = body.rpo_i
        inbox = {start: list(states)}
        heap = [(rpo[start], start)]
        backs, exits = [], []
        first = True
        while heap:
            _, b = heapq.heappop(heap)
            sts = inbox.pop(b, None)
            if not sts:
                continue
            outs = []
            if b in body.loops and not (first and loop is not None):
                sts = self.prep(fr, b, sts)
                outs = self.exec_loop(fr, b, sts)
            else:
                if len(sts) > 1:
                    sts = self.prep(fr, b, sts)
                for s in sts:
                    outs.extend(self.exec_block(fr, b, s))
            first = False
            for tgt, s in outs:
                self.nstates += 1
                if tgt == 'RET':
                    exits.append((tgt, s))
                elif loop is not None and tgt == start:
                    backs.append(s)
                elif loop is not None and tgt not in loop:
                    exits.append((tgt, s))
                else:
                    if tgt not in inbox:
                        inbox[tgt] = []
                        heapq.heappush(heap, (rpo[tgt], tgt))
                    inbox[tgt].append(s)
        return backs, exits

    def prune_dead(self, fr, b, s):
        live = fr.body.live_in.get(b)
        if live is None:
            return
        mb = fr.body.mutb
        fid = fr.id
        for k in [k for k in s.mem if k[0] == fid and k[1] not in live and k[1] not in mb]:
            del s.mem[k]

    def prep(self, fr, b, sts):
        for s in sts:
            self.prune_dead(fr, b, s)
            if s.bal:
                self.derive(s)
        if len(sts) > 1:
            sts = self.merge(sts, ('j', fr.id, b))
        return sts

    def exec_loop(self, fr, head, sts):
        blocks = fr.body.loops[head]

        def step(ss):
            inner = False
            if fr.parent is None:
                for s in ss:
                    c = self.findcursor(s, fr)
                    if c is not None:
                        s.mem[GHOST] = c[1]
                        inner = PUSHED in s.mem
                        if not inner:
                            s.mem[PUSHED] = Int(0)
            backs, exits = self.exec_region(fr, head, ss, blocks)
            if fr.parent is None and not inner:
                for _, s in exits:
                    if PUSHED in s.mem:
                        n = s.mem.pop(PUSHED)
                        c = self.findcursor(s, fr)
                        ok = s.eqzero(s.lnorm(lsub(n, Int(1)))) or c is not None and GHOST in s.mem and s.eqzero(s.lnorm(lsub(c[1], s.mem[GHOST])))
                        self.log.append(('round', ok, self.where(fr, fr.body.blocks[head]['t'].get('s')), n))
            for s in backs:
                if fr.parent is None and PUSHED in s.mem and not inner:
                    n = s.mem.pop(PUSHED)
                    self.log.append(('round', s.eqzero(s.lnorm(lsub(n, Int(1)))), self.where(fr, fr.body.blocks[head]['t'].get('s')), n))
                self.prune_dead(fr, head, s)
                if fr.parent is None:
                    s.mem.pop(GHOST, None)
                    s.mem.pop(SITE, None)
                    for v in [v for v in s.vs if v.k == 'app' and v.a[0] in FOLDS]:
                        del s.vs[v]
            return backs, exits
        return self.loop(sts, step, ('L', fr.id, head), fr, fr.body.blocks[head]['t'].get('s'))

    def findcursor(self, s, fr, only=None):
        """(source, index) of a cursor over a string argument of the unit held in one of its locals"""
        for root, v in s.mem.items():
            if root[0] != fr.id or (only is not None and root[1] != only):
                continue
            work = [v]
            while work:
                x = s.norm(work.pop())
                if x.k == 'agg' and x.a[0] == 'adt' and x.a[1] and x.a[1].split('::')[0] in self.workspace():
                    fs = x.a[3]
                    src = [f for f in fs if f.k == 'sym' and f.a[0] == 'arg']
                    idx = [f for f in fs if is_int(f)]
                    if len(src) == 1 and len(idx) == 1:
                        return src[0], idx[0]
                    work.extend(fs)
        return None

    def ownvec(self, fr, ref):
        """the frame of the unit if ref is a local of it"""
        while fr.parent is not None:
            fr = fr.parent
        return fr if ref is not None and ref.k == 'ref' and ref.a[0][0] == fr.id else None

    def on_push(self, st, fr, x, ref):
        top = self.ownvec(fr, ref)
        if top is not None and GHOST in st.mem:
            c = self.findcursor(st, top)
            if c is not None:
                self.log.append(('tok', x, st.mem[GHOST], c, st, self.where(fr)))
                if PUSHED in st.mem:
                    st.mem[PUSHED] = ladd(st.mem[PUSHED], Int(1))

    def on_shrink(self, st, fr, ref, name):
        top = self.ownvec(fr, ref)
        if top is not None and isinstance(ref.a[0][1], int):
            ty = top.body.lty(ref.a[0][1])
            self.log.append(('shrink', name, ty, self.where(fr)))

    def concrete_loop(self, states):
        """does every state carry an iterator with a concrete bound (so that it may be unrolled)?"""
        for s in states:
            ok = False
            for k, v in s.mem.items():
                v = s.norm(v)
                if v.k == 'agg':
                    if v.a[0] == 'adt' and v.a[1] in ('core::ops::range::Range', 'core::ops::range::RangeInclusive'):
                        a, b = v.a[3][0], v.a[3][1]
                        if is_const(a) and is_const(b) and 0 <= cval(b) - cval(a) <= 80:
                            ok = True
                    elif v.a[0] == 'it' and self.concrete_it(v):
                        ok = True
            if not ok:
                return False
        return True

    def concrete_it(self, v):
        if v.a[1] == 'seq':
            src, pos = v.a[3][0], v.a[3][1]
            return src.k == 'agg' and src.a[0] == 'array' and is_const(pos)
        return any(x.k == 'agg' and x.a[0] == 'it' and self.concrete_it(x) for x in v.a[3])

    # ---- loops that map a text character by character
    def charloop(self, sts, step, name, fr, sp):
        """A loop over the characters of a text X that appends to strings, for each character, a text
        depending on that character alone, is the text X under a sequence of replacements.  The body is
        analysed once for each ASCII character and once for any other character; None if it is not
        such a loop."""
        out = []
        mark = len(self.log)
        for s in sts:
            r = self.charloop1(s, step, name, fr, sp)
            if r is None:
                del self.log[mark:]
                return None
            out += r
        return out

    def charloop1(self, s, step, name, fr, sp):
        its = {}
        for root, v in s.mem.items():
            if v.k == 'agg' and (name[0] != 'H' or root == ('hof',) + name[1:]):
                for x in subterms(v):
                    if x.k == 'agg' and x.a[0] == 'it' and x.a[1] == 'seq' and is_app(x.a[3][0], 'chars') and x.a[3][1] is Int(0):
                        its.setdefault(x, set()).add(root)
        if len(its) != 1:
            return None
        (seq, roots), = its.items()
        if len(roots) != 1 or seq.a[3][0].a[1].k == 'str':
            return None
        iroot, = roots
        tag, log0 = self.tag, len(self.log)

        def run(chars, accs, what):
            st = s.copy()
            st.mem[iroot] = subst(s.mem[iroot], {seq: Agg('it', 'seq', 0, (Agg('array', None, 0, chars), Int(0)))})
            st.vs[Sym('nonascii')] = (False, frozenset(range(128)))
            for r, a in accs.items():
                st.mem[r] = a
            good = []

            def step2(ss):
                backs, exits = step(ss)
                for b in backs:
                    for r, v in s.mem.items():
                        if r != iroot and r not in ACC and b.mem.get(r) is not v and r in b.mem:
                            if not self.seqlike(v):
                                good.append(False)
                            ACC.add(r)
                return backs, exits
            ex = self.loop([st], step2, (name, 'c', what), fr, sp, obligation=False, inner=True)
            return ex if not good else None
        # which strings does the body append to?
        ACC = set()
        ex0 = run((), {}, 'end')
        if ex0 is None or len(ex0) != 1:
            return None
        end = len(self.log)
        for c in 'a&<"':
            if run((Char(ord(c)),), {}, 'try') is None:
                del self.log[log0:]
                return None
        del self.log[end:]
        ACC = set(ACC)
        if not ACC or len(ACC) > 3:
            return None
        A0 = {r: Sym('acc', name, str(r)) for r in ACC}
        for a in A0.values():
            strphis.add(a)
        key = self.charkey(s, fr, name, iroot, seq, ACC)
        tabs = self.charcache.get(key) if key is not None else None
        rel = {r: (r[0] - fr.id if r[0].__class__ is int else r[0],) + tuple(r[1:]) for r in ACC}
        if tabs is not None:
            tabs = {r: tabs.get(rel[r]) for r in ACC}
            if None in tabs.values():
                tabs = None
        if tabs is None:
            n0 = len(ACC)
            tabs = {r: {} for r in ACC}
            other = Sym('nonascii')
            for c in [chr(i) for i in range(128)] + [None]:
                x = Char(ord(c)) if c is not None else other
                ex = run((x,), A0, ('ch', c))
                if ex is None or len(ex) != 1 or len(ACC) != n0 or ex[0][0] != ex0[0][0]:
                    return None
                if any(e[0] == 'ob' and not e[2] for e in self.log[end:]):
                    return None
                for r in ACC:
                    v = ex[0][1].norm(ex[0][1].mem.get(r, A0[r])) if r in ex0[0][1].mem else None
                    if v is None:
                        continue
                    if v is A0[r]:
                        t = Str('')
                    elif is_app(v, 'cat') and v.a[1] is A0[r] and len(v.a) == 3:
                        t = v.a[2]
                    else:
                        return None
                    if c is None:
                        if t is not ChStr(other):
                            return None
                    elif t.k != 'str':
                        return None
                    elif t.a != c:
                        tabs[r][c] = t.a
            tabs = {r: self.chain(t) for r, t in tabs.items()}
            if any(t is None for t in tabs.values()):
                return None
            if key is not None:
                self.charcache[key] = {rel[r]: t for r, t in tabs.items()}
            for e in [e for e in self.log[end:] if e[0] in ('ob', 'loop')]:
                self.log.append(e)
        del self.log[end:]
        tgt, st = ex0[0]
        st.vs.pop(Sym('nonascii'), None)
        X = seq.a[3][0].a[1]
        for r, ch in tabs.items():
            if r not in st.mem:
                continue
            v = X
            for a, b in ch:
                v = Replace(v, Str(a), Str(b))
            st.mem[r] = Cat(s.norm(s.mem[r]), v)
        self.log.append(('loop', True, self.where(fr, sp), self.trace(fr), 'reads the characters of a text one by one'))
        return [(tgt, st)]

    def charset(self, st, fr, f):
        """the set of characters a predicate accepts, as a pattern value; None if it is not a function of
        the character alone"""
        f = st.norm(f)
        n = 0
        while f.k == 'ref' and n < 4:
            f = st.norm(self.load(st, f.a[0], f.a[1]))
            n += 1
        if not is_fnlike(f) or any(x.k in ('ref', 'sym', 'app') for x in subterms(f)):
            return None
        key = ('cset', f)
        if key in self.charcache:
            return self.charcache[key]
        mark = len(self.log)

        def ev(c):
            s = St()
            s.vs[Sym('nonascii')] = (False, frozenset(range(128)))
            rs = set()
            for s2, b in self.call_closure(s, fr, f, [c], ('cset',)):
                rs.add(s2.truth(s2.norm(b)))
            return rs.pop() if len(rs) == 1 else None
        yes, r = [], None
        for i in range(128):
            t = ev(Char(i))
            if t is None:
                break
            if t:
                yes.append(chr(i))
        else:
            na = ev(Sym('nonascii'))
            if na is False and len(yes) == 1:
                r = Str(yes[0])
            else:
                r = App('cset', mk('fs', frozenset(yes)), Bool(na) if na is not None else f)
        del self.log[mark:]
        self.charcache[key] = r
        return r

    def charkey(self, s, fr, name, iroot, seq, acc):
        out = [fr.body.key, name[0], name[2] if len(name) > 2 else None]
        for r in sorted(s.mem, key=str):
            if r == iroot:
                v = subst(s.mem[r], {seq: Sym('seq')})
            elif r in acc:
                continue
            elif r[0] == fr.id and name[0] == 'L' or r[0] == 'hoff' and r[1:] == name[1:]:
                v = s.mem[r]
            else:
                continue
            if any(x.k == 'ref' for x in subterms(v)):
                return None
            out.append((str(r[1]) if r[0] == fr.id else r[0], v))
        return tuple(out)

    def chain(self, tab):
        """simultaneous replacement of single characters as a sequence of replacements"""
        # c must be replaced before every d whose replacement contains c
        before = {c: {d for d, t in tab.items() if d != c and c in t} for c in tab}
        order = []
        left = set(tab)
        while left:
            ready = [c for c in sorted(left) if not any(c in before[d] for d in left if d != c)]
            if not ready:
                return None
            order += ready
            left -= set(ready)
        return [(c, tab[c]) for c in order]

    def loop(self, sts, step, name, fr, sp, obligation=True, inner=False):
        if self.opts.get('content') and len(sts) > 1:
            gs = self.bysource(sts)
            if 1 < len(gs) <= 16:
                return [e for i, g in enumerate(gs) for e in self.loop(g, step, (name, i), fr, sp, obligation, inner)]
        if not inner:
            r = self.charloop(sts, step, name, fr, sp)
            if r is not None:
                return r
        exits = []
        n = 0
        tag0 = self.tag
        cur = sts
        content = self.opts.get('content')
        first, rounds, leave = [], [], []
        while True:
            self.tag = tag0 + ((name, 'p', n),)
            if content and n == 0:
                backs, ex = [], []
                for s in cur:
                    h = s.copy()
                    first.append(h)
                    n0 = len(self.elstack)
                    self.elstack += self.elements(h)
                    bs, es = step([s])
                    del self.elstack[n0:]
                    backs += bs
                    ex += es
                    rounds += [(h, x.copy()) for x in bs]
                    leave += [(h, x) for _, x in es]
            else:
                backs, ex = step(cur)
            self.tag = tag0
            exits += ex
            n += 1
            if not backs:
                return exits
            if n > 1:
                content = False
            cur = self.merge(backs, (name, 'peel', n)) if len(backs) > 1 else backs
            if not (n < 90 and self.concrete_loop(cur)):
                break
        # general phase
        groups = {}
        maxheads = self.opts.get('maxheads', 0)
        key = self.key
        if name in self.coarse:
            key = self.coarsekey
        for s in cur:
            groups.setdefault(key(s), []).append(s)
        inits = {k: (self.joinall(v, (name, 'init')) if len(v) > 1 else v[0]) for k, v in groups.items()}
        heads = {k: v.copy() for k, v in inits.items()}
        for s in heads.values():
            for d in ('vs', 'pb', 'var'):
                pass
        pend = {}          # key -> list of back states seen in the previous round
        mark = len(self.log)
        rnd = 0
        dropped = {}       # key -> set of rejected candidate facts
        while True:
            rnd += 1
            del self.log[mark:]
            self.tag = tag0 + ((name, 'g'),)
            allb, ex2 = {}, []
            pairs = []
            lv = []
            npins = len(self.pins)
            for k, h in list(heads.items()):
                self.pins.append(self.features(h))
                n0 = len(self.elstack)
                if content:
                    self.elstack += self.elements(h)
                backs, ex = step([h.copy()])
                del self.elstack[n0:]
                self.pins.pop()
                ex2 += ex
                if content:
                    lv += [(h, x) for _, x in ex]
                for s in backs:
                    pairs.append((k, s))
                    allb.setdefault(key(s), []).append(s)
            self.tag = tag0
            if maxheads and key == self.key and len(set(heads) | set(allb)) > maxheads:
                # too many flag combinations: forget the flags at this loop head
                self.coarse.add(name)
                key = self.coarsekey
                g2 = {}
                for v in inits.values():
                    g2.setdefault(key(v), []).append(v)
                del self.log[mark:]
                inits = {k: (self.joinall(v, (name, 'init', 'c')) if len(v) > 1 else v[0]) for k, v in g2.items()}
                mark = len(self.log)
                heads = {k: v.copy() for k, v in inits.items()}
                dropped = {}
                continue
            newheads = {}
            for k in set(heads) | set(allb):
                ins = [inits[k]] if k in inits else []
                bs = allb.get(k, [])
                newheads[k] = self.headjoin(heads.get(k), ins, bs, (name, 'h', self.kid(k)), dropped.setdefault(k, set()), rnd)
            same = set(newheads) == set(heads) and all(self.same(newheads[k], heads[k]) for k in heads)
            if same:
                break
            heads = newheads
            if rnd > 40:
                self.notes.append('loop did not stabilise: %s' % (self.where(fr, sp),))
                self.log.append(('ob', 'fixpoint', False, 'loop analysis did not stabilise', self.where(fr, sp), self.trace(fr)))
                break
        if obligation and pairs:
            self.progress(fr, heads, pairs, sp)
        for k, h in heads.items():
            self.log.append(('head', name, h))
        if content:
            self.content_loop(first, rounds + [(heads[k], s) for k, s in pairs], leave + lv, fr, sp)
        exits += ex2
        return exits

    def kid(self, k):
        self._kids = getattr(self, '_kids', {})
        return self._kids.setdefault(k, len(self._kids))

    def leaves(self, v, path=(), out=None, d=0):
        if out is None:
            out = []
        if v.k == 'agg' and d < 6 and v.a[0] != 'array':
            for i, f in enumerate(v.a[3]):
                self.leaves(f, path + (i,), out, d + 1)
        else:
            out.append((path, v))
        return out

    def features(self, h):
        """numeric features of a loop-head state: list of ((root,path,kind), V)"""
        out = []
        for root, v in h.mem.items():
            for path, x in self.leaves(v):
                if is_int(x):
                    out.append(((root, path, 'int'), x))
                elif self.seqlike(x):
                    out.append(((root, path, 'len'), Len(x)))
        return out

    def seqlike(self, x):
        if x.k in ('str',):
            return True
        if x.k == 'agg':
            return x.a[0] == 'array'
        if x.k == 'app':
            if x.a[0] in ('cat', 'slice', 'push', 'rmat', 'append', 'replace', 'collect', 'elts') or x.a[0] in SUBSTR:
                return True
        t = tyof.get(x)
        if t is not None:
            t = t.peel() or t
            if t.k in ('str', 'slice', 'array'):
                return True
            if t.k == 'adt' and t.key in ('alloc::string::String', 'alloc::vec::Vec'):
                return True
        return False

    def getleaf(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            return None
        for i in path:
            v = st.norm(v)
            if v.k == 'agg' and i < len(v.a[3]):
                v = v.a[3][i]
            else:
                return None
        return v

    def feat(self, st, f):
        root, path, kind = f
        v = self.getleaf(st, root, path)
        if v is None:
            return None
        v = st.norm(v)
        if kind == 'int':
            return v if is_int(v) else None
        return Len(v) if (self.seqlike(v)) else None

    def progress(self, fr, heads, pairs, sp):
        """every way round the loop must strictly advance one bounded quantity"""
        feats = None
        for h in heads.values():
            fs = {f for f, _ in self.features(h)}
            feats = fs if feats is None else feats & fs
        good = None
        tried = []
        for f in sorted(feats or (), key=str):
            for d in (1, -1):
                ok = True
                moved = False
                for k, s in pairs:
                    hv, bv = self.feat(heads[k], f), self.feat(s, f)
                    if hv is None or bv is None or hv is bv:
                        ok = False
                        break
                    e = ladd(lscale(lsub(bv, hv), d), Int(-1))
                    if not s.prove(s.lnorm(e)):
                        ok = False
                        break
                    if not self.bounded(heads[k], s, f, bv, d):
                        ok = False
                        break
                if ok:
                    good = (f, d)
                    break
            if good:
                break
        # iterator adaptors whose position we do not model precisely
        self.log.append(('loop', good is not None, self.where(fr, sp), self.trace(fr),
                         'advances %s' % (self.fname(fr, good[0]),) if good else
                         'no bounded quantity is shown to advance on every way round the loop'))

    def fname(self, fr, f):
        root, path, kind = f
        nm = None
        if root[0] == fr.id:
            nm = fr.body.names.get(root[1])
        return '%s of %s%s' % (kind, nm or root, ''.join('.%d' % i for i in path))

    def bounded(self, h, s, f, bv, d):
        if d < 0:
            return s.prove(s.lnorm(bv))
        for root, v in h.mem.items():
            for path, x in self.leaves(v):
                if self.getleaf(s, root, path) is not x:
                    continue
                if is_int(x):
                    if s.prove(s.lnorm(lsub(x, bv))):
                        return True
                elif self.seqlike(x) or x.k in ('sym', 'app'):
                    if s.prove(s.lnorm(lsub(Len(x), bv))):
                        return True
        return False

    # ------------------------------------------------------------ joins
    def shape(self, st, v, d=0):
        v = st.norm(v)
        if v.k == 'bool':
            return v.a
        if v.k == 'agg':
            tag, key, var, fs = v.a
            if d > 5 or tag in ('array', 'it'):
                return None
            sub = tuple(self.shape(st, f, d + 1) for f in fs)
            if tag == 'adt':
                adt = self.p.adts.get(key)
                if adt and len(adt['variants']) > 1:
                    return (var, sub if any(x is not None for x in sub) else None)
            if any(x is not None for x in sub):
                return sub
            return None
        f = st.var.get(v)
        if f is not None and f[0]:
            return ('v', f[1])
        return None

    def key(self, st):
        r = []
        for k in st.mem:
            s = self.shape(st, st.mem[k]) if k is not SITE else st.mem[k].id
            if s is not None:
                r.append((k, s))
        r.sort(key=lambda x: str(x[0]))
        for v, f in st.vs.items():
            # a case-folded string known to be one constant: kept apart (URL scheme policies are disjunctive)
            if f[0] and len(f[1]) == 1 and v.k == 'app' and v.a[0] in FOLDS:
                r.append((('vs', v.id), ('c', next(iter(f[1])))))
        return (tuple(r), st.ev)

    def coarsekey(self, st):
        r, ev = self.key(st)
        return (tuple((k, x) for k, x in r if not isinstance(x, bool)), ev)

    def merge(self, sts, name):
        groups = {}
        for s in sts:
            groups.setdefault(self.key(s), []).append(s)
        if len(groups) > MAXP and self.sitekeys:
            g2 = {}
            for k, v in groups.items():
                g2.setdefault((tuple((r, x) for r, x in k[0] if r is SITE or not isinstance(x, bool)), k[1]), []).extend(v)
            if len(g2) > MAXP:
                g2 = {}
                for k, v in groups.items():
                    g2.setdefault((tuple((r, x) for r, x in k[0] if r is not SITE), k[1]), []).extend(v)
            groups = g2
        if len(groups) > MAXP:
            g2 = {}
            for k, v in groups.items():
                k2 = (tuple((r, x) for r, x in k[0] if isinstance(x, bool)), k[1])
                g2.setdefault(k2, []).extend(v)
            if len(g2) > MAXP:
                g3 = {}
                for k, v in g2.items():
                    g3.setdefault(k[1], []).extend(v)
                g2 = g3
            groups = g2
        out = []
        for k, v in groups.items():
            out.append(v[0] if len(v) == 1 else self.joinall(v, (name, self.kid(k))))
        return out

    def same(self, a, b):
        return a.mem == b.mem and a.pb == b.pb and a.vs == b.vs and a.var == b.var and a.ge.keys() == b.ge.keys() and a.bal == b.bal and a.has == b.has

    def joinV(self, vs, sts, name, path, phis):
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        if all(v.k == 'agg' and v.a[:3] == v0.a[:3] and len(v.a[3]) == len(v0.a[3]) for v in vs) and \
                not (v0.a[0] == 'array' and len(v0.a[3]) > 8):
            fs = [self.joinV([v.a[3][i] for v in vs], sts, name, path + (i,), phis) for i in range(len(v0.a[3]))]
            return mk('agg', v0.a[0], v0.a[1], v0.a[2], tuple(fs))
        # enum-like
        vs = [s.norm(v) for s, v in zip(sts, vs)]
        key = None
        for v in vs:
            if v.k == 'agg' and v.a[0] == 'adt':
                key = v.a[1]
            elif v.k == 'menum':
                key = v.a[1]
        if key is not None and all((v.k == 'agg' and v.a[0] == 'adt' and v.a[1] == key) or (v.k == 'menum' and v.a[1] == key) for v in vs):
            per = {}
            for s, v in zip(sts, vs):
                if v.k == 'agg':
                    per.setdefault(v.a[2], []).append((s, v.a[3]))
                else:
                    f = s.var.get(v)
                    for i, fs in v.a[2]:
                        if f is not None and not f[0] and i in f[1]:
                            continue
                        per.setdefault(i, []).append((s, fs))
            alts = []
            for i in sorted(per):
                lst = per[i]
                nf = len(lst[0][1])
                ss = [x[0] for x in lst]
                if len(lst) == 1:
                    fs = lst[0][1]
                else:
                    fs = tuple(self.joinV([x[1][j] for x in lst], ss, name, path + (('v', i), j), phis if len(lst) == len(sts) and ss == sts else None)
                               for j in range(nf))
                alts.append((i, tuple(fs)))
            if len(alts) == 1:
                return Agg('adt', key, alts[0][0], alts[0][1])
            gs = self.guards(sts, vs, [i for i, _ in alts])
            if gs:
                return mk('menum', Sym('me', self.tag, name, path), key, tuple(alts), gs)
            return mk('menum', Sym('me', self.tag, name, path), key, tuple(alts))
        if all(v.k in ('lin', 'app') for v in vs):
            ns = [s.dnorm(v) for s, v in zip(sts, vs)]
            if all(n is ns[0] for n in ns):
                return ns[0]            # the same value, written differently
        u = self.joinuor(vs, sts, phis)
        if u is not None:
            return u
        bs = [self.asslice(s, v) for s, v in zip(sts, vs)]
        for b in bs:
            if b is not None:
                bs = [(v, Int(0), Len(v)) if x is None and v is b[0] else x for v, x in zip(vs, bs)]
                break
        if any(v.k == 'str' for v in vs):
            fb = [b for b in bs if b is not None]
            if fb:
                bs = [self.constslice(s, v, fb) if b is None and v.k == 'str' else b for s, v, b in zip(sts, vs, bs)]
        if bs[0] is not None and all(b is not None and b[0] is bs[0][0] for b in bs):
            a = self.joinV([b[1] for b in bs], sts, name, path + ('sl0',), phis)
            z = self.joinV([b[2] for b in bs], sts, name, path + ('sl1',), phis)
            return Slice(bs[0][0], a, z)
        if phis is not None:
            for P, ws in phis:
                if len(ws) == len(vs) and all(x is y for x, y in zip(vs, ws)):
                    return P
        P = self.gated(vs, sts) or Sym('phi', self.tag, name, path)
        for s, v in zip(sts, vs):
            if v is not P:
                self.philog(P, s, v)
        self.phitype(P, vs)
        if phis is not None:
            phis.append((P, vs))
        return P

    def joinuor(self, vs, sts, phis):
        """the payload of an option where it is Some, one default where it is None"""
        if len(vs) < 2:
            return None
        for v in vs:
            if v.k == 'lin':
                ps = [t for t, k in v.a[1] if k == 1]
            else:
                ps = [v]
            for pl in ps:
                if not (pl.k == 'app' and pl.a[0] == 'pl' and pl.a[2] == OPT and pl.a[3] == 1 and pl.a[4] == 0):
                    continue
                o, d = pl.a[1], None
                base = lsub(v, pl) if v is not pl else None
                ds = []
                for s, w in zip(sts, vs):
                    if w is v:
                        if s.truth(Is(o, 1)) is not True:
                            break
                        ds.append(pl)
                        continue
                    if base is not None:
                        w = lsub(w, base)
                    if s.truth(Is(o, 1)) is not False or d not in (None, w) or base is not None and not is_const(w):
                        break
                    ds.append(w)
                    d = w
                else:
                    u = Uor(o, d)
                    if phis is not None and is_int(u) and all(x is not u for x, _ in phis):
                        phis.append((u, ds))
                    return u if base is None else ladd(base, u)
        return None

    def guards(self, sts, vs, ks):
        """facts about text that hold in every joined state in which the enum has a given variant"""
        if not self.opts.get('feats'):
            return ()
        out = []
        for k in ks:
            acc = None
            for s, v in zip(sts, vs):
                if v.k == 'agg':
                    if v.a[2] != k:
                        continue
                    fs = {}
                else:
                    f = s.var.get(v)
                    if f is not None and not f[0] and k in f[1] or all(i != k for i, _ in v.a[2]):
                        continue
                    fs = {(g[0], g[1]): g[2] for i, gs in (v.a[3] if len(v.a) > 3 else ()) if i == k for g in gs}
                for b, t in s.pb.items():
                    if b.k == 'app' and (b.a[0] == 'contains' or b.a[0] in ('all', 'starts_with') and t):
                        fs[('pb', b)] = t
                for x, f in s.var.items():
                    if x.k == 'app' and x.a[0] in ('find', 'rfind', 'split_once', 'rsplit_once', 'strip_prefix', 'strip_suffix'):
                        fs[('var', x)] = f
                for x, f in s.vs.items():
                    if x.k == 'app' and x.a[0] in ('lower', 'alower', 'upper', 'aupper'):
                        fs[('vs', x)] = f
                acc = fs if acc is None else {q: acc[q] for q in acc if fs.get(q) == acc[q]}
                if not acc:
                    break
            if acc:
                common = [q for q in acc if all(getattr(s, q[0]).get(q[1]) == acc[q] for s in sts)]
                gs = sorted(((q[0], q[1], acc[q]) for q in acc if q not in common), key=lambda g: g[1].id)
                if gs:
                    out.append((k, tuple(gs)))
        return tuple(out)

    def asslice(self, s, v):
        if v.k == 'app':
            if v.a[0] == 'slice':
                return v.a[1:4]
            if v.a[0] == 'ch':
                f = s.vs.get(v)
                if f and f[0] and all(blen(x) == 1 for x in f[1]):
                    return (v.a[1], v.a[2], ladd(v.a[2], Int(1)))
                return (v.a[1], v.a[2], Adv(v.a[1], v.a[2]))
        return None

    def constslice(self, s, v, fb):
        """a constant known to equal the text at the start of one of the slices"""
        for S, a, z in fb:
            off = a
            for ch in v.a:
                f = s.vs.get(Ch(S, off))
                if not (f and f[0] and f[1] == frozenset([ch])):
                    break
                off = ladd(off, Int(blen(ch)))
            else:
                return (S, a, off)
        for S, a, z in fb:
            for x, f in s.vs.items():
                if f[0] and is_app(x, 'slice') and x.a[1] is S and f[1] == frozenset([v.a]):
                    return (S, x.a[2], x.a[3])
        return None

    def gated(self, vs, sts):
        """name of a two-way join by the condition that tells the two states apart: joining the
        same values under the same condition again gives the same value"""
        if len(vs) != 2 or vs[0].k == 'ref' or vs[1].k == 'ref' or is_int(vs[0]):
            return None
        a, b = sts
        best = None
        for p, t in a.pb.items():
            if (best is None or p.id < best[0].id) and b.pb.get(p) == (not t):
                best = (p, t)
        for v, f in a.var.items():
            g = b.var.get(v)
            if f[0] and g is not None and ((g[0] and g[1] != f[1]) or (not g[0] and f[1] in g[1])):
                p = App('is', v, f[1])
                if best is None or p.id < best[0].id:
                    best = (p, True)
        if best is None:
            return None
        x, y = vs if best[1] else (vs[1], vs[0])
        P = Sym('phi', self.tag, 'ite', best[0], x, y)
        return None if P in vs else P

    def phitype(self, P, vs):
        for v in vs:
            if v in tyof and P not in tyof:
                tyof[P] = tyof[v]
            n = tyname.get(v)
            if n and n != 'int?' and tyname.get(P, 'int?') == 'int?':
                tyname[P] = n
        if tyname.get(P, 'int?') == 'int?' and all(is_int(v) for v in vs):
            for v in vs:
                if v.k == 'lin':
                    for t, _ in v.a[1]:
                        if tyname.get(t, 'int?') != 'int?':
                            tyname[P] = tyname[t]
            # integer constants only: keep it an integer without known signedness
            tyname.setdefault(P, 'int?')
        if any(v.k == 'str' for v in vs) and P not in tyof and P not in tyname:
            strphis.add(P)

    def joinall(self, sts, name):
        return self.joinstates(sts, name)[0]

    def joinmem(self, sts, name):
        phis = []
        mem = {}
        s0 = sts[0]
        for root in s0.mem:
            if all(root in s.mem for s in sts):
                mem[root] = self.joinV([s.mem[root] for s in sts], sts, name, (root,), phis)
        return mem, phis

    def facts_of(self, s):
        for b, t in s.pb.items():
            yield ('pb', b, t)
        for v, f in s.vs.items():
            yield ('vs', v, f)
        for v, f in s.var.items():
            yield ('var', v, f)
        for e in s.ge:
            yield ('ge', e, None)

    def defined(self, s, y):
        """the partial terms of a fact (a character, the position after it, the result of a search) exist in s:
        their defining lemmas may only be used to transfer the fact to a state where they do"""
        for x in subterms(y):
            if x.k != 'app':
                continue
            op = x.a[0]
            if op in ('ch', 'adv'):
                if x in s.gi or x in s.vs or Len(x) in s.gi or App('bnd', x.a[1], Adv(x.a[1], x.a[2])) in s.pb:
                    continue
                if not s.prove(s.lnorm(ladd(lsub(Len(x.a[1]), x.a[2]), Int(-1)))) and not self.held(s, x):
                    return False
            elif op == 'pl' and is_app(x.a[1]) and x.a[1].a[0] in ('find', 'rfind', 'position'):
                if x not in s.gi and s.variant(x.a[1]) != x.a[3] and not self.held(s, x):
                    return False
        return True

    def held(self, s, x):
        return any(x in subterms(v) for v in s.mem.values())

    def entails(self, s, f, m):
        k, x, d = f
        y = subst(x, m) if m else x
        if k == 'ge':
            if y in s.ge:
                return True
            return self.defined(s, y) and s.prove(s.lnorm(y))
        if k == 'pb':
            if y.k == 'bool':
                return y.a == d
            if s.pb.get(y) == d:
                return True
            return self.defined(s, y) and s.truth(y) == d
        if k == 'var':
            if y.k == 'agg':
                return (y.a[2] == d[1]) if d[0] else (y.a[2] not in d[1])
            g = s.var.get(y)
            if g == d:
                return True
            y = s.norm(y)
            if d[0]:
                return s.variant(y) == d[1]
            kk = s.variant(y)
            if kk is not None:
                return kk not in d[1]
            return g is not None and not g[0] and d[1] <= g[1]
        if k == 'vs':
            y = s.norm(y)
            if isconst(y):
                c = pyconst(y)
                return (c in d[1]) == d[0]
            g = s.vs.get(y)
            if g is None:
                return False
            if d[0]:
                return g[0] and g[1] <= d[1]
            if g[0]:
                return not (g[1] & d[1])
            return d[1] <= g[1]
        return False

    def addfact(self, s, f):
        k, x, d = f
        if k == 'ge':
            s.add_ge(x)
        elif k == 'pb':
            s.pb[x] = d
        elif k == 'vs':
            s.vs[x] = d
        else:
            s.var[x] = d

    def alive_syms(self, mem, extra=()):
        al = set()
        for v in mem.values():
            al |= subterms(v)
        for pl in self.pins:
            for _, v in pl:
                al |= subterms(v)
        for v in extra:
            al |= subterms(v)
        return {x for x in al if x.k in ('sym', 'menum')}

    def fact_alive(self, x, alive):
        for t in subterms(x):
            if t.k == 'sym' and t not in alive and t.a[0] in ('phi', 'u'):
                return False
            if t.k == 'menum' and t not in alive:
                return False
        return True

    def joinstates(self, sts, name):
        mem, phis = self.joinmem(sts, name)
        out = St()
        out.mem = mem
        out.ev = sts[0].ev
        alive = self.alive_syms(mem)
        inv = []            # per state: P -> v_i
        fwd = []            # per state: v_i -> P
        for i, s in enumerate(sts):
            m, w = {}, {}
            for P, vs in phis:
                m[P] = vs[i]
                if not isconst(vs[i]) and vs[i] is not P and vs[i].k not in ('agg', 'ref'):
                    w.setdefault(vs[i], P)
            inv.append(m)
            fwd.append(w)
        self.join_bal(sts, phis, out)
        self.join_has(sts, phis, out)
        # candidate facts
        seen = set()
        n = len(sts)
        # value sets get a union join
        s0 = sts[0]
        for v, f in s0.vs.items():
            if not f[0]:
                continue
            fs = [s.vs.get(v) for s in sts]
            if all(g is not None and g[0] for g in fs):
                u = frozenset().union(*[g[1] for g in fs])
                if len(u) <= 24 and self.fact_alive(v, alive):
                    out.vs[v] = (True, u)
        # excluded values get an intersection join
        for v in {v for s in sts for v, f in s.vs.items() if not f[0]}:
            if v in out.vs or not self.fact_alive(v, alive):
                continue
            fs = [s.vs.get(v) for s in sts]
            if any(f is None for f in fs):
                continue
            ex = None
            for f in fs:
                if not f[0]:
                    ex = f[1] if ex is None else ex & f[1]
            for f in fs:
                if f[0]:
                    ex = ex - f[1]
            if ex:
                out.vs[v] = (False, ex)
        for P, vs in phis:
            cs = []
            for s, v in zip(sts, vs):
                v = s.norm(v)
                if isconst(v) and v.k in ('str', 'char', 'bool'):
                    cs.append(frozenset([pyconst(v)]))
                else:
                    g = s.vs.get(v)
                    cs.append(g[1] if g and g[0] else None)
            if all(c is not None for c in cs):
                u = frozenset().union(*cs)
                if len(u) <= 24:
                    out.vs[P] = (True, u)
        srcs = list(range(n)) if n <= 4 else [0, 1, n - 1]
        for i in srcs:
            s = sts[i]
            for f in list(self.facts_of(s)):
                cands = []
                k, x, d = f
                if k == 'vs' and x in out.vs:
                    continue
                if fwd[i] and not subterms(x).isdisjoint(fwd[i]):
                    y = subst(x, fwd[i])
                    if self.fact_alive(y, alive):
                        cands.append((k, y, d))
                if self.fact_alive(x, alive):
                    cands.append(f)
                for c in cands:
                    if c in seen:
                        continue
                    seen.add(c)
                    if c[0] != 'ge' and c[1].k == 'bool':
                        continue
                    ok = True
                    gate = None
                    for j in range(n):
                        if j == i:
                            continue
                        if not self.entails(sts[j], c, inv[j]):
                            if gate is None:
                                gate = all(P.a[2] == 'ite' for P, _ in phis if P in subterms(c[1])) if c is f else False
                            if gate and self.entails(sts[j], c, None):
                                continue
                            ok = False
                            break
                    if ok:
                        try:
                            self.addfact(out, c)
                        except Dead:
                            pass
        self.numeric_cands(sts, phis, inv, out, mem)
        return out, phis

    def numeric_cands(self, sts, phis, inv, out, mem):
        ints = [(P, vs) for P, vs in phis if is_int(P)]
        seqs = [(P, vs) for P, vs in phis if not is_int(P) and all(self.seqlike(v) for v in vs)]
        if seqs:
            for P, vs in seqs:
                L = Len(P)
                for c in (ladd(L, Int(-1)),):
                    if all(s.prove(s.lnorm(ladd(Len(v), Int(-1)))) for s, v in zip(sts, vs)):
                        out.add_ge(c)
        if not ints:
            return
        pool = self.pool(sts, mem, ints)
        for P, vs in ints:
            strs = set()
            for s, v in zip(sts, vs):
                for t in subterms(v):
                    if t.k == 'app' and t.a[0] in ('adv', 'ch'):
                        strs.add(t.a[1])
                for b, t in s.pb.items():
                    if b.k == 'app' and b.a[0] == 'bnd' and b.a[2] is v and t:
                        strs.add(b.a[1])
            for S in sorted(strs, key=lambda q: q.id)[:4]:
                if all(s.bnd(S, v) for s, v in zip(sts, vs)):
                    out.pb[App('bnd', S, P)] = True
                    out.add_ge(lsub(Len(S), P))
            own = []
            for v in vs:
                if v not in own and self.fact_alive(v, self.alive_syms(mem)):
                    own.append(v)
            for t in [Int(0)] + own[:4] + pool + [Q for Q, _ in ints if Q is not P][:8]:
                if t is P:
                    continue
                for e in (ladd(lsub(P, t), Int(-1)), lsub(P, t), lsub(t, P), ladd(lsub(t, P), Int(-1))):
                    if e in out.ge:
                        continue
                    ok = True
                    for s, m in zip(sts, inv):
                        y = subst(e, m)
                        if not (self.defined(s, y) and s.prove(s.lnorm(y))):
                            ok = False
                            break
                    if ok:
                        out.add_ge(e)
                        if e is ladd(lsub(P, t), Int(-1)):
                            break

    def pool(self, sts, mem, ints):
        pool = []
        phis = {P for P, _ in ints}

        def add(v):
            if v not in pool and v not in phis and not is_const(v):
                pool.append(v)
        for root, v in reversed(list(mem.items())):
            for path, x in self.leaves(v):
                if is_int(x):
                    add(x)
            if len(pool) >= 5:
                break
        for pl in self.pins[-3:]:
            for (root, path, kind), v in pl:
                if kind == 'int':
                    add(v)
        for root, v in mem.items():
            for path, x in self.leaves(v):
                if is_int(x):
                    add(x)
        return pool[:12]

    # ---- loop heads
    def headjoin(self, prev, ins, backs, name, dropped, rnd):
        sts = ins + backs
        if prev is not None and len(sts) == 1 and ins:
            return prev
        if not sts:
            return prev
        mem, phis = self.headmem(prev, sts, name)
        out = St()
        out.mem = mem
        out.ev = sts[0].ev
        inv = []
        for i, s in enumerate(sts):
            inv.append({P: vs[i] for P, vs in phis})
        alive = self.alive_syms(mem)
        self.join_bal(sts, phis, out, prev)
        self.join_has(sts, phis, out, prev)
        # candidates: facts of the first input, rewritten to the phi symbols; facts of the previous head
        cands = []
        base = sts[0]
        fwd = {}
        for P, vs in phis:
            v = vs[0]
            if not isconst(v) and v is not P and v.k not in ('agg', 'ref'):
                fwd.setdefault(v, []).append(P)
        if rnd <= 2 or prev is None:
            for f in self.facts_of(base):
                k, x, d = f
                if self.fact_alive(x, alive):
                    cands.append(f)
                if fwd and not subterms(x).isdisjoint(fwd):
                    w = {v: ps[0] for v, ps in fwd.items()}
                    y = subst(x, w)
                    if self.fact_alive(y, alive):
                        cands.append((k, y, d))
            cands += self.head_cands(sts, phis, mem, base)
        if prev is not None:
            cands += list(self.facts_of(prev))
        seen = set()
        for c in cands:
            if c in seen or c in dropped:
                continue
            seen.add(c)
            if not self.fact_alive(c[1], alive):
                continue
            if all(self.entails(s, c, m) for s, m in zip(sts, inv)):
                try:
                    self.addfact(out, c)
                except Dead:
                    pass
            else:
                dropped.add(c)
        # value sets
        for P, vs in phis:
            cs = []
            for s, v in zip(sts, vs):
                v = s.norm(v)
                if isconst(v) and v.k in ('str', 'char', 'bool'):
                    cs.append(frozenset([pyconst(v)]))
                else:
                    g = s.vs.get(v)
                    cs.append(g[1] if g and g[0] else None)
            if all(c is not None for c in cs):
                u = frozenset().union(*cs)
                if len(u) <= 12:
                    out.vs[P] = (True, u)
        return out

    def headmem(self, prev, sts, name):
        """join of memories, keeping the phi symbols of the previous head where one exists"""
        phis = []
        mem = {}
        first = sts[0]
        for root in first.mem:
            if not all(root in s.mem for s in sts):
                continue
            vs = [s.mem[root] for s in sts]
            pv = prev.mem.get(root) if prev is not None else None
            mem[root] = self.headV(pv, vs, sts, name, (root,), phis)
        return mem, phis

    def headV(self, pv, vs, sts, name, path, phis):
        if pv is not None and pv.k == 'sym' and pv.a[0] == 'phi' and pv.a[2:] == (name, path):
            for s, v in zip(sts, vs):
                if v is not pv:
                    self.philog(pv, s, v)
            self.phitype(pv, vs)
            phis.append((pv, vs))
            return pv
        v0 = vs[0]
        if all(v is v0 for v in vs) and (pv is None or pv is v0):
            return v0
        if all(v.k == 'agg' and v.a[:3] == v0.a[:3] and len(v.a[3]) == len(v0.a[3]) for v in vs) and v0.a[0] != 'array' and \
                (pv is None or pv.k == 'agg' and pv.a[:3] == v0.a[:3]):
            fs = [self.headV(pv.a[3][i] if pv is not None and i < len(pv.a[3]) else None, [v.a[3][i] for v in vs], sts, name, path + (i,), phis)
                  for i in range(len(v0.a[3]))]
            return mk('agg', v0.a[0], v0.a[1], v0.a[2], tuple(fs))
        P = Sym('phi', self.tag, name, path)
        for s, v in zip(sts, vs):
            if v is not P:
                self.philog(P, s, v)
        self.phitype(P, vs)
        phis.append((P, vs))
        return P

    def head_cands(self, sts, phis, mem, base):
        """numeric candidate invariants for a loop head"""
        out = []
        ints = [(P, vs) for P, vs in phis if is_int(P)]
        seqs = [(P, vs) for P, vs in phis if not is_int(P) and any(self.seqlike(v) for v in vs)]
        for P, vs in seqs:
            if P not in tyof:
                strphis.add(P)
        feats = [(P, vs[0]) for P, vs in ints] + [(Len(P), Len(vs[0])) for P, vs in seqs]
        pool = self.pool(sts, mem, ints)
        pinned = {v for pl in self.pins[-3:] for (_, _, kind), v in pl if kind == 'int'}
        invlens = []
        for root, v in mem.items():
            for path, x in self.leaves(v):
                if self.seqlike(x) and x.k != 'str' and not any(x is P for P, _ in phis):
                    invlens.append(Len(x))
        for i, (F, v0) in enumerate(feats):
            out.append(('ge', lsub(F, v0), None))
            out.append(('ge', lsub(v0, F), None))
            out.append(('ge', ladd(F, Int(-1)), None))
            w = v0
            while is_app(w, 'adv'):
                w = w.a[2]
                out.append(('ge', ladd(lsub(F, w), Int(-1)), None))
                out.append(('ge', lsub(F, w), None))
            for t in pool + invlens[:6]:
                if t is not F and t is not v0:
                    out.append(('ge', lsub(F, t), None))
                    if t in pinned:
                        out.append(('ge', ladd(lsub(F, t), Int(-1)), None))
                    out.append(('ge', lsub(t, F), None))
            for (G, w0) in feats[i + 1:]:
                d = lsub(lsub(F, v0), lsub(G, w0))
                out.append(('ge', d, None))
                out.append(('ge', lscale(d, -1), None))
                d = ladd(lsub(F, v0), lsub(G, w0))
                out.append(('ge', d, None))
                out.append(('ge', lscale(d, -1), None))
            if F.k == 'sym':
                strs = set()
                for s, vs in zip(sts, [dict((P, vs) for P, vs in ints).get(F, [])]):
                    pass
        for P, vs in ints:
            strs = set()
            for s, v in zip(sts, vs):
                for t in subterms(v):
                    if t.k == 'app' and t.a[0] in ('adv', 'ch'):
                        strs.add(t.a[1])
                for b, t in s.pb.items():
                    if b.k == 'app' and b.a[0] == 'bnd' and b.a[2] is v and t:
                        strs.add(b.a[1])
            for S in sorted(strs, key=lambda q: q.id)[:4]:
                out.append(('pb', App('bnd', S, P), True))
                out.append(('ge', lsub(Len(S), P), None))
        return out

    # ------------------------------------------------------------ cursor contracts
    def contract(self, body):
        c = self.contracts.get(body.key, 0)
        if c != 0:
            return c
        self.contracts[body.key] = None
        c = self.derive_contract(body)
        self.contracts[body.key] = c
        return c

    def cursor_adt(self, ty):
        t = ty.peel() if ty is not None else None
        if t is None or t.k != 'adt' or ty.k != 'ref':
            return None
        adt = self.p.adts.get(t.key)
        if not adt or adt['kind'] != 'struct' or t.key.split('::')[0] not in self.workspace():
            return None
        fs = adt['variants'][0]['fields']
        if len(fs) != 2:
            return None
        return t.key

    def derive_contract(self, body):
        """does the function return the character at the cursor (and step over it)?  Checked on
        the body for every width of the character at the cursor and at the end of the input."""
        if body.argc != 1 or body.kind != 'fn':
            return None
        key = self.cursor_adt(body.lty(1))
        if key is None:
            return None
        rt = body.lty(0)
        if rt.k != 'adt' or rt.key != OPT:
            return None
        adt = self.p.adts[key]
        fts = [f.get('ty') for f in adt['variants'][0]['fields']]
        order = None
        names = [str(x) for x in fts]
        # find which field is the &str and which the usize, by type name
        res = None
        log0 = len(self.log)
        visited0 = set(self.visited)
        for (si, ii) in ((0, 1), (1, 0)):
            kinds = set()
            ok = True
            for w in (0, 1, 2, 3, 4):
                S, i = Sym('cS', body.key), Sym('cI', body.key)
                tyname[i] = 'usize'
                strphis.add(S)
                st = St()
                fs = [None, None]
                fs[si], fs[ii] = S, i
                root = ('cself', body.key)
                st.mem[root] = Agg('adt', key, 0, fs)
                st.pb[App('bnd', S, i)] = True
                st.add_ge(lsub(Len(S), i))
                try:
                    if w == 0:
                        st.assume(Eqi(lsub(Len(S), i)), True)
                    else:
                        st.add_ge(lsub(Len(S), ladd(i, Int(w))))
                        st.add_ge(lsub(Adv(S, i), ladd(i, Int(w))))
                        st.add_ge(lsub(ladd(i, Int(w)), Adv(S, i)))
                        st.pb[App('bnd', S, ladd(i, Int(w)))] = True
                        for k in range(1, w):
                            st.pb[App('bnd', S, ladd(i, Int(k)))] = False
                except Dead:
                    ok = False
                    break
                tag, self.tag = self.tag, ('contract', body.key, w)
                arg = Ref(root) if body.lty(1).mut else st.mem[root]
                stack, self.stack = self.stack, []
                pins, self.pins = self.pins, []
                try:
                    rs = self.run_body(st, body, [arg], None, ('contract', w))
                finally:
                    self.tag, self.stack, self.pins = tag, stack, pins
                for s, v in rs:
                    v = s.norm(v)
                    after = s.norm(s.mem[root])
                    ni = after.a[3][ii] if after.k == 'agg' else None
                    if ni is None or after.a[3][si] is not S:
                        ok = False
                        break
                    if w == 0:
                        if s.variant(v) != 0 or not s.eqzero(s.lnorm(lsub(ni, i))):
                            ok = False
                    else:
                        if s.variant(v) != 1:
                            ok = False
                            break
                        pl = s.dnorm(Pl(v, OPT, 1, 0))
                        if not ((is_app(pl, 'slice') and pl.a[1] is S and s.eqzero(lsub(pl.a[2], i)) and s.eqzero(s.lnorm(lsub(pl.a[3], ladd(i, Int(w)))))) or pl is Ch(S, i)):
                            ok = False
                            break
                        if s.eqzero(s.lnorm(lsub(ni, i))):
                            kinds.add('peek')
                        elif s.eqzero(s.lnorm(lsub(ni, ladd(i, Int(w))))):
                            kinds.add('next')
                        else:
                            ok = False
                    if not ok:
                        break
                if not ok or not rs:
                    ok = False
                    break
            if ok and len(kinds) == 1:
                res = (kinds.pop(), key, si, ii)
                break
        bad = [e for e in self.log[log0:] if e[0] == 'ob' and not e[2]]
        del self.log[log0:]
        if res is not None and bad:
            res = None
        if res is not None:
            self.log_contract(body, res)
        else:
            self.visited = visited0
        return res

    def log_contract(self, body, res):
        self.contract_list = getattr(self, 'contract_list', [])
        self.contract_list.append((body.path, res[0]))
        self.visited.add(body.key)

    def apply_contract(self, st, c, body, args):
        kind, key, si, ii = c
        a = st.norm(args[0])
        sv = a
        n = 0
        while sv.k == 'ref' and n < 4:
            loc = sv
            sv = st.norm(self.load(st, sv.a[0], sv.a[1]))
            n += 1
        if sv.k != 'agg' or len(sv.a[3]) != 2:
            return None
        S, i = st.norm(sv.a[3][si]), st.norm(sv.a[3][ii])
        if not is_int(i) or not st.bnd(S, i):
            return None
        p = Ge0(st.lnorm(ladd(lsub(Len(S), i), Int(-1))))
        out = []
        for want in (True, False):
            for s in self.cases(st.copy(), p, want):
                if want:
                    if kind == 'next':
                        if a.k != 'ref':
                            return None
                        fs = list(sv.a[3])
                        f = s.vs.get(Ch(S, i))
                        if f and f[0] and all(blen(x) == 1 for x in f[1]):
                            fs[ii] = ladd(i, Int(1))
                            s.pb[App('bnd', S, fs[ii])] = True
                        else:
                            fs[ii] = Adv(S, i)
                        self.storeloc(s, (loc.a[0], loc.a[1]), mk('agg', sv.a[0], sv.a[1], sv.a[2], tuple(fs)))
                        s.pb[App('bnd', S, Adv(S, i))] = True
                    out.append((s, Some(Ch(S, i))))
                else:
                    out.append((s, None_()))
        return out


strphis = set()
_old_seqlike = Engine.seqlike


def _seqlike(self, x):
    return x in strphis or _old_seqlike(self, x)


Engine.seqlike = _seqlike


def run_with_stack(f, *a):
    """run f in a thread with a large stack"""
    box = {}

    def g():
        try:
            box['r'] = f(*a)
        except BaseException as e:      # noqa
            import traceback
            box['e'] = e
            box['t'] = traceback.format_exc()
    threading.stack_size(1024 * 1024 * 1024)
    t = threading.Thread(target=g)
    t.start()
    t.join()
    if 'e' in box:
        sys.stderr.write(box['t'])
        raise box['e']
    return box['r']
