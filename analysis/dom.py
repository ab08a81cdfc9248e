"""Abstract state and its fact base: value-set facts, variant facts, predicate facts and a
zone-like set of linear inequalities, with a small string/sequence theory."""
import val
from val import *

UNSIGNED = {'u8': 2**8 - 1, 'u16': 2**16 - 1, 'u32': 2**32 - 1, 'u64': 2**64 - 1, 'usize': 2**64 - 1, 'u128': 2**128 - 1}
SIGNED = {'i8': 2**7, 'i16': 2**15, 'i32': 2**31, 'i64': 2**63, 'isize': 2**63, 'i128': 2**127}
LENMAX = 2**62

# Operators producing a substring of their first argument.
SUBSTR = {'trim', 'trim_start', 'trim_end', 'trim_start_matches', 'trim_end_matches', 'trim_matches', 'substr'}


# ------------------------------------------------------------------ smart constructors
def Len(s):
    if s.k == 'str':
        return Int(blen(s.a))
    if s.k == 'bytes':
        return Int(len(s.a))
    if s.k == 'agg' and s.a[0] in ('array', 'tuple'):
        return Int(len(s.a[3]))
    if s.k == 'app':
        op = s.a[0]
        if op == 'cat':
            r = Int(0)
            for x in s.a[1:]:
                r = ladd(r, Len(x))
            return r
        if op == 'slice':
            return lsub(s.a[3], s.a[2])
        if op == 'push':
            return ladd(Len(s.a[1]), Int(1))
        if op == 'rmat':
            return ladd(Len(s.a[1]), Int(-1))
        if op == 'append':
            return ladd(Len(s.a[1]), Len(s.a[2]))
        if op in ('collect', 'elts') and len(s.a) > 2 and isinstance(s.a[-1], V) and is_app(s.a[-1], 'n'):
            return s.a[-1].a[1]
        if op == 'ch1':
            return Int(1)
        if op in ('set',):
            return Len(s.a[1])
        if op == 'feat':
            return Len(s.a[1])
    v = App('len', s)
    tyname.setdefault(v, 'usize')
    return v


def Slice(s, a, b):
    if a is b:
        return Str('')
    if is_const(a) and cval(a) == 0 and b is Len(s):
        return s
    if is_app(s, 'slice'):
        return Slice(s.a[1], ladd(s.a[2], a), ladd(s.a[2], b))
    if s.k == 'str' and is_const(a) and is_const(b):
        bs = s.a.encode('utf-8', 'surrogatepass')
        try:
            return Str(bs[cval(a):cval(b)].decode('utf-8'))
        except UnicodeDecodeError:
            pass
    if is_app(b, 'adv') and b.a[1] is s and b.a[2] is a:
        return Ch(s, a)
    return App('slice', s, a, b)


def Ch(s, i):
    return App('ch', s, i)


def ChStr(c):
    """the text of a character"""
    if c.k == 'char':
        return Str(chr(c.a))
    if is_app(c, 'at') and is_app(c.a[1], 'chars') and is_const(c.a[2]) and cval(c.a[2]) == 0:
        s = c.a[1].a[1]
        if is_app(s, 'slice'):
            return Ch(s.a[1], s.a[2])
        return Ch(s, Int(0))
    return App('chstr', c)


def LenX(s):
    """length of a value asked for by the program"""
    if is_app(s, 'ch'):
        return lsub(Adv(s.a[1], s.a[2]), s.a[2])
    return Len(s)


def Adv(s, i):
    v = App('adv', s, i)
    tyname.setdefault(v, 'usize')
    return v


def Cat(*ps):
    out = []
    for p in ps:
        if is_app(p, 'cat'):
            xs = p.a[1:]
        else:
            xs = (p,)
        for x in xs:
            if x.k == 'str':
                if x.a == '':
                    continue
                if out and out[-1].k == 'str':
                    out[-1] = Str(out[-1].a + x.a)
                    continue
            out.append(x)
    if not out:
        return Str('')
    if len(out) == 1:
        return out[0]
    return App('cat', *out)


def Pl(v, key, k, i):
    """payload field i of variant k of v"""
    if v.k == 'agg':
        if v.a[0] == 'adt' and v.a[2] != k:
            return App('pl', v, key, k, i)
        fs = v.a[3]
        if i < len(fs):
            return fs[i]
    if v.k == 'menum':
        for kk, fs in v.a[2]:
            if kk == k and i < len(fs):
                return fs[i]
    if v.k == 'app' and k == 1 and i == 0:
        op = v.a[0]
        a = v.a[1:]
        if op == 'get':
            return Slice(a[0], a[1], a[2])
        if op == 'strip_prefix' and a[1].k in ('str', 'char'):
            return Slice(a[0], Len(pat_str(a[1])), Len(a[0]))
        if op == 'strip_suffix' and a[1].k in ('str', 'char'):
            return Slice(a[0], Int(0), lsub(Len(a[0]), Len(pat_str(a[1]))))
        if op == 'strip_prefix':
            return Slice(a[0], Len(a[1]), Len(a[0])) if a[1].k != 'agg' and not is_fnlike(a[1]) else App('pl', v, key, k, i)
        if op in ('split_once', 'rsplit_once') and a[1].k in ('str', 'char'):
            F = Pl(App('find' if op == 'split_once' else 'rfind', a[0], a[1]), OPT, 1, 0)
            return Tup(Slice(a[0], Int(0), F), Slice(a[0], ladd(F, Len(pat_str(a[1]))), Len(a[0])))
        if op == 'first':
            return At(a[0], Int(0))
        if op == 'last':
            return At(a[0], ladd(Len(a[0]), Int(-1)))
        if op == 'getat':
            return At(a[0], a[1])
    r = App('pl', v, key, k, i)
    if v.k == 'app' and v.a[0] in ('find', 'rfind'):
        tyname.setdefault(r, 'usize')
    return r


def is_fnlike(v):
    return v.k == 'fn' or (v.k == 'agg' and v.a[0] == 'closure')


def pat_str(p):
    return Str(chr(p.a)) if p.k == 'char' else p


def At(seq, i):
    if seq.k == 'agg' and seq.a[0] in ('array', 'tuple') and is_const(i) and 0 <= cval(i) < len(seq.a[3]):
        return seq.a[3][cval(i)]
    if is_app(seq, 'push'):
        n = Len(seq.a[1])
        if n is i:
            return seq.a[2]
        if is_const(i) and is_const(n) and cval(i) < cval(n):
            return At(seq.a[1], i)
    if is_app(seq, 'rmat') and is_const(seq.a[2]) and is_const(i):
        return At(seq.a[1], Int(cval(i) + (1 if cval(i) >= cval(seq.a[2]) else 0)))
    if is_app(seq, 'split') and is_const(i) and cval(i) == 0 and seq.a[2].k in ('str', 'char'):
        s, p = seq.a[1], seq.a[2]
        return Slice(s, Int(0), Uor(App('find', s, pat_str(p)), Len(s)))
    return App('at', seq, i)


def Uor(o, d):
    if o.k == 'agg' and o.a[1] == OPT:
        return o.a[3][0] if o.a[2] == 1 else d
    v = App('uor', o, d)
    if d.k == 'lin' or d in tyname:
        tyname.setdefault(v, 'usize')
    return v


def Not(b):
    if b.k == 'bool':
        return Bool(not b.a)
    if is_app(b, 'not'):
        return b.a[1]
    return App('not', b)


def Ge0(e):
    if is_const(e):
        return Bool(cval(e) >= 0)
    c, t = parts(e)
    if len(t) == 1 and c == -1:
        (x, k), = t.items()
        if k == 1 and is_app(x, 'len') and is_app(x.a[1]) and x.a[1].a[0] in ('chars', 'bytes', 'char_indices', 'lines'):
            return Ge0(ladd(Len(x.a[1].a[1]), Int(-1)))
    return App('ge0', e)


def Eqi(e):
    if is_const(e):
        return Bool(cval(e) == 0)
    c, t = parts(e)
    k = min(t.items(), key=lambda x: x[0].id)[1]
    if k < 0:
        e = lscale(e, -1)
    return App('eqi', e)


def Eq(a, b):
    if a is b:
        return Bool(True)
    if is_int(a) or is_int(b):
        return Eqi(lsub(a, b))
    ca, cb = isconst(a), isconst(b)
    if ca and cb:
        return Bool(False) if a.k == b.k else App('eq', a, b)
    if a.k == 'agg' and b.k == 'agg' and a.a[:3] == b.a[:3]:
        r = Bool(True)
        if len(a.a[3]) == len(b.a[3]):
            for x, y in zip(a.a[3], b.a[3]):
                r = And(r, Eq(x, y))
            return r
    if a.k == 'agg' and b.k == 'agg' and a.a[0] == 'adt' and b.a[0] == 'adt' and a.a[1] == b.a[1] and a.a[2] != b.a[2]:
        return Bool(False)
    if ca or (not cb and a.id > b.id):
        a, b = b, a
    if b.k == 'str' and b.a == '':
        return Not(Ge0(ladd(Len(a), Int(-1))))
    if b.k == 'bool':
        return a if b.a else Not(a)
    return App('eq', a, b)


def And(a, b):
    if a.k == 'bool':
        return b if a.a else a
    if b.k == 'bool':
        return a if b.a else b
    if a is b:
        return a
    return App('and', a, b)


def Or(a, b):
    if a.k == 'bool':
        return a if a.a else b
    if b.k == 'bool':
        return b if b.a else a
    if a is b:
        return a
    return App('or', a, b)


def is_int(v):
    return v.k == 'lin' or v in tyname


def isconst(v):
    return v.k in ('str', 'char', 'bool', 'bytes') or is_const(v)


def pyconst(v):
    return v.a if v.k in ('str', 'char', 'bool', 'bytes') else cval(v)


def Is(v, k):
    """predicate: enum value v has variant k"""
    if v.k == 'agg' and v.a[0] == 'adt':
        return Bool(v.a[2] == k)
    if v.k == 'menum':
        ks = [x for x, _ in v.a[2]]
        if k not in ks:
            return Bool(False)
        if len(ks) == 1:
            return Bool(True)
    if v.k == 'app':
        op = v.a[0]
        c = None
        if op in ('find', 'rfind', 'split_once', 'rsplit_once'):
            c = StrPred('contains', v.a[1], v.a[2])
        elif op == 'strip_prefix':
            c = StrPred('starts_with', v.a[1], v.a[2])
        elif op == 'strip_suffix':
            c = StrPred('ends_with', v.a[1], v.a[2])
        elif op in ('first', 'last'):
            c = Ge0(ladd(Len(v.a[1]), Int(-1)))
        elif op == 'getat':
            c = And(Ge0(v.a[2]), Ge0(lsub(Len(v.a[1]), ladd(v.a[2], Int(1)))))
        elif op == 'then_some':
            c = v.a[1]
        if c is not None:
            return c if k == 1 else Not(c)
        if op == 'remap':       # (value, mapping tuple new->old)
            return Is(v.a[1], dict(v.a[2]).get(k, -1))
    return App('is', v, k)


def StrPred(op, s, p):
    if p.k == 'char':
        p = pat_str(p)
    if p.k == 'str':
        if p.a == '':
            return Bool(True)
        if s.k == 'str':
            return Bool(evalpred(op, s.a, p.a))
        if is_app(s, 'cat'):
            x = s.a[1] if op == 'starts_with' else s.a[-1]
            if op == 'starts_with' and x.k == 'str':
                if len(x.a) >= len(p.a):
                    return Bool(x.a.startswith(p.a))
                if not p.a.startswith(x.a):
                    return Bool(False)
            if op == 'ends_with' and x.k == 'str':
                if len(x.a) >= len(p.a):
                    return Bool(x.a.endswith(p.a))
                if not p.a.endswith(x.a):
                    return Bool(False)
            if op == 'contains' and any(x.k == 'str' and p.a in x.a for x in s.a[1:]):
                return Bool(True)
        if op == 'contains' and is_app(s, 'replace') and len(p.a) == 1 and s.a[2].k in ('char', 'str') \
                and pat_str(s.a[2]).a == p.a and s.a[3].k == 'str' and p.a not in s.a[3].a:
            return Bool(False)
    return App(op, s, p)


def evalpred(op, s, p):
    return s.startswith(p) if op == 'starts_with' else s.endswith(p) if op == 'ends_with' else p in s


def Replace(s, pat, rep):
    if pat.k in ('str', 'char') and s.k == 'str' and rep.k == 'str':
        return Str(s.a.replace(pat_str(pat).a, rep.a))
    return App('replace', s, pat, rep)


_BUILD = {'len': Len, 'slice': Slice, 'ch': Ch, 'adv': Adv, 'cat': Cat, 'pl': Pl, 'at': At, 'uor': Uor, 'not': Not,
          'ge0': Ge0, 'eqi': Eqi, 'eq': Eq, 'and': And, 'or': Or, 'is': Is, 'replace': Replace,
          'starts_with': lambda s, p: StrPred('starts_with', s, p), 'ends_with': lambda s, p: StrPred('ends_with', s, p),
          'contains': lambda s, p: StrPred('contains', s, p)}


def rebuild(op, args, orig):
    f = _BUILD.get(op)
    r = f(*args) if f else App(op, *args)
    if orig in tyname and r not in tyname and r.k != 'lin':
        tyname[r] = tyname[orig]
    if orig in tyof and r not in tyof:
        tyof[r] = tyof[orig]
    return r


val.rebuild_hook[0] = rebuild


# ------------------------------------------------------------------ state
class Dead(Exception):
    pass


class St:
    __slots__ = ('mem', 'var', 'vs', 'pb', 'ge', 'gi', 'ev', 'bal', 'has', '_budget')

    def __init__(self):
        self.mem, self.var, self.vs, self.pb, self.ge, self.gi = {}, {}, {}, {}, {}, {}
        self.ev = ()
        self.bal = {}
        self.has = {}

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.var = dict(self.var)
        s.vs = dict(self.vs)
        s.pb = dict(self.pb)
        s.ge = dict(self.ge)
        s.gi = dict(self.gi)
        s.ev = self.ev
        s.bal = dict(self.bal)
        s.has = dict(self.has)
        return s

    # ---- linear facts
    def add_ge(self, e):
        c, t = parts(e)
        if not t:
            if c < 0:
                raise Dead()
            return
        if e in self.ge:
            return
        # integer tightening for single-coefficient facts
        self.ge[e] = True
        for x in t:
            self.gi[x] = self.gi.get(x, ()) + (e,)

    def lb(self, t):
        """cheap constant lower bound of a term (or None)"""
        n = tyname.get(t)
        if n in UNSIGNED:
            if is_app(t, 'len') and is_app(t.a[1]) and t.a[1].a[0] == 'split':
                return 1
            return 0
        if t.k == 'app' and t.a[0] in ('len', 'count', 'adv'):
            return 0
        if n in SIGNED:
            return -SIGNED[n]
        return None

    def ub(self, t):
        if is_app(t, 'len') or is_app(t, 'adv'):
            return LENMAX
        if is_app(t, 'count'):
            return LENMAX
        n = tyname.get(t)
        if n in UNSIGNED:
            return UNSIGNED[n]
        if n in SIGNED:
            return SIGNED[n] - 1
        return None

    def lemmas(self, t):
        r = []
        if t.k != 'app':
            return r
        op = t.a[0]
        if op == 'adv':
            s, i = t.a[1], t.a[2]
            r.append(ladd(lsub(t, i), Int(-1)))
            r.append(lsub(Len(s), t))
            one = False
            f = self.vs.get(Ch(s, i))
            if f and f[0] and all(blen(x) == 1 for x in f[1]):
                one = True
            r.append(ladd(lsub(i, t), Int(1 if one else 4)))
        elif op == 'pl' and is_app(t.a[1]) and t.a[1].a[0] in ('find', 'rfind'):
            s, p = t.a[1].a[1], t.a[1].a[2]
            w = Len(pat_str(p)) if p.k in ('str', 'char') else Int(1)
            r.append(lsub(lsub(Len(s), w), t))
        elif op == 'pl' and is_app(t.a[1], 'position'):
            r.append(ladd(lsub(Len(t.a[1].a[1]), t), Int(-1)))
        elif op == 'uor':
            o, d = t.a[1], t.a[2]
            if is_app(o) and o.a[0] in ('find', 'rfind'):
                if is_const(d) and cval(d) == 0 or d is Len(o.a[1]):
                    r.append(lsub(Len(o.a[1]), t))
        elif op == 'len':
            s = t.a[1]
            if s.k == 'app':
                if s.a[0] in SUBSTR:
                    r.append(lsub(Len(s.a[1]), t))
                elif s.a[0] in ('chars', 'bytes', 'char_indices', 'lines', 'matches'):
                    r.append(lsub(Len(s.a[1]), t))
                elif s.a[0] == 'uor' and s.a[2].k == 'str' and s.a[2].a == '' and is_app(s.a[1]) and \
                        s.a[1].a[0] in ('get', 'strip_prefix', 'strip_suffix'):
                    r.append(lsub(Len(s.a[1].a[1]), t))
                    g = s.a[1]
                    if g.a[0] == 'get' and lsub(g.a[3], g.a[2]) in self.ge:
                        r.append(lsub(lsub(g.a[3], g.a[2]), t))
                elif s.a[0] in ('ch', 'chstr'):
                    r.append(ladd(t, Int(-1)))
                    r.append(lsub(Int(4), t))
                    if s.a[0] == 'ch':
                        r.append(lsub(lsub(Len(s.a[1]), s.a[2]), t))
        elif op == 'min':
            r.append(lsub(t.a[1], t))
            r.append(lsub(t.a[2], t))
        elif op == 'max':
            r.append(lsub(t, t.a[1]))
            r.append(lsub(t, t.a[2]))
        elif op == 'satsub':
            r.append(lsub(t.a[1], t))
            r.append(ladd(lsub(t, t.a[1]), t.a[2]))
        elif op == 'rem' and is_const(t.a[2]) and cval(t.a[2]) > 0:
            r.append(Int(cval(t.a[2]) - 1) if False else lsub(Int(cval(t.a[2]) - 1), t))
        elif op == 'div' and is_const(t.a[2]) and cval(t.a[2]) > 0:
            r.append(lsub(t.a[1], t))
        elif op == 'trunc':
            r.append(lsub(t.a[1], t))
        return r

    def prove(self, e, depth=7):
        if is_const(e):
            return cval(e) >= 0
        if e in self.ge:
            return True
        c, t = parts(e)
        if len(t) == 1:
            (x, k), = t.items()
            if self._path(None, x, c // k) if k > 0 else self._path(x, None, c // -k):
                return True
            if not any(len(parts(f)[1]) > 2 for f in self.gi.get(x, ())):
                return False
        if len(t) == 2:
            (x, k), (y, l) = t.items()
            if k == 1 and l == -1:
                if self._path(y, x, c):
                    return True
            elif k == -1 and l == 1:
                if self._path(x, y, c):
                    return True
        self._budget = 80
        return self._prove(e, depth, set())

    def _path(self, n, p, c):
        """n - p <= c by a shortest path over the difference constraints (None is zero)"""
        if n is None:
            return self._back(p, c)
        dist = {n: 0}
        work = [n]
        budget = 400
        while work and budget > 0:
            x = work.pop(0)
            dx = dist[x]
            edges = []
            if x is None:
                if p is not None:
                    b = self.lb(p)
                    if b is not None:
                        edges.append((p, -b))
                    fs = self.gi.get(p, ())
                else:
                    fs = ()
                for y in list(dist):
                    if y is not None:
                        b = self.lb(y)
                        if b is not None:
                            edges.append((y, -b))
            else:
                b = self.ub(x)
                if b is not None:
                    edges.append((None, b))
                fs = self.gi.get(x, ())
            fs = list(fs)
            if x is not None:
                fs += self.lemmas(x)
            if p is not None and x is not p:
                fs += self.lemmas(p)
            for f in fs:
                cf, tf = parts(f)
                if len(tf) > 2:
                    continue
                neg = pos = None
                bad = False
                for t, k in tf.items():
                    if k == 1 and pos is None:
                        pos = t
                    elif k == -1 and neg is None:
                        neg = t
                    else:
                        bad = True
                if bad or neg is not x:
                    continue
                edges.append((pos, cf))
            for y, w in edges:
                d = dx + w
                if y not in dist or d < dist[y]:
                    dist[y] = d
                    if y is p and d <= c:
                        return True
                    if y not in work:
                        work.append(y)
                    budget -= 1
        return p in dist and dist[p] <= c or p is not None and self._back(p, c, n)

    def _back(self, p, c, n=None):
        """n - p <= c: the same search, from p back to n"""
        dist = {p: 0}
        work = [p]
        budget = 400
        while work and budget > 0:
            x = work.pop(0)
            if x is None:
                continue
            dx = dist[x]
            edges = []
            b = self.lb(x)
            if b is not None and n is None:
                edges.append((None, -b))
            for f in list(self.gi.get(x, ())) + self.lemmas(x):
                cf, tf = parts(f)
                if len(tf) > 2 or tf.get(x) != 1:
                    continue
                neg = None
                bad = False
                for t, k in tf.items():
                    if k == -1:
                        neg = t
                    elif t is not x:
                        bad = True
                if not bad:
                    edges.append((neg, cf))
            for y, w in edges:
                d = dx + w
                if y not in dist or d < dist[y]:
                    dist[y] = d
                    if y is n and d <= c:
                        return True
                    if y not in work:
                        work.append(y)
                    budget -= 1
        return False

    def _prove(self, e, depth, seen):
        c, t = parts(e)
        lo = c
        for x, k in t.items():
            b = self.lb(x) if k > 0 else self.ub(x)
            if b is None:
                lo = None
                break
            lo += k * b
        if lo is not None and lo >= 0:
            return True
        if not t or depth == 0 or e in seen:
            return False
        self._budget -= 1
        if self._budget < 0:
            return False
        seen.add(e)
        # pick term to eliminate
        order = sorted(t.items(), key=lambda q: (q[1] > 0, q[0].id if q[1] > 0 else -q[0].id))
        for x, k in order:
            pos = k > 0
            fs = list(self.gi.get(x, ()))
            fs += self.lemmas(x)
            for y in t:
                if y is not x:
                    fs += self.lemmas(y)
            for f in fs:
                cf, tf = parts(f)
                kf = tf.get(x, 0)
                if kf == 0 or (kf > 0) != pos:
                    continue
                if abs(k) % abs(kf):
                    continue
                lam = abs(k) // abs(kf)
                e2 = ladd(e, f, -lam)
                if len(parts(e2)[1]) > 4:
                    continue
                if self._prove(e2, depth - 1, seen):
                    return True
        return False

    def eqzero(self, e):
        return self.prove(e) and self.prove(lscale(e, -1))

    # ---- value normalisation under facts
    def norm(self, v):
        k = v.k
        if k == 'menum':
            f = self.var.get(v)
            if f is not None and f[0]:
                kk = f[1]
                for i, fs in v.a[2]:
                    if i == kk:
                        return Agg('adt', v.a[1], kk, fs)
            if f is not None and not f[0]:
                rest = [(i, fs) for i, fs in v.a[2] if i not in f[1]]
                if len(rest) == 1:
                    return Agg('adt', v.a[1], rest[0][0], rest[0][1])
            return v
        f = self.vs.get(v)
        if f is not None and f[0] and len(f[1]) == 1:
            c = next(iter(f[1]))
            if isinstance(c, str):
                return Str(c)
            if isinstance(c, bool):
                return Bool(c)
            return Char(c) if isinstance(c, int) and not is_int(v) else Int(c)
        if k == 'app':
            op = v.a[0]
            if op == 'uor':
                t = self.truth(Is(v.a[1], 1))
                if t is True:
                    return self.norm(Pl(v.a[1], OPT, 1, 0))
                if t is False:
                    return self.norm(v.a[2])
            elif op == 'pl':
                b = self.norm(v.a[1])
                if b is not v.a[1]:
                    return self.norm(Pl(b, v.a[2], v.a[3], v.a[4]))
            elif op == 'pl?':
                pass
        return v

    def dnorm(self, v, d=0):
        """deep normalisation"""
        if d > 12:
            return v
        v = self.norm(v)
        if v.k == 'app':
            args = [self.dnorm(x, d + 1) if isinstance(x, V) else x for x in v.a[1:]]
            r = rebuild(v.a[0], args, v)
            return self.norm(r) if r is not v else v
        if v.k == 'lin' and v.a[1]:
            r = Int(v.a[0])
            for t, c in v.a[1]:
                r = ladd(r, self.dnorm(t, d + 1), c)
            return r
        if v.k == 'agg' and v.a[3]:
            return mk('agg', v.a[0], v.a[1], v.a[2], tuple(self.dnorm(x, d + 1) for x in v.a[3]))
        return v

    # ---- predicates
    def variant(self, v):
        """known variant index or None"""
        v = self.norm(v)
        if v.k == 'agg' and v.a[0] == 'adt':
            return v.a[2]
        f = self.var.get(v)
        if f is not None and f[0]:
            return f[1]
        if is_app(v, 'get') and self.valid_range(v.a[1], v.a[2], v.a[3]):
            return 1
        return None

    def truth(self, b):
        k = b.k
        if k == 'bool':
            return b.a
        if k != 'app':
            f = self.vs.get(b)
            if f and f[0] and len(f[1]) == 1:
                return bool(next(iter(f[1])))
            return self.pb.get(b)
        op = b.a[0]
        if op == 'not':
            t = self.truth(b.a[1])
            return None if t is None else not t
        if op == 'and':
            x, y = self.truth(b.a[1]), self.truth(b.a[2])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return self.pb.get(b)
        if op == 'or':
            x, y = self.truth(b.a[1]), self.truth(b.a[2])
            if x is True or y is True:
                return True
            if x is False and y is False:
                return False
            return self.pb.get(b)
        if op == 'ge0':
            p = self.pb.get(b)
            if p is not None:
                return p
            e = b.a[1]
            e = self.lnorm(e)
            if self.prove(e):
                return True
            if self.prove(ladd(lscale(e, -1), Int(-1))):
                return False
            return None
        if op == 'eqi':
            p = self.pb.get(b)
            if p is not None:
                return p
            e = self.lnorm(b.a[1])
            if self.prove(ladd(e, Int(-1))) or self.prove(ladd(lscale(e, -1), Int(-1))):
                return False
            if self.eqzero(e):
                return True
            return None
        if op == 'eq':
            return self._truth_eq(b)
        if op == 'is':
            v = b.a[1]
            n = self.norm(v)
            if n is not v:
                r = Is(n, b.a[2])
                if r is not b:
                    return self.truth(r)
            f = self.var.get(v)
            if f is not None:
                if f[0]:
                    return f[1] == b.a[2]
                if b.a[2] in f[1]:
                    return False
            if is_app(n, 'get') and b.a[2] in (0, 1):
                a = n.a
                if self.valid_range(a[1], a[2], a[3]):
                    return b.a[2] == 1
                return None
            return None
        if op in ('starts_with', 'ends_with', 'contains'):
            return self._truth_str(op, b)
        if op == 'bnd':
            p = self.pb.get(b)
            if p is not None:
                return p
            return True if self.bnd(b.a[1], b.a[2]) else None
        return self.pb.get(b)

    def lnorm(self, e):
        c, t = parts(e)
        r = Int(c)
        ch = False
        for x, k in t.items():
            y = self.norm(x)
            if is_app(y, 'len') and y.a[1].k != 'sym':
                z = self.norm(y.a[1])
                if z is not y.a[1]:
                    y = Len(z)
            if y is not x:
                ch = True
            r = ladd(r, y, k)
        return r if ch else e

    def vset(self, v):
        """('in'|'out', set) facts of v, looking through norm"""
        return self.vs.get(v)

    def _truth_eq(self, b):
        a, c = b.a[1], b.a[2]
        a2, c2 = self.norm(a), self.norm(c)
        if a2 is not a or c2 is not c:
            r = Eq(a2, c2)
            if r is not b:
                return self.truth(r)
        p = self.pb.get(b)
        if p is not None:
            return p
        if isconst(c):
            f = self.vs.get(a)
            x = pyconst(c)
            if f is not None:
                if f[0]:
                    if x not in f[1]:
                        return False
                    if len(f[1]) == 1:
                        return True
                elif x in f[1]:
                    return False
            if c.k == 'str':
                # length / affix contradictions
                n = blen(c.a)
                L = self.lnorm(Len(a))
                if not is_app(a, 'ch') or n > 4:
                    if self.prove(ladd(L, Int(-n - 1))) or self.prove(ladd(lscale(L, -1), Int(n - 1))):
                        return False
                for q, t in self.affix(a):
                    op, pat = q
                    if evalpred(op, c.a, pat) != t:
                        return False
                r = self.base_ch(a)
        else:
            va, vc = self.vs.get(a), self.vs.get(c)
            if va and vc and va[0] and vc[0] and not (va[1] & vc[1]):
                return False
        if a.k == 'agg' and c.k == 'agg' and a.a[0] == 'adt':
            pass
        va, vc = self.variant(a), self.variant(c)
        if va is not None and vc is not None and va != vc:
            return False
        return None

    def base_ch(self, a):
        return None

    def affix(self, s):
        """known (op,const)->bool affix facts for s"""
        r = []
        for op in ('starts_with', 'ends_with', 'contains'):
            for k, t in self.pb.items():
                if k.k == 'app' and k.a[0] == op and k.a[1] is s and k.a[2].k == 'str':
                    r.append(((op, k.a[2].a), t))
        return r

    def _truth_str(self, op, b):
        p = self.pb.get(b)
        if p is not None:
            return p
        s, pat = b.a[1], b.a[2]
        s2, pat2 = self.norm(s), self.norm(pat)
        if s2 is not s or pat2 is not pat:
            r = StrPred(op, s2, pat2)
            if r is not b:
                return self.truth(r)
        if op in ('starts_with', 'ends_with') and is_app(pat, 'slice'):
            # a text starts with its own prefix / ends with its own suffix
            b0, lo, hi = (s.a[1], s.a[2], s.a[3]) if is_app(s, 'slice') else (s, Int(0), Len(s))
            if pat.a[1] is b0:
                x, y = (lo, pat.a[2]) if op == 'starts_with' else (hi, pat.a[3])
                if self.eqzero(self.lnorm(lsub(x, y))) and self.prove(self.lnorm(lsub(hi, pat.a[3]))) and self.prove(self.lnorm(lsub(pat.a[2], lo))):
                    return True
        if pat.k != 'str':
            return None
        P = pat.a
        if op == 'starts_with' and is_app(s, 'slice'):
            # the text from the place where the pattern was found starts with it
            c, t = parts(lsub(s.a[2], Int(0)))
            for x, kx in t.items():
                x = self.norm(x)
                if kx == 1 and is_app(x, 'pl') and is_app(x.a[1]) and x.a[1].a[0] in ('find', 'rfind') and x.a[1].a[2].k in ('str', 'char'):
                    w, q = x.a[1].a[1], pat_str(x.a[1].a[2]).a
                    b0, lo = (w.a[1], w.a[2]) if is_app(w, 'slice') else (w, Int(0))
                    if q.startswith(P) and b0 is s.a[1] and self.eqzero(self.lnorm(lsub(s.a[2], ladd(lo, x)))) and self.truth(Is(x.a[1], 1)):
                        return True
        f = self.vs.get(s)
        if f and f[0]:
            rs = {evalpred(op, x, P) for x in f[1]}
            if len(rs) == 1:
                return rs.pop()
        # too short?
        L = self.lnorm(Len(s))
        if self.prove(lsub(Int(blen(P) - 1), L)):
            return False
        for (o2, q), t in self.affix(s):
            if t:
                if op == 'starts_with' and o2 == 'starts_with':
                    if q.startswith(P):
                        return True
                    if not P.startswith(q):
                        return False
                if op == 'ends_with' and o2 == 'ends_with':
                    if q.endswith(P):
                        return True
                    if not P.endswith(q):
                        return False
                if op == 'contains' and P in q:
                    return True
            else:
                if o2 == 'contains' and q in P:
                    return False
                if op == 'starts_with' and o2 == 'starts_with' and P.startswith(q):
                    return False
                if op == 'ends_with' and o2 == 'ends_with' and P.endswith(q):
                    return False
        if is_app(s, 'slice') and op == 'starts_with':
            # character at the slice start
            f = self.vs.get(Ch(s.a[1], s.a[2]))
            if f and f[0] and self.prove(ladd(Len(s), Int(-1))):
                if not any(P.startswith(x) or x.startswith(P) for x in f[1]):
                    return False
                if len(f[1]) >= 1 and all(x.startswith(P) for x in f[1]):
                    return True
            if f and not f[0] and P[0] in f[1]:
                return False
        return None

    # ---- char boundaries
    def valid_range(self, s, a, b):
        return self.prove(self.lnorm(lsub(b, a))) and self.bnd(s, b) and self.bnd(s, a) and self.prove(self.lnorm(lsub(Len(s), b)))

    def bnd(self, s, i, d=0):
        i = self.lnorm(i) if i.k == 'lin' else self.norm(i)
        if is_const(i) and cval(i) == 0:
            return True
        if self.pb.get(App('bnd', s, i)):
            return True
        L = Len(s)
        if i is L or i is self.lnorm(L):
            return True
        if s.k == 'str' and is_const(i):
            bs = s.a.encode('utf-8')
            return cval(i) <= len(bs) and (cval(i) == len(bs) or (bs[cval(i)] & 0xC0) != 0x80)
        if is_app(i, 'adv') and i.a[1] is s:
            return True
        if self.ascii(s):
            return self.prove(i) and self.prove(lsub(L, i))
        if i.k == 'app':
            if i.a[0] == 'pl' and is_app(i.a[1]) and i.a[1].a[0] in ('find', 'rfind') and i.a[1].a[1] is s:
                return True
            if i.a[0] == 'uor' and is_app(i.a[1]) and i.a[1].a[0] in ('find', 'rfind') and i.a[1].a[1] is s and \
                    self.bnd(s, i.a[2]):
                return True
            if i.a[0] in ('min', 'max') and self.bnd(s, i.a[1]) and self.bnd(s, i.a[2]):
                return True
        if d > 3:
            return False
        c, t = parts(i)
        # constant offset inside a known prefix / value set
        if not t and c > 0:
            for (op, q), tr in self.affix(s):
                if tr and op == 'starts_with' and blen(q) >= c and self.bnd(Str(q), i):
                    return True
            f = self.vs.get(s)
            if f and f[0] and all(self.bnd(Str(x), i) for x in f[1]):
                return True
            f = self.vs.get(Ch(s, Int(0)))
            if c == 1 and f and f[0] and all(blen(x) == 1 for x in f[1]) and self.prove(ladd(L, Int(-1))):
                return True
        # i = len(s) - k with known suffix
        rest = lsub(L, i)
        if is_const(rest) and cval(rest) > 0:
            k = cval(rest)
            for (op, q), tr in self.affix(s):
                if tr and op == 'ends_with' and blen(q) >= k and self.bnd(Str(q), Int(blen(q) - k)):
                    return True
        # i = j + len(p) for find
        for x, kx in t.items():
            if kx == 1 and is_app(x, 'pl') and is_app(x.a[1]) and x.a[1].a[0] in ('find', 'rfind') and x.a[1].a[1] is s:
                p = x.a[1].a[2]
                r = lsub(i, x)
                if p.k in ('str', 'char') and is_const(r) and self.bnd(pat_str(p), r):
                    return True
        # single byte characters: i = j + 1 with a known one-byte character at j
        if c >= 1:
            j = ladd(i, Int(-1))
            f = self.vs.get(Ch(s, j))
            if f and f[0] and all(blen(x) == 1 for x in f[1]) and self.bnd(s, j, d + 1):
                return True
        # i inside a slice of s: slice(s,a,b) known and bnd(slice, i-a)
        if is_app(s, 'slice'):
            if self.bnd(s.a[1], ladd(s.a[2], i), d + 1):
                return self.prove(i) and self.prove(lsub(L, i))
        for x, kx in t.items():
            if kx == 1 and x.k == 'app':
                y = x
                if y.a[0] in ('pl', 'uor') and is_app(y.a[1]) and y.a[1].a[0] in ('find', 'rfind'):
                    sl = y.a[1].a[1]
                    if is_app(sl, 'slice') and sl.a[1] is s:
                        r = lsub(i, sl.a[2])
                        if self.bnd(s, sl.a[2], d + 1) and self.bnd(sl, r, d + 2):
                            return True
        return False

    def ascii(self, s):
        if self.pb.get(App('is_ascii', s)):
            return True
        if s.k == 'app' and (s.a[0] == 'slice' or s.a[0] in SUBSTR):
            return self.ascii(s.a[1])
        return False

    # ---- assumptions
    def assume(self, b, t):
        """add fact b==t; raises Dead if contradictory"""
        cur = self.truth(b)
        if cur is not None:
            if cur != t:
                raise Dead()
            if b.k != 'app' or b.a[0] not in ('and', 'or'):
                return
        if b.k != 'app':
            if b.k == 'bool':
                return
            self.vs[b] = (True, frozenset([t]))
            return
        op = b.a[0]
        if op == 'not':
            return self.assume(b.a[1], not t)
        if op == 'and':
            if t:
                self.assume(b.a[1], True)
                self.assume(b.a[2], True)
                return
            x, y = self.truth(b.a[1]), self.truth(b.a[2])
            if x:
                return self.assume(b.a[2], False)
            if y:
                return self.assume(b.a[1], False)
            self.pb[b] = t
            return
        if op == 'or':
            if not t:
                self.assume(b.a[1], False)
                self.assume(b.a[2], False)
                return
            x, y = self.truth(b.a[1]), self.truth(b.a[2])
            if x is False:
                return self.assume(b.a[2], True)
            if y is False:
                return self.assume(b.a[1], True)
            self.pb[b] = t
            return
        if op == 'ge0':
            e = b.a[1]
            if t:
                self.add_ge(e)
            else:
                self.add_ge(ladd(lscale(e, -1), Int(-1)))
            return
        if op == 'eqi':
            e = b.a[1]
            if t:
                self.add_ge(e)
                self.add_ge(lscale(e, -1))
            else:
                self.pb[b] = False
                if self.prove(e):
                    self.add_ge(ladd(e, Int(-1)))
                elif self.prove(lscale(e, -1)):
                    self.add_ge(ladd(lscale(e, -1), Int(-1)))
            return
        if op == 'eq':
            return self._assume_eq(b, t)
        if op == 'is':
            return self._assume_is(b.a[1], b.a[2], t)
        self.pb[b] = t
        if op in ('starts_with', 'ends_with', 'contains') and t:
            q = b.a[2]
            n = Int(1) if is_fnlike(q) or q.k in ('agg', 'ref') or is_app(q, 'cset') else Len(q)
            self.add_ge(lsub(Len(b.a[1]), n))
            if b.a[2].k == 'str' and len(b.a[2].a) <= 16:
                k = 0
                if op == 'starts_with':
                    for ch in b.a[2].a:
                        if is_app(b.a[1], 'slice') and b.a[1].a[1].k != 'str':
                            z, o = b.a[1].a[1], b.a[1].a[2]
                            x = Ch(z, ladd(o, Int(k)))
                            if x.k == 'app' and x not in self.vs:
                                self.vs[x] = (True, frozenset([ch]))
                            self.pb[App('bnd', z, ladd(o, Int(k + blen(ch))))] = True
                        k += blen(ch)
                        self.pb[App('bnd', b.a[1], Int(k))] = True
                elif op == 'ends_with':
                    for ch in reversed(b.a[2].a):
                        k += blen(ch)
                        self.pb[App('bnd', b.a[1], ladd(Len(b.a[1]), Int(-k)))] = True
        if op in ('starts_with', 'ends_with', 'contains') and b.a[2].k == 'str':
            f = self.vs.get(b.a[1])
            if f and f[0]:
                self._setvs(b.a[1], frozenset(x for x in f[1] if evalpred(op, x, b.a[2].a) == t))
        if op == 'bnd' and t:
            self.add_ge(lsub(Len(b.a[1]), b.a[2]))

    def _setvs(self, v, s):
        if not s:
            raise Dead()
        self.vs[v] = (True, frozenset(s))
        if any(isinstance(x, str) for x in s):
            ls = {blen(x) for x in s}
            L = Len(v)
            self.add_ge(ladd(L, Int(-min(ls))))
            self.add_ge(lsub(Int(max(ls)), L))

    def _assume_eq(self, b, t):
        a, c = self.norm(b.a[1]), self.norm(b.a[2])
        r = Eq(a, c)
        if r is not b:
            if r.k == 'app' and r.a[0] == 'eq':
                b = r
                a, c = b.a[1], b.a[2]
            else:
                return self.assume(r, t)
        if isconst(c):
            x = pyconst(c)
            f = self.vs.get(a)
            if t and is_app(a, 'uor') and isconst(a.a[2]) and a.a[2] is not c:
                self.assume(Is(a.a[1], 1), True)
            if t:
                if f and f[0] and x not in f[1] or f and not f[0] and x in f[1]:
                    raise Dead()
                self.vs[a] = (True, frozenset([x]))
                if c.k == 'str':
                    self._setvs(a, frozenset([x]))
                    if is_app(a, 'slice') and x:
                        # the characters of the base string
                        off = a.a[2]
                        for y in x:
                            ch = Ch(a.a[1], off)
                            if ch not in self.vs:
                                self.vs[ch] = (True, frozenset([y]))
                            self.pb[App('bnd', a.a[1], off)] = True
                            off = ladd(off, Int(blen(y)))
                self.pb[b] = True
            else:
                if f and f[0]:
                    s = f[1] - {x}
                    if not s:
                        raise Dead()
                    if isinstance(x, str):
                        self._setvs(a, s)
                    else:
                        self.vs[a] = (True, s)
                else:
                    s = (f[1] if f else frozenset()) | {x}
                    self.vs[a] = (False, s)
            return
        self.pb[b] = t
        if t:
            va, vc = self.vs.get(a), self.vs.get(c)
            if va and va[0] and not vc:
                self.vs[c] = va
            elif vc and vc[0] and not va:
                self.vs[a] = vc
            ka, kc = self.variant(a), self.variant(c)
            if ka is not None and kc is None:
                self._assume_is(c, ka, True)
                kc = ka
            elif kc is not None and ka is None:
                self._assume_is(a, kc, True)
                ka = kc
            an, cn = self.norm(a), self.norm(c)
            for x, y in ((an, cn), (cn, an)):
                if x.k == 'agg' and x.a[0] == 'adt' and y.k != 'agg':
                    for i, fx in enumerate(x.a[3]):
                        self.assume(Eq(Pl(y, x.a[1], x.a[2], i), fx), True)

    def _assume_is(self, v, k, t):
        n = self.norm(v)
        p = Is(n, k)
        if p.k == 'bool':
            if p.a != t:
                raise Dead()
            return
        if not (is_app(p, 'is') and p.a[1] is n):
            return self.assume(p, t)
        v = n
        f = self.var.get(v)
        if t:
            if f is not None:
                if f[0] and f[1] != k or not f[0] and k in f[1]:
                    raise Dead()
            self.var[v] = (True, k)
            if v.k == 'menum' and len(v.a) > 3:
                # facts that hold whenever the value has this variant
                for i, gs in v.a[3]:
                    if i == k:
                        for kind, x, d in gs:
                            if kind == 'pb' and x.k == 'app':
                                self.pb.setdefault(x, d)
                            elif kind == 'vs' and not isconst(x):
                                self.vs.setdefault(x, d)
                            elif kind == 'var' and x.k == 'app':
                                self.var.setdefault(x, d)
            if is_app(v, 'get') and k == 1:
                _, s, a, c = v.a
                self.add_ge(lsub(c, a))
                self.add_ge(lsub(Len(s), c))
                self.pb[App('bnd', s, a)] = True
                self.pb[App('bnd', s, c)] = True
        else:
            nv = nvariants(v)
            s = frozenset([k]) | (f[1] if f is not None and not f[0] else frozenset())
            if f is not None and f[0]:
                if f[1] == k:
                    raise Dead()
                return
            if v.k == 'menum':
                rest = [i for i, _ in v.a[2] if i not in s]
                if not rest:
                    raise Dead()
                if len(rest) == 1:
                    return self._assume_is(v, rest[0], True)
            elif nv is not None and nv - len(s) == 1:
                rest = [i for i in range(nv) if i not in s]
                return self._assume_is(v, rest[0], True)
            elif nv is not None and nv <= len(s):
                raise Dead()
            self.var[v] = (False, s)


ADTS = {}      # key -> adt record (set by engine)


def nvariants(v):
    t = tyof.get(v)
    if t is not None:
        t = t.peel()
        if t is not None and t.k == 'adt' and t.key in ADTS:
            return len(ADTS[t.key]['variants'])
    if v.k == 'app' and v.a[0] in ('get', 'find', 'rfind', 'strip_prefix', 'strip_suffix', 'first', 'last', 'split_once', 'rsplit_once', 'getat'):
        return 2
    return None
