"""Hash-consed abstract values.

Kinds (V.k / V.a):
  str s | bytes b | bool b | char cp | float | unit
  lin (c, ((V,coef),...))     integer linear form (constants included)
  agg (tag, key, variant, fields)   tag in adt/tuple/array/closure/it
  menum (sym, key, ((variant, fields),...))  enum known up to variant
  app (op, args...)           pure uninterpreted application
  sym name                    opaque value
  ref (root, path)            mutable reference to a known place
  fn  (key, tyargs-string)
References to immutable data are transparent: `&T` is represented by the value itself.
"""


class V:
    __slots__ = ('k', 'a', 'id', '_syms', '__weakref__')

    def __init__(self, k, a, i):
        self.k, self.a, self.id, self._syms = k, a, i, None

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_n = [0]
tyof = {}      # V -> Ty (first type seen), for symbols and payload projections


def mk(k, *a):
    key = (k,) + a
    v = _tab.get(key)
    if v is None:
        _n[0] += 1
        v = _tab[key] = V(k, a if len(a) != 1 else a[0], _n[0])
    return v


def reset():
    _tab.clear()
    tyof.clear()
    tyname.clear()
    _subst_cache.clear()


UNIT = None
tyname = {}    # V -> primitive int type name


def Str(s): return mk('str', s)
def Char(c): return mk('char', c)
def Bool(b): return mk('bool', bool(b))
def Sym(*name): return mk('sym', name)
def App(op, *args): return mk('app', op, *args)
def Agg(tag, key, variant, fields): return mk('agg', tag, key, variant, tuple(fields))
def Tup(*fs): return Agg('tuple', None, 0, fs)
def Ref(root, path=()): return mk('ref', root, tuple(path))


OPT = 'core::option::Option'
RES = 'core::result::Result'


def Some(v): return Agg('adt', OPT, 1, (v,))
def None_(): return Agg('adt', OPT, 0, ())
def Ok(v): return Agg('adt', RES, 0, (v,))
def Err(v): return Agg('adt', RES, 1, (v,))


def is_app(v, op=None):
    return v.k == 'app' and (op is None or v.a[0] == op)


# ---- linear forms
def lin(c, terms):
    terms = {v: k for v, k in terms.items() if k}
    if c == 0 and len(terms) == 1:
        (v, k), = terms.items()
        if k == 1:
            return v
    return mk('lin', c, tuple(sorted(terms.items(), key=lambda t: t[0].id)))


def Int(n): return mk('lin', n, ())


def parts(v):
    if v.k == 'lin':
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def is_const(v): return v.k == 'lin' and not v.a[1]
def cval(v): return v.a[0]


def ladd(a, b, kb=1):
    ca, ta = parts(a)
    cb, tb = parts(b)
    ta = dict(ta)
    for t, k in tb.items():
        ta[t] = ta.get(t, 0) + kb * k
    return lin(ca + kb * cb, ta)


def lsub(a, b): return ladd(a, b, -1)


def lscale(a, k):
    c, t = parts(a)
    return lin(c * k, {v: x * k for v, x in t.items()})


def const_str(v):
    return v.a if v.k == 'str' else None


def blen(s): return len(s.encode('utf-8', 'surrogatepass'))


# ---- traversal
def children(v):
    k = v.k
    if k == 'lin':
        return [t for t, _ in v.a[1]]
    if k == 'agg':
        return list(v.a[3])
    if k == 'menum':
        r = []
        for _, fs in v.a[2]:
            r.extend(fs)
        if len(v.a) > 3:
            for _, gs in v.a[3]:
                r.extend(g[1] for g in gs)
        return r
    if k == 'app':
        return [x for x in v.a[1:] if isinstance(x, V)]
    return []


def subterms(v):
    """frozenset of all V nodes in v (including v)."""
    if v._syms is None:
        st = [v]
        while st:
            x = st[-1]
            if x._syms is not None:
                st.pop()
                continue
            ch = [c for c in children(x) if c._syms is None]
            if ch:
                st.extend(ch)
            else:
                s = {x}
                for c in children(x):
                    s |= c._syms
                x._syms = frozenset(s)
                st.pop()
    return v._syms


_subst_cache = {}
rebuild_hook = [None]


def subst(v, m):
    """Replace subterms per dict m (V->V), rebuilding with simplification."""
    if not m:
        return v
    if v in m:
        return m[v]
    if subterms(v).isdisjoint(m):
        return v
    k = v.k
    if k == 'lin':
        r = Int(v.a[0])
        for t, c in v.a[1]:
            r = ladd(r, subst(t, m), c)
        return r
    if k == 'agg':
        return mk('agg', v.a[0], v.a[1], v.a[2], tuple(subst(x, m) for x in v.a[3]))
    if k == 'menum':
        alts = tuple((i, tuple(subst(x, m) for x in fs)) for i, fs in v.a[2])
        if len(v.a) > 3:
            return mk('menum', v.a[0], v.a[1], alts, tuple((i, tuple((g[0], subst(g[1], m), g[2]) for g in gs)) for i, gs in v.a[3]))
        return mk('menum', v.a[0], v.a[1], alts)
    if k == 'app':
        args = [subst(x, m) if isinstance(x, V) else x for x in v.a[1:]]
        if rebuild_hook[0]:
            return rebuild_hook[0](v.a[0], args, v)
        return App(v.a[0], *args)
    return v


def show(v, d=0):
    if d > 6:
        return '…'
    k = v.k
    if k == 'str':
        return repr(v.a)
    if k == 'lin':
        c, t = v.a
        s = []
        for x, kk in t:
            s.append(('%s' if kk == 1 else '-%s' if kk == -1 else str(kk) + '*%s') % show(x, d + 1))
        if c or not s:
            s.append(str(c))
        return '(' + ' + '.join(s) + ')' if len(s) > 1 else s[0]
    if k == 'bool':
        return str(v.a)
    if k == 'char':
        return "'%s'" % (chr(v.a) if isinstance(v.a, int) else v.a)
    if k == 'agg':
        tag, key, var, fs = v.a
        nm = (key or '').split('::')[-1] if tag != 'tuple' else ''
        if tag == 'array':
            return '[' + ', '.join(show(f, d + 1) for f in fs) + ']'
        return '%s%s(%s)' % (nm, '#%s' % var if tag == 'adt' else '', ', '.join(show(f, d + 1) for f in fs))
    if k == 'menum':
        return '{%s}' % ' | '.join('#%d(%s)' % (i, ', '.join(show(f, d + 1) for f in fs)) for i, fs in v.a[2])
    if k == 'app':
        return '%s(%s)' % (v.a[0], ', '.join(show(x, d + 1) if isinstance(x, V) else str(x) for x in v.a[1:]))
    if k == 'sym':
        return '$' + '.'.join(str(x) if not isinstance(x, tuple) else '<%d>' % (hash(x) % 9973) for x in v.a)
    if k == 'ref':
        return '&mut%s%s' % (v.a[0], v.a[1])
    if k == 'fn':
        return 'fn:' + str(v.a)
    return '%s:%s' % (k, v.a)
