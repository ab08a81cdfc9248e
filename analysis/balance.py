"""Balance of start and end tags as an affine abstract domain on string values.

st.bal maps a joined string value P to (lexical state at its end, {element: n}) where n is an integer term: the number of start tags
minus the number of end tags of the element in P.  n may mention `ind(b)` (1 if the boolean b holds, else 0), so that the relation between
a renderer's flags and counters and the elements it has open survives joins: at a join the coefficients of an affine combination of the
joined flags and counters are solved for."""
from fractions import Fraction
from val import *
from dom import *

VOID = {'br', 'hr', 'img', 'input', 'meta', 'link', 'area', 'base', 'col', 'embed', 'source', 'track', 'wbr'}
TEXT = ('text',)
NOB = (TEXT, {})
ONE = {'trim', 'trim_start', 'trim_end', 'trim_start_matches', 'trim_end_matches', 'trim_matches', 'strip_prefix', 'strip_suffix', 'slice',
       'split', 'rsplit', 'splitn', 'lines', 'chars', 'matches', 'ch', 'substr', 'find', 'rfind', 'starts_with', 'ends_with', 'contains', 'feat', 'at', 'get'}


DEBUG = False


class Top(Exception):
    pass


def ind(b):
    if b.k == 'bool':
        return Int(1 if b.a else 0)
    if is_app(b, 'not'):
        return ladd(Int(1), ind(b.a[1]), -1)
    v = App('ind', b)
    tyname.setdefault(v, 'u8')
    return v


def charstep(lex, c, cnt):
    k = lex[0]
    if k == 'text':
        return ('lt',) if c == '<' else lex
    if k == 'lt':
        if c == '/':
            return ('name', 1, ())
        if c.isalpha():
            return ('name', 0, (c.lower(),))
        if c in '!?':
            return ('tag',)
        return TEXT if c != '<' else lex
    if k == 'name':
        if c.isspace() or c in '/>':
            close(lex, cnt)
            return TEXT if c == '>' else ('tag',)
        return ('name', lex[1], lex[2] + (c.lower(),))
    if k == 'tag':
        if c == '>':
            return TEXT
        if c in '"\'':
            return ('q', c)
        return lex
    return ('tag',) if c == lex[1] else lex


def close(lex, cnt):
    n = lex[2]
    name = ''.join(n) if all(isinstance(x, str) for x in n) else n
    if name not in VOID:
        add(cnt, name, Int(-1 if lex[1] else 1))


def add(cnt, name, e):
    cnt[name] = ladd(cnt.get(name, Int(0)), e)


def hasmark(s):
    return '<' in s or '>' in s


class Balance:
    """mixin of Engine"""

    def htmlish(self, st, v, d=0):
        """may v contain markup written by the renderer?"""
        if v in st.bal:
            return True
        k = v.k
        if k == 'str':
            return hasmark(v.a)
        if k == 'app':
            op = v.a[0]
            if op == 'ret':
                x = v.a[1]
                return x.k == 'sym' and len(x.a) > 1 and x.a[1] in self.p.bodies and self.p.bodies[x.a[1]].lty(0).s.endswith('String')
            if op in ('push', 'append') or op == 'collect' and d > 3:
                return False
            if op == 'replace':
                return v.a[3].k == 'str' and '<' in v.a[3].a or self.htmlish(st, v.a[1])
            if op in ONE:
                return self.htmlish(st, v.a[1])
            return any(self.htmlish(st, x) for x in v.a[1:] if isinstance(x, V))
        if k in ('agg', 'menum'):
            return any(self.htmlish(st, x) for x in children(v))
        return False

    def balrun(self, st, v, lex, cnt):
        v = st.norm(v)
        k = v.k
        if k == 'str':
            for c in v.a:
                lex = charstep(lex, c, cnt)
            return lex
        if k == 'char':
            return charstep(lex, chr(v.a) if isinstance(v.a, int) else v.a, cnt)
        if is_app(v, 'cat'):
            for x in v.a[1:]:
                lex = self.balrun(st, x, lex, cnt)
            return lex
        if v in st.bal:
            e = st.bal[v]
            if e is None:
                raise Top()
            if lex != TEXT:
                if lex[0] in ('q', 'tag') and e == NOB:
                    return lex
                raise Top()
            for t, n in e[1].items():
                add(cnt, t, n)
            return e[0]
        if is_app(v, 'chstr') and v.a[1].k == 'char':
            return self.balrun(st, v.a[1], lex, cnt)
        if lex[0] in ('lt', 'name'):
            if lex[0] == 'lt':
                return ('name', 0, (v,))
            return ('name', lex[1], lex[2] + ('#' if is_app(v, 'itoa') or is_int(v) else v,))
        if lex != TEXT:
            return lex           # inside a tag: the injection analysis looks after it
        if is_app(v, 'strrep'):
            c2 = {}
            if self.balrun(st, v.a[1], TEXT, c2) != TEXT:
                raise Top()
            n = v.a[2]
            for t, e in c2.items():
                if is_const(e) and is_int(n):
                    add(cnt, t, lscale(n, cval(e)))
                elif not (is_const(e) and cval(e) == 0):
                    raise Top()
            return lex
        if v.k != 'app' or not self.htmlish(st, v):
            return lex
        op = v.a[0]
        if op == 'ret':
            return lex           # balanced, by induction
        if op in ('pl', 'at') and not self.own(st, v):
            return lex           # payload of a token: checked where it is built
        if op == 'feat':
            return self.balrun(st, v.a[1], lex, cnt)
        if op == 'replace':
            p, r = v.a[2], v.a[3]
            p = p.a if p.k == 'str' else chr(p.a) if p.k == 'char' and isinstance(p.a, int) else None
            if p is None or r.k != 'str':
                raise Top()
            if hasmark(p) or hasmark(r.a):
                a, b = {}, {}
                if self.balrun(st, Str(p), TEXT, a) != TEXT or self.balrun(st, r, TEXT, b) != TEXT or clean(a) != clean(b):
                    c2 = {}
                    lx = self.balrun(st, v.a[1], TEXT, c2)
                    if any(not iszero(st, e) for e in c2.values()) or self.hasret(v.a[1]) or lx != TEXT or hasmark(p):
                        raise Top()
                    if clean(b):
                        raise Top()
                    return lex
            return self.balrun(st, v.a[1], lex, cnt)
        if op in ('trim', 'trim_start', 'trim_end', 'lower', 'upper', 'alower', 'aupper', 'feat'):
            return self.balrun(st, v.a[1], lex, cnt)
        if op in ('trim_start_matches', 'trim_end_matches', 'trim_matches'):
            if self.harmless(v.a[2]):
                return self.balrun(st, v.a[1], lex, cnt)
            raise Top()
        if op == 'slice':
            x, a, b = v.a[1], v.a[2], v.a[3]
            lex = self.balrun(st, x, lex, cnt)
            for off, kind in ((a, 'starts_with'), (lsub(Len(x), b), 'ends_with')):
                off = st.lnorm(off)
                if is_const(off) and cval(off) == 0:
                    continue
                for (o, s), t in st.affix(x):
                    if t and o == kind and is_const(off) and blen(s) == cval(off):
                        c2 = {}
                        if self.balrun(st, Str(s), TEXT, c2) != TEXT:
                            raise Top()
                        for tg, e in c2.items():
                            add(cnt, tg, lscale(e, -1))
                        break
                else:
                    raise Top()
            return lex
        if op == 'uor':
            a, b = {}, {}
            la = self.balopt(st, v.a[1], lex, a)
            lb = self.balrun(st, v.a[2], lex, b)
            if la == lb and set(clean(a)) == set(clean(b)) and all(iszero(st, lsub(a[t], b[t])) for t in clean(a)):
                for t, e in a.items():
                    add(cnt, t, e)
                return la
            raise Top()
        if op in ('concat', 'join'):
            for x in v.a[1:]:
                if isinstance(x, V) and not self.seqbal(st, x):
                    raise Top()
            return lex
        if op == 'pl' and v.a[2] == OPT and v.a[3] == 1:
            return self.balopt(st, v.a[1], lex, cnt)
        raise Top()

    def balopt(self, st, o, lex, cnt):
        """the payload of an optional string"""
        o = st.norm(o)
        if is_app(o) and o.a[0] in ('strip_prefix', 'strip_suffix') and o.a[2].k == 'str':
            lex = self.balrun(st, o.a[1], lex, cnt)
            c2 = {}
            if self.balrun(st, o.a[2], TEXT, c2) != TEXT:
                raise Top()
            for tg, e in c2.items():
                add(cnt, tg, lscale(e, -1))
            return lex
        w = Pl(o, OPT, 1, 0)
        if is_app(w, 'pl') and w.a[1] is o:
            if o.k == 'sym' or not self.htmlish(st, o):
                return lex
            raise Top()
        return self.balrun(st, w, lex, cnt)

    def own(self, st, v):
        """is v a projection of something computed here (not of the unit's arguments)?"""
        x = v
        while x.k == 'app' and x.a[0] in ('pl', 'at', 'elts', 'slice', 'field', 'first', 'last', 'feat'):
            x = x.a[1]
        return not (x.k == 'sym' and x.a[0] == 'arg')

    def hasret(self, v):
        return any(is_app(x, 'ret') for x in subterms(v))

    def harmless(self, p):
        if p.k == 'str':
            return not hasmark(p.a)
        if p.k == 'char':
            return not isinstance(p.a, int) or chr(p.a) not in '<>'
        if p.k == 'agg':
            return all(self.harmless(x) for x in p.a[3])
        return False

    def seqbal(self, st, x):
        """every element of the sequence (or the string) x is balanced"""
        if x.k == 'str':
            c = {}
            return self.balrun(st, x, TEXT, c) == TEXT and not clean(c)
        if not self.htmlish(st, x) and not any(y in self.balall for y in subterms(x)):
            return True
        if is_app(x, 'collect') or is_app(x, 'feat'):
            return self.seqbal(st, x.a[1])
        if x.k == 'agg' and x.a[0] in ('array', 'tuple'):
            return all(self.seqbal(st, y) for y in x.a[3])
        if is_app(x, 'push') or is_app(x, 'append'):
            return self.seqbal(st, x.a[1]) and self.seqbal(st, x.a[2])
        if x in self.balall:
            return self.balall[x]
        c = {}
        try:
            return self.balrun(st, x, TEXT, c) == TEXT and all(iszero(st, e) for e in c.values())
        except Top:
            return False

    def balof(self, st, v):
        """(lexical state, {element: term}) or None"""
        c = {}
        try:
            lex = self.balrun(st, v, TEXT, c)
        except Top as e:
            if DEBUG:
                import traceback
                print('TOP', traceback.extract_tb(e.__traceback__)[-1].lineno, str(v)[-300:])
            return None
        out = {}
        for t, e in c.items():
            e = simp(st, e)
            if not (is_const(e) and cval(e) == 0):
                out[t] = e
        return (lex, out)

    def balanced(self, st, v):
        """None, or why v is not balanced"""
        r = self.balof(st, v)
        if r is None:
            return 'the number of its tags could not be determined'
        if r[0] != TEXT:
            return 'it may end inside a tag'
        for t, e in sorted(r[1].items(), key=str):
            if not iszero(st, e):
                if is_const(e):
                    return '%d <%s> more opened than closed' % (cval(e), t) if cval(e) > 0 else '%d </%s> too many' % (-cval(e), t)
                return 'the <%s> opened and closed are not shown to be the same number (difference %s)' % (t, e)
        return None

    # ------------------------------------------------------------------ joins
    def join_bal(self, sts, phis, out, prev=None):
        if not self.opts.get('balance'):
            return
        strs = []
        for P, vs in phis:
            if P.k != 'sym' and not is_app(P):
                continue
            if is_int(P) or any(v.k in ('bool', 'lin', 'agg', 'menum', 'ref', 'fn') for v in vs):
                continue
            if any(self.htmlish(s, v) for s, v in zip(sts, vs)):
                strs.append((P, vs))
        alive = self.alive_syms(out.mem)
        keep = set()
        for v in {v for s in sts for v in s.bal}:
            if v in out.bal or v not in alive or any(P is v for P, _ in phis):
                continue
            es = [self.simpentry(s, s.bal.get(v, NOB)) for s in sts]
            if all(e == es[0] for e in es) and (es[0] is None or all(is_const(x) or self.fact_alive(x, alive) for x in es[0][1].values())):
                out.bal[v] = es[0]
            else:
                out.bal[v] = self.joinbal1(es, sts, phis, alive)
                if out.bal[v] is None and all(s.bal.get(v) is not None and s.bal.get(v) == sts[0].bal.get(v) for s in sts):
                    # a flag or counter outlives its variable while the tags of a text are counted with it
                    out.bal[v] = sts[0].bal[v]
                    for x in out.bal[v][1].values():
                        keep |= {y for y in subterms(x) if y.k in ('sym', 'menum')}
        alive = alive | keep
        for P, vs in strs:
            es = [self.balof(s, v) for s, v in zip(sts, vs)]
            pe = prev.bal.get(P, 0) if prev is not None else 0
            if pe is None:
                out.bal[P] = None
                continue
            out.bal[P] = self.joinbal1(es, sts, phis, alive, pe or None)
            z = out.bal[P]
            ok = z == NOB
            self.balall[P] = ok

    def derive(self, st):
        """equalities of counters held in memory, kept when the symbols in between die"""
        eqs = equalities(st)
        if not eqs:
            return
        for v in list(st.mem.values()):
            if is_int(v) and v.k != 'lin':
                w = reduce(v, eqs)
                if w is not v and is_const(w):
                    st.add_ge(lsub(v, w))
                    st.add_ge(lsub(w, v))

    def simpentry(self, st, e):
        if e is None or not e[1]:
            return e
        eqs = equalities(st)
        return (e[0], clean({t: reduce(simp(st, x), eqs) for t, x in e[1].items()}))

    def joinbal1(self, es, sts, phis, alive, prev=None):
        if any(e is None for e in es) or len({e[0] for e in es}) != 1:
            if DEBUG and all(e is not None for e in es):
                print('LEX', es)
            return None
        r = {}
        for t in sorted({t for e in es for t in e[1]}, key=str):
            x = self.affine([e[1].get(t, Int(0)) for e in es], sts, phis, alive, prev[1].get(t, Int(0)) if prev else None)
            if x is None:
                if DEBUG:
                    print('AFF', t, [str(e[1].get(t, 0)) for e in es], [(str(P), [str(v)[:40] for v in vs]) for P, vs in phis if is_int(P) or any(v.k == 'bool' for v in vs)])
                return None
            if not (is_const(x) and cval(x) == 0):
                r[t] = x
        return (es[0][0], r)

    def affine(self, es, sts, phis, alive, prev):
        n = len(sts)
        inv = [{} for _ in sts]
        cols = []
        for P, vs in phis:
            for i in range(n):
                inv[i][P] = vs[i]
            if is_int(P) or all(is_int(v) for v in vs):
                cols.append((P, [simp(s, v) for s, v in zip(sts, vs)]))
            elif P.k == 'sym' and all(self.isbool(v, s) for s, v in zip(sts, vs)):
                cols.append((ind(P), [simp(s, ind(s.norm(v))) for s, v in zip(sts, vs)]))
        # flags that were not changed but are known differently on the joined paths
        for b in {x for v in self_mem(sts) for x in v}:
            tr = [s.truth(b) for s in sts]
            if None not in tr and len(set(tr)) > 1 and self.fact_alive(b, alive):
                cols.append((ind(b), [Int(1 if t else 0) for t in tr]))
        es = [simp(s, e) for s, e in zip(sts, es)]

        def back(E, i):
            r = Int(0)
            c, t = parts(E)
            r = Int(c)
            for x, k in t.items():
                y = x
                for X, xs in cols:
                    if X is x:
                        y = xs[i]
                r = ladd(r, y, k)
            return r

        def good(E):
            return all(iszero(sts[i], lsub(es[i], back(E, i))) for i in range(n))
        if prev is not None and good(prev):
            return prev
        if all(e is es[0] for e in es) and self.fact_alive(es[0], alive) and good(es[0]):
            return es[0]
        # one joined value plus a common rest
        for X, xs in cols:
            for k in (1, -1):
                rs = [lsub(e, lscale(x, k)) for e, x in zip(es, xs)]
                if all(r is rs[0] for r in rs) and (is_const(rs[0]) or self.fact_alive(rs[0], alive)):
                    E = ladd(rs[0], X, k)
                    if good(E):
                        return E
        # affine combination
        atoms = {}
        for e in es:
            for x in parts(e)[1]:
                if self.fact_alive(x, alive) and not any(X is x for X, _ in cols):
                    atoms[x] = 1
        for s, e in zip(sts, es):
            at = parts(e)[1]
            if not at or all(x in atoms for x in at):
                continue
            for y, val in equalities(s):
                ys = [y] + list(parts(val)[1])
                if any(x in at and x not in atoms for x in ys):
                    for x in ys:
                        if self.fact_alive(x, alive) and not any(X is x for X, _ in cols):
                            atoms[x] = 1
        full = cols + [(x, [simp(s, x) for s in sts]) for x in atoms]
        use = []
        seen = set()
        for X, xs in full:
            if len({x for x in xs}) > 1 or X in atoms:
                k = tuple(xs)
                if k not in seen:
                    seen.add(k)
                    use.append((X, xs))
        # reduce every state to the atoms known there, trying the state's equalities
        rows = set()
        for i in range(n):
            eqs = equalities(sts[i])
            e = reduce(es[i], eqs)
            xs = [reduce(x[i], eqs) for _, x in use]
            at = set(parts(e)[1]) | {a for x in xs for a in parts(x)[1]}
            rows.add(tuple([Fraction(parts(x)[0]) for x in xs] + [Fraction(1), Fraction(parts(e)[0])]))
            for a in at:
                rows.add(tuple([Fraction(parts(x)[1].get(a, 0)) for x in xs] + [Fraction(0), Fraction(parts(e)[1].get(a, 0))]))
        sol = solve([list(r) for r in sorted(rows)], len(use) + 1)
        if sol is None or any(x.denominator != 1 for x in sol):
            return None
        E = Int(int(sol[-1]))
        for (X, _), k in zip(use, sol):
            E = ladd(E, X, int(k))
        return E if good(E) else None

    def isbool(self, v, st):
        t = tyof.get(v)
        f = st.vs.get(v)
        if f is not None and f[0] and all(isinstance(x, bool) for x in f[1]):
            return True
        return v.k == 'bool' or (t is not None and t.s == 'bool') or v.k == 'app' and v.a[0] in ('not', 'and', 'or', 'eq', 'ge0', 'is', 'starts_with',
                                                                                              'ends_with', 'contains')


def self_mem(sts):
    for s in sts:
        yield [b for b in s.pb if b.k == 'sym'] + [v for v, f in s.vs.items() if v.k == 'sym' and f[0] and len(f[1]) == 1 and
                                                   isinstance(next(iter(f[1])), bool)]


def clean(c):
    return {t: e for t, e in c.items() if not (is_const(e) and cval(e) == 0)}


def simp(st, e):
    c, t = parts(e)
    r = Int(c)
    for x, k in t.items():
        if is_app(x, 'ind'):
            b = st.truth(x.a[1]) if x.a[1].k in ('app', 'bool') else st.truth(x.a[1])
            y = Int(1 if b else 0) if b is not None else x
        else:
            y = st.norm(x)
            f = st.vs.get(y)
        r = ladd(r, y, k)
    return st.lnorm(r)


def equalities(st):
    """the equalities of the state, in echelon form: [(symbol, its value)]"""
    out = []
    for e in st.ge:
        m = lscale(e, -1)
        c, t = parts(e)
        if m in st.ge and e.id > m.id or len(t) == 1 and c == 0 and -1 in t.values() and m not in st.ge and st.prove(m):
            e = reduce(e, out)
            t = parts(e)[1]
            c = [x for x in t if abs(t[x]) == 1]
            if not c:
                continue
            x = max(c, key=lambda v: v.id)
            val = lscale(ladd(e, x, -t[x]), -t[x])
            out = [(y, subst1(w, x, val)) for y, w in out] + [(x, val)]
    return out


def subst1(e, x, val):
    m = parts(e)[1].get(x, 0)
    return ladd(ladd(e, x, -m), val, m) if m else e


def reduce(e, eqs):
    for x, val in eqs:
        e = subst1(e, x, val)
    return e


def iszero(st, e):
    e = simp(st, e)
    if is_const(e):
        return cval(e) == 0
    if any(is_app(x, 'ind') for x in parts(e)[1]):
        e = reduce(e, equalities(st))
        if is_const(e):
            return cval(e) == 0
    return st.eqzero(e)


def solve(rows, n):
    """one solution of rows [a_1..a_n | b], free variables zero; None if inconsistent"""
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        d = rows[r][c]
        rows[r] = [x / d for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c] != 0:
                m = rows[i][c]
                rows[i] = [x - m * y for x, y in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
    for i in range(r, len(rows)):
        if rows[i][n] != 0:
            return None
    out = [Fraction(0)] * n
    for i, c in enumerate(piv):
        out[c] = rows[i][n]
    return out
