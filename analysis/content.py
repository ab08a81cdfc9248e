"""Content of string and collection values: which texts, tokens and collections of the document a value certainly contains.

st.has maps a value V to a set of terms that are contained in it: document texts and tokens (`pl`/`at` projections of the unit's arguments),
earlier values of the same variable, all(C) (every element of the collection C) and when(C, R) (every element of C is in V or in the
collection R).  Containment is up to characters that are not letters or digits (escaping, trimming, separators)."""
from val import *
from dom import *

TRIM = {'trim', 'trim_start', 'trim_end', 'lower', 'upper', 'alower', 'aupper', 'feat', 'fold'}
PAT = {'trim_start_matches', 'trim_end_matches', 'trim_matches'}
SPLIT = {'split', 'lines', 'split_whitespace', 'split_terminator', 'split_inclusive', 'rsplit', 'chars'}
STRS = ('str',)


def ispunct(s):
    return not any(c.isalnum() for c in s)


def ctext(p):
    if p.k == 'str':
        return p.a
    if p.k == 'char':
        return chr(p.a) if isinstance(p.a, int) else p.a
    return None


class Content:
    """mixin of Engine"""

    # ------------------------------------------------------------------ what a value contains
    def cont(self, st, v):
        S = set()
        self._cont(st, v, S, 0)
        self.closure(st, S)
        return S

    def _cont(self, st, v, S, d):
        v = st.norm(v)
        if v in S or d > 60:
            return
        S.add(v)
        h = st.has.get(v)
        if h:
            S |= h
        k = v.k
        if k == 'agg':
            if v.a[0] in ('array', 'tuple', 'adt'):
                for x in v.a[3]:
                    self._cont(st, x, S, d + 1)
            return
        if k == 'sym' and v.a[0] == 'phi' and len(v.a) > 5 and v.a[2] == 'ite':
            S |= self.alternatives(st, v, d)
            return
        if k != 'app':
            return
        op = v.a[0]
        if op in ('cat', 'push', 'append', 'join', 'concat', 'collect', 'chstr', 'elts'):
            for x in v.a[1:]:
                if isinstance(x, V):
                    self._cont(st, x, S, d + 1)
        elif op in TRIM:
            self._cont(st, v.a[1], S, d + 1)
        elif op in PAT:
            if self.punct(st, v.a[2]):
                self._cont(st, v.a[1], S, d + 1)
        elif op == 'replace':
            p, r = ctext(v.a[2]), ctext(v.a[3])
            if p is not None and (ispunct(p) or r is not None and p in r) or p is None and self.punct(st, v.a[2]):
                self._cont(st, v.a[1], S, d + 1)
        elif op == 'ret':
            for x in v.a[2:]:
                if isinstance(x, V):
                    self._cont(st, x, S, d + 1)
        elif op == 'slice':
            x, a, b = v.a[1], v.a[2], v.a[3]
            for off, kind in ((a, 'starts_with'), (lsub(Len(x), b), 'ends_with')):
                off = st.lnorm(off)
                if is_const(off) and cval(off) == 0:
                    continue
                if not any(t and o == kind and is_const(off) and blen(s) >= cval(off) and ispunct(s) for (o, s), t in st.affix(x)):
                    return
            self._cont(st, x, S, d + 1)
        elif op == 'pl' and is_app(v.a[1]) and v.a[1].a[0] in ('strip_prefix', 'strip_suffix') and self.punct(st, v.a[1].a[2]):
            self._cont(st, v.a[1].a[1], S, d + 1)
        elif op == 'uor':
            A = set()
            o = st.norm(v.a[1])
            if is_app(o) and o.a[0] in ('strip_prefix', 'strip_suffix') and self.punct(st, o.a[2]):
                self._cont(st, o.a[1], A, d + 1)
            else:
                self._cont(st, Pl(o, OPT, 1, 0), A, d + 1)
            B = set()
            self._cont(st, v.a[2], B, d + 1)
            S |= A & B

    def alternatives(self, st, v, d):
        r = None
        for t, w in ((True, v.a[4]), (False, v.a[5])):
            try:
                ss = self.cases(st.copy(), v.a[3], t)
            except Dead:
                ss = []
            for s in ss:
                A = set()
                self._cont(s, w, A, d + 1)
                r = A if r is None else r & A
        return r or set()

    def punct(self, st, p):
        """a pattern that cannot match letters or digits"""
        t = ctext(p)
        if t is not None:
            return ispunct(t)
        if p.k == 'agg' and p.a[0] != 'closure':
            return all(self.punct(st, x) for x in p.a[3])
        if p.k == 'fn' or p.k == 'agg':
            return 'whitespace' in str(p) or 'punctuation' in str(p)
        p = st.norm(p)
        f = st.vs.get(p)
        if f and f[0]:
            return all(isinstance(x, str) and ispunct(x) or isinstance(x, int) and ispunct(chr(x)) for x in f[1])
        return self.allblank(st, p) or self.seqlike(p) and self.blank(st, p)

    def allblank(self, st, p):
        """every character of p is known to be a blank"""
        for e, t in st.pb.items():
            if t is True and is_app(e, 'all') and is_app(e.a[1], 'chars') and e.a[1].a[1] is p and is_app(e.a[2], 'cset'):
                cs, rest = e.a[2].a[1].a, e.a[2].a[2]
                if all(ispunct(c) for c in cs) and not (rest.k == 'bool' and rest.a):
                    return True
        return False

    def closure(self, st, S):
        more = True
        while more:
            more = False
            for x in list(S):
                if is_app(x, 'alle'):
                    c = x.a[1]
                    n = None
                    if is_app(c, 'revseq'):
                        n = App('alle', c.a[1])
                    elif is_app(c) and c.a[0] in SPLIT and (len(c.a) < 3 or not isinstance(c.a[2], V) or self.punct(st, c.a[2])):
                        n = c.a[1]
                elif is_app(x, 'when'):
                    n = App('alle', x.a[1]) if self.rendered(st, x.a[2], S) else None
                else:
                    continue
                if n is not None and n not in S:
                    T = set()
                    self._cont(st, n, T, 0)
                    S |= T
                    more = True

    # ------------------------------------------------------------------ is a part of the document in it?
    def fty(self, key, variant, i):
        a = self.p.adts[key]
        for c in self.p.crates.values():
            for b in c.d['adts']:
                if b['key'] == key and b.get('local'):
                    return c.ty(b['variants'][variant]['fields'][i]['ty'])
        return None

    def rendered(self, st, x, S, ty=None, d=0):
        x = st.norm(x)
        if x in S:
            return True
        if d > 8:
            return False
        if x.k in ('str', 'char', 'bool', 'fn') or is_int(x):
            return True
        if x.k == 'agg':
            if x.a[0] == 'adt' and x.a[1] in self.p.adts and self.p.adts[x.a[1]].get('local'):
                return self.fields(st, x, x.a[1], x.a[2], S, d)
            return all(self.rendered(st, y, S, None, d + 1) for y in x.a[3])
        ty = tyof.get(x) or ty
        t = (ty.peel() or ty) if ty is not None else None
        if t is None:
            return self.seqlike(x) and self.blank(st, x)
        if t.k in ('int', 'uint', 'bool', 'char', 'float'):
            return True
        if t.s == 'str' or t.k == 'adt' and t.key == 'alloc::string::String':
            return self.blank(st, x)
        if t.k in ('slice', 'array') or t.k == 'adt' and t.key == 'alloc::vec::Vec':
            if App('alle', x) in S or st.prove(st.lnorm(lscale(Len(x), -1))):
                return True
            if x.k == 'app' and x.a[0] in ('push', 'append'):
                return all(self.rendered(st, y, S, ty, d + 1) for y in x.a[1:])
            return False
        if t.k == 'tuple':
            return all(self.rendered(st, self.part(x, None, 0, i, a), S, a, d + 1) for i, a in enumerate(self.tupargs(t)))
        if t.k == 'adt' and t.key == OPT:
            if st.truth(Is(x, 0)) is True:
                return True
            if st.truth(Is(x, 1)) is not True:
                # may be absent: decided for the case that it is present
                st = st.copy()
                try:
                    if not self.cases(st, Is(x, 1), True):
                        return True
                except Dead:
                    return True
            return self.rendered(st, self.part(x, OPT, 1, 0, t.arg(0)), S, t.arg(0), d + 1)
        if t.k == 'adt' and t.key in self.p.adts and self.p.adts[t.key].get('local'):
            vs = self.p.adts[t.key]['variants']
            if len(vs) > 1:
                for i, w in enumerate(vs):
                    if st.truth(Is(x, i)) is False:
                        continue
                    if not self.fields(st, x, t.key, i, S, d):
                        return False
                return True
            return self.fields(st, x, t.key, 0, S, d)
        return False

    def tupargs(self, t):
        r = t.raw.get('ts') or t.raw.get('args') or t.raw.get('elems') or []
        return [t.crate.ty(a) for a in r if isinstance(a, int)]

    def part(self, x, key, variant, i, ty):
        if x.k == 'agg' and i < len(x.a[3]):
            return x.a[3][i]
        return self.settype(Pl(x, key, variant, i), ty)

    def fields(self, st, x, key, variant, S, d):
        fs = self.p.adts[key]['variants'][variant]['fields']
        if not fs:
            m = self.opts['marks'].get((key, variant))
            return m is None or any(y.k == 'str' and m in y.a for y in S)
        for i in range(len(fs)):
            ty = self.fty(key, variant, i)
            if key in self.opts['urls'] and (ty.peel() or ty).s != 'str':
                continue        # the scheme of an address: part of its text
            if not self.rendered(st, self.part(x, key, variant, i, ty), S, ty, d + 1):
                return False
        return True

    def blank(self, st, x):
        for y in (x, App('trim', x), App('trim_start', x), App('trim_end', x)):
            y = st.norm(y)
            if y.k == 'str':
                return y.a.strip() == ''
            f = st.vs.get(y)
            if f and f[0] and all(isinstance(s, str) and ispunct(s) for s in f[1]):
                return True
            if st.prove(st.lnorm(lscale(Len(y), -1))):
                return True
        return False

    # ------------------------------------------------------------------ joins
    def holder(self, v):
        """may v hold text of the page? (strings and collections)"""
        if v.k == 'str' or v.k == 'agg' and v.a[0] == 'array':
            return True
        if v.k in ('agg', 'ref', 'fn', 'bool', 'char', 'menum') or is_int(v):
            return False
        return self.seqlike(v) or v.k == 'sym' and v.a[0] == 'phi' and v not in tyof and v not in tyname

    def holders(self, mem):
        out = []
        for root, v in mem.items():
            for path, x in self.leaves(v):
                if self.holder(x) and x.k != 'str':
                    out.append(x)
        return out

    def interesting(self, x):
        if x.k == 'sym':
            return x.a[0] == 'phi'
        if x.k != 'app':
            return False
        if x.a[0] in ('alle', 'when'):
            return True
        if x.a[0] in ('pl', 'at'):
            return x.a[0] == 'at' or not is_app(x.a[1]) or x.a[1].a[0] in ('pl', 'at')
        return False

    def parents(self, x):
        while is_app(x) and x.a[0] in ('pl',):
            yield x
            x = x.a[1]
        if is_app(x, 'at'):
            yield x
            if is_app(x.a[1], 'pl'):
                yield from self.parents(x.a[1])

    def collected(self, st):
        """contents of the collections built so far"""
        S = set()
        for v in st.mem.values():
            for _, x in self.leaves(v):
                if self.isvec(x):
                    S |= self.cont(st, x)
        return S

    def mentioned(self, st, live):
        """values named by what live values are known to contain"""
        r = set()
        for k, its in st.has.items():
            if k in live:
                for x in its:
                    if is_app(x) and x.a[0] in ('alle', 'when'):
                        r |= subterms(x)
        return r

    def join_has(self, sts, phis, out, prev=None):
        if not self.opts.get('content'):
            return
        work = [(P, vs) for P, vs in phis if not is_int(P) and all(self.holder(v) for v in vs)]
        seen = {P for P, _ in work}
        keys = {v for s in sts for v in s.has}
        live = set()
        for v in out.mem.values():
            live |= subterms(v)
        for s in sts:
            live |= self.mentioned(s, live)
        for root, v in out.mem.items():
            for path, x in self.leaves(v):
                if x.k == 'app' and x not in seen and self.holder(x):
                    vs = [self.getleaf(s, root, path) for s in sts]
                    if None not in vs and any(w is not x for w in vs) and all(self.holder(w) for w in vs):
                        # a text whose bounds were joined
                        seen.add(x)
                        work.append((x, vs))
        for v in self.holders(out.mem) + [k for k in keys if k in live]:
            if v not in seen and v.k == 'sym' or v in keys and v not in seen:
                seen.add(v)
                work.append((v, [v] * len(sts)))
        for P, vs in phis:
            if any(self.isvec(v) for v in vs):
                self.vecphis.add(P)
        if not work:
            return
        lives = None
        toks = set(self.elstack)
        for s in sts:
            for x in s.var:
                if is_app(x) and x.a[0] in ('at', 'pl'):
                    toks.update(y for y in self.parents(x) if self.istok(y))
        all_sts = sts
        for P, vs in work:
            sts = all_sts
            if P in keys and all(v is P for v in vs):
                # a value that does not exist on the other paths
                if lives is None:
                    lives = [set().union(*(subterms(v) for v in s.mem.values())) for s in all_sts]
                    lives = [l | self.mentioned(s, l) for s, l in zip(all_sts, lives)]
                sts = [s for s, l in zip(all_sts, lives) if P in l]
                vs = vs[:len(sts)]
                if not sts:
                    continue
            Ss = [self.cont(s, v) for s, v in zip(sts, vs)]
            cands = set(toks)
            for S in Ss:
                for x in S:
                    if self.interesting(x):
                        cands.add(x)
                        if x.a[0] in ('pl', 'at'):
                            cands.update(self.parents(x))
            cands.discard(P)
            r = set()
            for x in cands:
                if is_app(x) and x.a[0] not in ('alle', 'when'):
                    ok = all(self.rendered(s, x, S) for s, S in zip(sts, Ss))
                elif is_app(x):
                    ok = all(x in S or self.rendered(s, x.a[1], S) for s, S in zip(sts, Ss))
                else:
                    ok = all(x in S for S in Ss)
                if ok:
                    r.add(x)
                elif x in self.elstack and not any(self.isvec(v) for v in vs):
                    ok = [self.rendered(s, x, S) or self.rendered(s, x, self.collected(s)) for s, S in zip(sts, Ss)]
                    f = ok.count(False) / len(ok)
                    if 0 < f < 1 and f < self.losses.get(x, (1,))[0]:
                        self.losses[x] = (f, {self.describe(s, x) for s, k in zip(sts, ok) if not k})
                if is_app(x, 'when'):
                    # the collection has a new name after the join
                    for Q, ws in phis:
                        if any(w is x.a[2] for w in ws) and len(ws) == len(sts) and all(App('when', x.a[1], w) in S or self.rendered(s, x.a[1], S) for s, S, w in zip(sts, Ss, ws)):
                            r.add(App('when', x.a[1], Q))
            r = frozenset(r)
            if r:
                out.has[P] = r

        sts = all_sts
        # elements that are in a text or, on other paths, in a collection
        if not self.elstack:
            return
        roots = [(r, path) for r, v in out.mem.items() for path, x in self.leaves(v) if self.holder(x)]
        strs = [r for r in roots if self.isstr(out, r)]
        vecs = [r for r in roots if not self.isstr(out, r) and self.localvec(self.getleaf(out, *r))]
        for q in vecs:
            for r in strs:
                vs = [(self.getleaf(s, *r), self.getleaf(s, *q)) for s in sts]
                if any(a is None or b is None for a, b in vs):
                    continue
                P, Q = self.getleaf(out, *r), self.getleaf(out, *q)
                Ss = [self.contboth(s, a, b) for s, (a, b) in zip(sts, vs)]
                its = frozenset(x for x in self.elstack if x not in out.has.get(P, ()) and all(self.rendered(s, x, S) for s, S in zip(sts, Ss)))
                if its:
                    out.has[App('both', P, Q)] = its

    def isvec(self, v):
        return v.k == 'agg' and v.a[0] == 'array' or is_app(v) and v.a[0] in ('push', 'append', 'collect') or v in self.vecphis

    def localvec(self, v):
        return v.k == 'agg' or v.k == 'sym' and v.a[0] == 'phi' or is_app(v) and v.a[0] in ('push', 'append')

    def contboth(self, st, a, b):
        A, B = self.cont(st, a), self.cont(st, b)
        S = A | B
        for k, its in st.has.items():
            if is_app(k, 'both') and (k.a[1] in A or k.a[1].k == 'str') and (k.a[2] in B or k.a[2].k == 'agg' and not k.a[2].a[3]):
                S |= its
        return S

    def istok(self, x):
        t = tyof.get(x)
        t = t.peel() if t is not None else None
        return t is not None and t.k == 'adt' and t.key == self.opts.get('token')

    # ------------------------------------------------------------------ loops
    def cursors(self, h):
        """[(root, path, kind)] of positions in sequences held by the state"""
        out = []
        for root, v in h.mem.items():
            for path, x in self.itleaves(v):
                out.append((root, path))
        return out

    def itleaves(self, v, path=(), d=0):
        if v.k == 'agg' and d < 6:
            if v.a[0] == 'it' and v.a[1] == 'seq':
                yield path, v
                return
            if v.a[0] == 'adt' and v.a[1] == 'core::ops::range::Range' and is_int(v.a[3][0]):
                yield path, v
                return
            if v.a[0] != 'array':
                for i, f in enumerate(v.a[3]):
                    yield from self.itleaves(f, path + (i,), d + 1)

    def curof(self, st, root, path):
        v = self.getleaf(st, root, path)
        if v is None:
            return None
        v = st.norm(v)
        if v.k == 'agg' and v.a[0] == 'it' and v.a[1] == 'seq':
            return st.norm(v.a[3][0]), st.norm(v.a[3][1])
        if v.k == 'agg' and v.a[0] == 'adt' and v.a[1] == 'core::ops::range::Range':
            e = st.norm(v.a[3][1])
            if is_app(e, 'len'):
                return e.a[1], st.norm(v.a[3][0])
        return None

    def bysource(self, sts):
        """states that iterate over different collections are followed separately"""
        gs = {}
        for s in sts:
            k = []
            for c in self.cursors(s):
                q = self.curof(s, *c)
                if q is not None and is_const(q[1]) and cval(q[1]) == 0 and q[0].k in ('sym', 'app'):
                    k.append((c, q[0]))
            gs.setdefault(frozenset(k), []).append(s)
        return list(gs.values())

    def kept(self, st, v, S):
        """the content of the earlier value v of a variable is in S"""
        v = st.norm(v)
        if v in S or v.k in ('str', 'char'):
            return True
        if v.k == 'agg' and v.a[0] == 'array':
            return all(self.kept(st, x, S) for x in v.a[3])
        if is_app(v) and v.a[0] in ('cat', 'push', 'append', 'chstr'):
            return all(self.kept(st, x, S) for x in v.a[1:])
        return False

    def elements(self, h):
        r = []
        for c in self.cursors(h):
            q = self.curof(h, *c)
            if q is not None and q[0].k != 'agg' and not is_app(q[0], 'chars'):
                x = At(q[0], h.lnorm(q[1]))
                if x.k in ('app', 'sym'):
                    self.models.elty(self, x, q[0])
                    r.append(x)
        return r

    def content_loop(self, first, rounds, exits, fr, sp):
        """first: states entering the loop; rounds: (head, state after one round); exits: (head, state leaving)"""
        for c in self.cursors(first[0]):
            srcs = []
            for s in first:
                q = self.curof(s, *c)
                if q is None or not (is_const(q[1]) and cval(q[1]) == 0) or q[0].k == 'agg' or is_app(q[0], 'chars'):
                    srcs = None
                    break
                srcs.append(q[0])
            if not srcs or len(set(srcs)) != 1:
                continue
            src = srcs[0]
            elems = []
            for h, b in rounds:
                p, q = self.curof(h, *c), self.curof(b, *c)
                if p is None or q is None or p[0] is not src or q[0] is not src:
                    elems = None
                    break
                n = b.lnorm(lsub(q[1], p[1]))
                if not is_const(n) or not 0 <= cval(n) <= 4:
                    elems = None
                    break
                es = []
                for i in range(int(cval(n))):
                    x = At(src, b.lnorm(ladd(p[1], Int(i))))
                    self.models.elty(self, x, src)
                    es.append(x)
                elems.append(es)
            if elems is None:
                continue
            # variables that only grow
            W = None
            for h, b in rounds:
                w = {}
                for root, v in b.mem.items():
                    if root not in h.mem:
                        continue
                    for path, x in self.leaves(v):
                        hv = self.getleaf(h, root, path)
                        if hv is None or not self.holder(x) or not self.holder(h.norm(hv)):
                            continue
                        hv = h.norm(hv)
                        S = self.cont(b, x)
                        if self.opts.get('cdebug') == 2 and not self.kept(h, hv, S):
                            print('NOTMONO', self.where(fr, sp), root, path, hv, '->', str(x)[:200], '|', [str(y)[:80] for y in S][:6])
                        if self.kept(h, hv, S):
                            w[(root, path)] = S
                W = {r: [S] for r, S in w.items()} if W is None else {r: W[r] + [w[r]] for r in W if r in w}
            if not W:
                continue
            W = {r: Ss for r, Ss in W.items() if r[0] != c[0]}

            def good(Ss):
                for (h, b), es, S in zip(rounds, elems, Ss):
                    for x in es:
                        if not self.rendered(b, x, S):
                            return (b, x)
                return None
            done, best = [], None
            for r, Ss in W.items():
                g = good(Ss)
                if g is None:
                    done.append((r, None))
                else:
                    best = best or g
            if not done:
                for r, Ss in W.items():
                    for q, Qs in W.items():
                        if q != r and not self.isstr(first[0], q) and self.isstr(first[0], r) and good([self.contboth(b, self.getleaf(b, *r), self.getleaf(b, *q)) for _, b in rounds]) is None:
                            done.append((r, q))
            if self.opts.get('cdebug'):
                print('CONTENT', self.where(fr, sp), src, [(r, q) for r, q in done])
                if not done:
                    for r, Ss in W.items():
                        g = good(Ss)
                        print('   ', r, 'missing', g[1], g[0].var.get(g[1]), {str(k): v for k, v in g[0].var.items() if k is not g[1] and g[1] in subterms(k)})
                        print('       ', [str(y)[:150] for y in self.cont(g[0], self.getleaf(g[0], *r))][:12])
            if not done:
                miss = []
                for Ss in W.values():
                    g = good(Ss)
                    miss.append(min(list(self.losses.get(g[1], (1, ()))[1]) + [self.describe(*g)], key=lambda s: (s.count('/'), s)))
                self.log.append(('miss', src, self.where(fr, sp), self.trace(fr), miss))
            if done:
                self.shown.append((self.where(fr, sp)[1], len(rounds)))
            for r, q in done:
                for h, e in exits:
                    hv = self.getleaf(h, *r)
                    if hv is None:
                        continue
                    hv = h.norm(hv)
                    if hv.k == 'str':
                        continue
                    p = self.curof(e, *c)
                    if p is None or p[0] is not src or not e.prove(e.lnorm(lsub(p[1], Len(src)))):
                        continue
                    item = App('alle', src)
                    if q is not None:
                        R = self.getleaf(e, *q)
                        if R is None:
                            continue
                        item = App('when', src, e.norm(R))
                    e.has[hv] = e.has.get(hv, frozenset()) | {item}

    def isstr(self, st, r):
        v = self.getleaf(st, *r)
        if v is None:
            return False
        v = st.norm(v)
        if v.k == 'str':
            return True
        if self.isvec(v):
            return False
        t = tyof.get(v)
        t = t.peel() if t is not None else None
        if t is not None:
            return t.s == 'str' or t.k == 'adt' and t.key == 'alloc::string::String'
        return not self.isvec(v)

    def describe(self, st, x):
        t = tyof.get(x)
        t = t.peel() if t is not None else None
        if t is not None and t.k == 'adt' and t.key in self.p.adts:
            vs = self.p.adts[t.key]['variants']
            names = [w['name'] for i, w in enumerate(vs) if len(vs) > 1 and st.truth(Is(x, i)) is not False]
            return '/'.join(names[:6])
        return str(x)[:80]
