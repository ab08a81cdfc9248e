"""C01 / C02 / C14: what the renderer may put into its output.

The abstract interpreter leaves, for every function of the recursion cut set, a value graph: the returned string as a term over
constants, token payloads, escaping operations and joins (phi).  Here the terms are pushed through the state machine of an HTML
tokenizer.  Text that comes from the document must never make the machine change state."""
import gfmprops, purity
from val import *
from dom import *
from run import Result

TRACK = set('<>"\'&%: \t\n\r\x01')
URLATTRS = {'href', 'src', 'action', 'formaction', 'poster', 'cite', 'background', 'data', 'xlink:href', 'srcset', 'ping', 'longdesc', 'manifest'}
ALL = frozenset(TRACK)


class Top(Exception):
    pass


# ---------------------------------------------------------------------- pieces
# ('c', s)            trusted constant
# ('t', lacks, amp, pct, feats, origin)   text of the document; lacks: tracked characters that cannot occur
# ('n',)              decimal number
# ('h', why)          output of the renderer itself
# ('r', pieces)       any number of repetitions of the pieces
def text(origin, lacks=frozenset(), amp='raw', pct='raw', feats=frozenset()):
    return ('t', frozenset(lacks), amp, pct, frozenset(feats), origin)


class Solver:
    def __init__(self, g):
        self.g = g
        self.prog = g.prog
        self.phi = {}
        self.cells = {}
        for k, log in g.logs.items():
            for e in log:
                if e[0] == 'phi':
                    s = self.phi.setdefault(e[1], [])
                    if e[2] not in s:
                        s.append(e[2])
                elif e[0] == 'cell':
                    s = self.cells.setdefault((e[1], e[2]), [])
                    if e[3] not in s:
                        s.append(e[3])
        self.html_units = [k for k in g.units if g.prog.bodies[k].lty(0).s.endswith('string::String') or g.prog.bodies[k].lty(0).s == 'String']
        self.memo = {}
        self.busy = set()
        self.cyc = {}
        self.emitted = []
        self.stats = {'terms': 0, 'pieces': 0}

    # ------------------------------------------------ alternatives of a value
    def cyclic(self, P):
        """does the joined value P contain itself?"""
        if P not in self.cyc:
            seen, work = set(), list(self.phi.get(P, ()))
            r = False
            while work:
                x = work.pop()
                for y in self.strterms(x):
                    if y is P:
                        r = True
                        work = []
                        break
                    if y in self.phi and y not in seen:
                        seen.add(y)
                        work.extend(self.phi[y])
            self.cyc[P] = r
        return self.cyc[P]

    def recursive(self, v):
        return any(self.cyclic(P) for P in ([v] if v in self.phi else self.strterms(v)))

    def strterms(self, v):
        """joined values that v is built from as a string"""
        out, work = [], [v]
        while work:
            x = work.pop()
            if x.k == 'app' and x.a[0] in ('cat', 'replace', 'feat', 'uor', 'trim', 'trim_start', 'trim_end', 'slice', 'get', 'strip_prefix', 'strip_suffix',
                                           'trim_start_matches', 'trim_end_matches', 'substr', 'lower', 'upper', 'alower', 'aupper'):
                work.extend(y for y in (x.a[1:] if x.a[0] in ('cat', 'uor') else x.a[1:2]) if isinstance(y, V))
            elif x in self.phi:
                out.append(x)
        return out

    def name(self, v):
        """short description of where a text comes from"""
        n = 0
        fields = []
        while n < 60:
            n += 1
            if v.k == 'app' and v.a[0] == 'pl' and v.a[2] in self.prog.adts:
                adt = self.prog.adts[v.a[2]]
                if v.a[3] < len(adt['variants']):
                    return '%s::%s field %d' % (v.a[2].split('::')[-1], adt['variants'][v.a[3]]['name'], v.a[4])
            if v.k == 'app' and len(v.a) > 1 and isinstance(v.a[1], V):
                v = v.a[1]
                continue
            break
        return str(v)[:80]

    def alts(self, v, env=None):
        """the alternatives of string term v, as a list of piece tuples"""
        if env and env.get('bind'):
            w = subst(v, env['bind'])
            if w is not v:
                v = w
            elif not self.touches(v, env['bind']):
                env = {k: x for k, x in env.items() if k != 'bind'} or None
        if env is None and v in self.memo:
            return self.memo[v]
        if v in self.busy:
            raise Top()
        self.busy.add(v)
        try:
            r = list(dict.fromkeys(self._alts(v, env)))
        finally:
            self.busy.discard(v)
        if len(r) > 200:
            r = [(text(self.name(v)),)]
        if env is None:
            self.memo[v] = r
        self.stats['terms'] += 1
        return r

    def touches(self, v, bind):
        """does a joined value inside v depend on one of the bound values?"""
        seen, work = set(), [v]
        while work:
            x = work.pop()
            for y in subterms(x):
                if y in bind:
                    return True
                if y.k == 'sym' and y in self.phi and y not in seen:
                    seen.add(y)
                    work.extend(self.phi[y])
        return False

    def bases(self, v):
        """values of struct type of which v uses several fields: (value, struct) -> its fields"""
        use, seen, work = {}, set(), [v]
        while work:
            x = work.pop()
            for y in subterms(x):
                if is_app(y, 'pl') and y.a[2] in self.prog.adts and len(self.prog.adts[y.a[2]]['variants']) == 1 and (y.a[2], 0) in self.cells:
                    use.setdefault((y.a[1], y.a[2]), set()).add(y.a[4])
                if y.k == 'sym' and y in self.phi and y not in seen and not self.cyclic(y):
                    seen.add(y)
                    work.extend(self.phi[y])
                    if len(y.a) > 5 and y.a[2] == 'ite':
                        work.append(y.a[3])
        return [b for b, fs in use.items() if len(fs) > 1]

    def choices(self, P, env):
        """alternatives of a joined value, given the bound values"""
        if env and env.get('bind') and len(P.a) > 5 and P.a[2] == 'ite':
            c = subst(P.a[3], env['bind'])
            if c.k == 'bool':
                return [P.a[4] if c.a else P.a[5]]
        return self.phi[P]

    def _alts(self, v, env):
        if v.k == 'str':
            return [(('c', v.a),)]
        if v.k == 'char':
            return [(('c', chr(v.a)),)]
        if v.k == 'lin' or is_int(v):
            return [(('n',),)]
        if v in self.phi:
            out = []
            for x in self.choices(v, env):
                if x is v:
                    continue
                out += self.alts(x, env)
            return out
        if v.k == 'agg':
            return [(text(self.name(v)),)]
        if v.k == 'sym':
            return [(text(self.name(v)),)]
        op = v.a[0]
        a = v.a[1:]
        if op == 'feat':
            cuts = {f[1]: f[2:] for f in a[1].a if f[0] == 'cut'}
            if cuts:
                env = dict(env or {}, **{'cut': dict((env or {}).get('cut', {}), **{})})
                env['cut'].update(cuts)
            return [self.refine(ps, a[1].a) for ps in self.alts(a[0], env)]
        if op == 'slice' and env and v in env.get('cut', {}):
            pre, suf = env['cut'][v]
            out = []
            for ps in self.alts(a[0], env):
                if pre:
                    ps = self.part(ps, 'strip_prefix', (a[0], Str(pre)))
                if suf:
                    ps = self.part(ps, 'strip_suffix', (a[0], Str(suf)))
                out.append(ps)
            return out
        if op == 'cat':
            acc = [()]
            for x in a:
                xs = self.alts(x, env)
                acc = [p + q for p in acc for q in xs]
                if len(acc) > 400:
                    raise Top()
            return acc
        if op == 'replace':
            return [self.replace(ps, a[1], a[2]) for ps in self.alts(a[0], env)]
        if op == 'itoa':
            return [(('n',),)]
        if op == 'ret':
            k = self.retkey(v)
            if k in self.html_units:
                return [(('h', self.prog.bodies[k].path),)]
            return [(text(self.name(v)),)]
        if op in ('trim', 'trim_start', 'trim_end', 'trim_start_matches', 'trim_end_matches', 'trim_matches', 'substr', 'slice', 'ch'):
            return [self.part(ps, op, a) for ps in self.alts(a[0], env)]
        if op == 'uor':
            return self.opt(a[0], env) + self.alts(a[1], env)
        if op in ('lower', 'upper', 'alower', 'aupper'):
            return [tuple(p if p[0] != 'c' else ('c', p[1].lower() if 'low' in op else p[1].upper()) for p in ps) for ps in self.alts(a[0], env)]
        if op in ('concat', 'join', 'strrep'):
            x = a[0]
            if op == 'join':
                xs = self.elems(x, env)
                sep = self.alts(a[1], env) if len(a) > 1 and isinstance(a[1], V) else [()]
                xs = [p + q for p in xs for q in sep] + xs
            else:
                xs = self.alts(x, env)
            return [(('r', tuple(xs)),)]
        if op == 'pl':
            key, var, i = a[1], a[2], a[3]
            if a[0].k == 'agg' and a[0].a[0] == 'adt' and a[0].a[2] != var or a[0].k == 'menum' and all(q != var for q, _ in a[0].a[2]):
                return []           # the value has another variant: no such text
            if key == OPT and var == 1 and i == 0:
                return self.opt(a[0], env)
            if key in self.prog.adts and (key, var) in self.cells:
                out = []
                for fs in self.cells[(key, var)]:
                    out += self.alts(fs[i], None)
                return [tuple(self.origin(p, self.name(v)) for p in ps) for ps in out]
            if key is None:
                return self.tuplefield(a[0], i, env)
            return [(text(self.name(v)),)]
        if op == 'at':
            return self.elems(a[0], env)
        return [(text(self.name(v)),)]

    def origin(self, p, name):
        return p[:5] + (name,) if p[0] == 't' else p

    def retkey(self, v):
        s = v.a[1]
        return s.a[1] if s.k == 'sym' and len(s.a) > 1 else None

    def tuplefield(self, x, i, env):
        out = []
        for y in self.expand(x):
            if y.k == 'agg' and i < len(y.a[3]):
                out += self.alts(y.a[3][i], env)
            else:
                out.append((text(self.name(x)),))
        return out

    def expand(self, x, d=0):
        """concrete alternatives of a (joined) value"""
        seen, work, out = set(), [x], []
        while work:
            y = work.pop()
            if y in seen:
                continue
            seen.add(y)
            if y in self.phi:
                work.extend(self.phi[y])
            elif is_app(y, 'at') and d < 4:
                work.extend(self.items(y.a[1], d + 1))
            elif is_app(y, 'pl') and y.a[2] in self.prog.adts and (y.a[2], y.a[3]) in self.cells:
                work.extend(fs[y.a[4]] for fs in self.cells[(y.a[2], y.a[3])])
            else:
                out.append(y)
        return out

    def items(self, seq, d=0):
        """possible elements of a sequence value"""
        out = []
        for s in self.expand(seq, d):
            if s.k == 'agg' and s.a[0] in ('array', 'tuple'):
                out += s.a[3]
            elif is_app(s, 'push'):
                out += [s.a[2]] + self.items(s.a[1], d + 1) if d < 6 else [Sym('deep')]
            elif is_app(s, 'append'):
                out += self.items(s.a[1], d + 1) + self.items(s.a[2], d + 1) if d < 6 else [Sym('deep')]
            elif is_app(s, 'collect') and s.a[1] in self.phi:
                out += self.phi[s.a[1]]
            else:
                out.append(App('elem', s))
        return out

    def elems(self, seq, env):
        if is_app(seq) and seq.a[0] in ('split', 'splitn', 'lines', 'split_whitespace', 'rsplit', 'split_terminator', 'split_inclusive', 'chars', 'matches'):
            return [self.part(ps, 'elem', seq.a[1:]) for ps in self.alts(seq.a[1], env)]
        if is_app(seq, 'collect'):
            return self.alts(seq.a[1], env)
        out = []
        for x in self.items(seq):
            if is_app(x, 'elem'):
                y = x.a[1]
                if is_app(y) and y.a[0] in ('split', 'splitn', 'lines', 'chars', 'split_whitespace', 'rsplit'):
                    out += self.elems(y, env)
                else:
                    out.append((text(self.name(y)),))
            else:
                out += self.alts(x, env)
        return out

    def opt(self, o, env):
        """alternatives of the payload of an optional string"""
        if o.k == 'agg':
            return self.alts(o.a[3][0], env) if o.a[2] == 1 else []
        if o in self.phi:
            out = []
            for x in self.phi[o]:
                if x is not o:
                    out += self.opt(x, env)
            return out
        if o.k == 'app':
            op = o.a[0]
            if op in ('strip_prefix', 'strip_suffix', 'get'):
                return [self.part(ps, op, o.a[1:]) for ps in self.alts(o.a[1], env)]
            if op == 'pl' and o.a[2] in self.prog.adts and (o.a[2], o.a[3]) in self.cells:
                out = []
                for fs in self.cells[(o.a[2], o.a[3])]:
                    out += self.opt(fs[o.a[4]], env)
                return [tuple(self.origin(p, self.name(o)) for p in ps) for ps in out]
            if op in ('first', 'last', 'getat'):
                return self.elems(o.a[1], env)
            if op == 'feat':
                return self.opt(o.a[1], env)
        return [(text(self.name(o)),)]

    # ------------------------------------------------ operations on pieces
    def refine(self, ps, fs):
        out = []
        for p in ps:
            if p[0] == 't':
                lk = frozenset(f[1] for f in fs if f[0] == 'lacks' and f[1] in TRACK)
                p = ('t', p[1] | lk, p[2], p[3], p[4] | frozenset(f for f in fs if f[0] not in ('lacks', 'cut') and len(ps) == 1), p[5])
                if '&' in p[1] and p[2] == 'raw':
                    p = p[:2] + ('none',) + p[3:]
            out.append(p)
        return tuple(out)

    def replace(self, ps, pat, rep):
        if rep.k != 'str':
            rs = self.alts(rep)
            if len(rs) == 1 and len(rs[0]) == 1 and rs[0][0][0] == 'c':
                rep = Str(rs[0][0][1])
        pats = None
        if pat.k in ('str', 'char'):
            pats = [pat_str(pat).a]
        elif pat.k == 'agg' and pat.a[0] == 'array' and all(x.k == 'char' for x in pat.a[3]):
            pats = [chr(x.a) for x in pat.a[3]]
        out = []
        for p in ps:
            if p[0] == 'c':
                if pats is not None and rep.k == 'str':
                    s = p[1]
                    for q in pats:
                        s = s.replace(q, rep.a)
                    out.append(('c', s))
                else:
                    out.append(text('constant'))
            elif p[0] == 'n':
                out.append(p)
            elif p[0] == 't':
                out.append(self.rtext(p, pats, rep))
            elif p[0] == 'h':
                out.append(self.rhtml(p, pats, rep))
            else:
                out.append(('r', tuple(self.replace(x, pat, rep) for x in p[1])))
        return tuple(out)

    def rtext(self, p, pats, rep):
        _, lacks, amp, pct, feats, o = p
        rs = rep.a if rep.k == 'str' else None
        if rs is None:
            return text(o)
        for q in pats if pats is not None else [None]:
            single = q is not None and len(q) == 1
            if q == '&':
                if rs.startswith('&') and rs.endswith(';'):
                    amp = {'raw': 'ent', 'none': 'none', 'ent': 'twice', 'mixed': 'twice', 'twice': 'twice'}[amp]
                elif '&' not in rs:
                    amp = 'none' if amp in ('raw', 'none') else 'cut'
            elif rs.startswith('&') and rs.endswith(';') and single:
                amp = {'raw': 'mixed', 'none': 'ent'}.get(amp, amp)
            elif '&' in rs:
                amp = 'mixed'
            if q == ';' and amp in ('ent', 'mixed'):
                amp = 'cut'
            if q == '%':
                if rs.startswith('%'):
                    pct = {'raw': 'enc', 'none': 'none', 'enc': 'twice', 'mixed': 'twice', 'twice': 'twice'}[pct]
                elif '%' not in rs:
                    pct = 'none'
            elif '%' in rs:
                pct = {'raw': 'mixed', 'none': 'enc'}.get(pct, pct)
            add = frozenset(c for c in rs if c in TRACK)
            if single:
                lacks = (lacks | (frozenset([q]) & ALL)) - (add if not (q in lacks) else frozenset())
            else:
                lacks = lacks - add
        feats = frozenset(f for f in feats if self.keeps(f, pats, rs)) if pats else frozenset()
        return ('t', lacks, amp, pct, feats, o)

    def keeps(self, f, pats, rs):
        """does the feature survive the replacement?"""
        if any(not q or any(x.isalnum() for x in q) for q in pats):
            return False
        if f[0] == 'fold':
            return True
        if f[0] == 'nfold':
            return any(not x.isalnum() for x in rs)
        if f[0] == 'img':
            return all('/' not in q for q in pats)
        return False

    def rhtml(self, p, pats, rep):
        rs = rep.a if rep.k == 'str' else None
        if rs is None or pats is None:
            return text('output of %s after replacing unknown text' % p[1])
        for q in pats:
            if len(q) == 1 and q in '<>&"\'':
                return ('t', ALL, 'twice', 'raw', frozenset(), 'output of ' + p[1])
            for s in STATES:
                if step_str(s, q) != step_str(s, rs):
                    return text('output of %s after replacing %r by %r' % (p[1], q, rs))
        return p

    def part(self, ps, op, a):
        """a part (substring) of the text ps"""
        if len(ps) == 1:
            p = ps[0]
            if p[0] == 't':
                fs = frozenset() if op != 'x' else p[4]
                return (('t', p[1], p[2], p[3], fs, p[5]),)
            if p[0] == 'n':
                return ps
            if p[0] == 'h':
                if op in ('trim', 'trim_start', 'trim_end'):
                    return ps
                if op in ('trim_start_matches', 'trim_end_matches', 'trim_matches') and len(a) > 1:
                    c = self.patchars(a[1])
                    if c is not None and all(step_str('T', x) == 'T' and '&' not in x and ';' not in x for x in c):
                        return ps
                if op in ('strip_prefix', 'strip_suffix') and a[1].k in ('str', 'char'):
                    q = pat_str(a[1]).a
                    if step_str('T', q) == 'T' and (q.startswith('<') or q.isspace()):
                        return ps
                return (text('part of the output of ' + p[1], amp='ent'),)
            if p[0] == 'c':
                s = p[1]
                if op == 'trim':
                    return (('c', s.strip()),)
                if op == 'trim_start':
                    return (('c', s.lstrip()),)
                if op == 'trim_end':
                    return (('c', s.rstrip()),)
                if all(step_str(st, s) == st for st in STATES if st in ('T',)) and not (set(s) & TRACK):
                    return ps
                if op in ('slice', 'get') and all(is_const(x) for x in a[1:3]):
                    return (('c', s.encode()[cval(a[1]):cval(a[2])].decode('utf-8', 'replace')),)
                if op == 'strip_prefix' and a[1].k in ('str', 'char') and s.startswith(pat_str(a[1]).a):
                    return (('c', s[len(pat_str(a[1]).a):]),)
                if op == 'strip_suffix' and a[1].k in ('str', 'char') and s.endswith(pat_str(a[1]).a):
                    return (('c', s[:len(s) - len(pat_str(a[1]).a)]),)
                return (text('part of a constant', lacks=ALL - set(s)),)
        if not ps:
            return ps
        # several pieces: blanks may be trimmed from either end; anything else is one opaque text
        if op in ('trim', 'trim_start', 'trim_end'):
            return ps
        j = self.flat(ps)
        return (j,)

    def flat(self, ps):
        lacks, amp, pct = set(ALL), 'none', 'none'
        for p in ps:
            if p[0] == 'c':
                lacks -= set(p[1])
                if '&' in p[1]:
                    amp = 'ent' if amp in ('none', 'ent') else amp
                if '%' in p[1]:
                    pct = 'enc'
            elif p[0] == 't':
                lacks &= p[1]
                amp = p[2] if amp == 'none' else amp if p[2] == 'none' or p[2] == amp else 'mixed'
                pct = p[3] if pct == 'none' else pct if p[3] == 'none' or p[3] == pct else 'mixed'
            elif p[0] in ('h', 'r'):
                return text('several pieces')
        return ('t', frozenset(lacks), amp, pct, frozenset(), 'several pieces')

    def patchars(self, p):
        if p.k in ('str', 'char'):
            return [pat_str(p).a]
        if p.k == 'agg' and p.a[0] == 'array' and all(x.k == 'char' for x in p.a[3]):
            return [chr(x.a) for x in p.a[3]]
        return None


# ---------------------------------------------------------------------- the HTML tokenizer
STATES = ['T', 'LT', 'TN', 'TG', ('AN', ''), ('EQ', ''), ('DQ', ''), ('SQ', ''), ('UQ', '')]


def step(s, c):
    if s == 'T':
        return 'LT' if c == '<' else 'T'
    if s == 'LT':
        return 'TN' if c.isalpha() or c in '/!' else 'T' if c != '<' else 'LT'
    if s == 'TN':
        return 'T' if c == '>' else 'TG' if c.isspace() else 'TN'
    if s == 'TG':
        if c == '>':
            return 'T'
        if c.isspace() or c == '/':
            return 'TG'
        return ('AN', c.lower())
    k, n = s[:2]
    if k == 'AN':
        if c == '=':
            return ('EQ', n)
        if c == '>':
            return 'T'
        if c.isspace():
            return 'TG'
        return ('AN', n + c.lower())
    if k == 'EQ':
        if c == '"':
            return ('DQ', n, ('p', '')) if n in URLATTRS else ('DQ', n)
        if c == "'":
            return ('SQ', n, ('p', '')) if n in URLATTRS else ('SQ', n)
        if c == '>':
            return 'T'
        if c.isspace():
            return s
        return ('UQ', n)
    if k in ('DQ', 'SQ'):
        if c == ('"' if k == 'DQ' else "'"):
            return 'TG'
        return s if len(s) == 2 else (k, n, urlstep(s[2], c))
    if k == 'UQ':
        return 'T' if c == '>' else 'TG' if c.isspace() else s
    return s


# what is known of the address so far: ('p', constant), ('s', features, blanks excluded) text without a colon, ('dc', constant) content of a
# data address, ('bad', why), ('ok',)
def urlstep(u, c):
    if u[0] == 'p':
        if c == ':':
            sc = u[1].strip().lower()
            return ('bad', 'the scheme %r' % sc) if sc in ('javascript', 'vbscript') else ('dc', '') if sc == 'data' else ('ok',)
        return ('ok',) if c in '/?#' else ('p', u[1] + c)
    if u[0] == 's':
        if c == ':':
            return urlscheme(u)
        return ('ok',) if c in '/?#' else ('s', frozenset(), False)
    if u[0] == 'dc':
        return ('dc', u[1] + c)
    return u


def urlscheme(u):
    folds = [f[1] for f in u[1] if f[0] == 'fold']
    if not (('nfold', 'javascript') in u[1] or any('javascript' not in f for f in folds)):
        return ('bad', 'a scheme that may be "javascript"')
    if not u[2]:
        return ('bad', 'a scheme that may contain blanks or control characters')
    if ('nfold', 'data') in u[1] or any('data' not in f for f in folds):
        return ('ok',)
    return ('dc', '')


def step_str(s, t):
    for c in t:
        s = step(s, c)
    return s


class Emit:
    """runs the output of a unit through the tokenizer"""

    def __init__(self, S):
        self.S = S
        self.tab = {}
        self.changed = False
        self.problems = {}      # (kind, key) -> message
        self.holes = set()
        self.envmemo = {}
        self.nenv = 0
        self.urls = set()

    def problem(self, kind, key, msg):
        self.problems.setdefault((kind, key), msg)

    def unit(self, v):
        while True:
            self.changed = False
            self.seen = set()
            r = self.run(v, 'T', '')
            if not self.changed:
                return r

    def run(self, v, s, ctx, env=None):
        """states after v, started in state s"""
        if is_app(v, 'feat') and (v.a[1] in self.S.phi or is_app(v.a[1], 'cat')) and self.S.recursive(v.a[1]):
            v = v.a[1]
        if v in self.S.phi:
            if self.S.cyclic(v):
                env = None
            k = (v, s, env['id'] if env else None)
            if k in self.seen:
                return self.tab.get(k, frozenset())
            self.seen.add(k)
            r = frozenset()
            for x in self.S.choices(v, env):
                r |= self.run(x, s, ctx, env)
            if r - self.tab.get(k, frozenset()):
                self.tab[k] = self.tab.get(k, frozenset()) | r
                self.changed = True
            return self.tab.get(k, frozenset())
        if is_app(v, 'cat'):
            xs = list(v.a[1:])
            if env is None:
                # the head of the text does not depend on the fields of a structure: only the rest is read once per structure value
                n = 0
                while n < len(xs) and (xs[n].k == 'str' or xs[n] in self.S.phi and self.S.cyclic(xs[n])):
                    n += 1
                cur = self.seq(xs[:n], frozenset([s]), ctx, None)
                rest = App('cat', *xs[n:]) if len(xs) > n else None
                if rest is None:
                    return cur
                for x in xs[:n]:
                    if x.k == 'str':
                        ctx = (ctx + x.a)[-60:]
                envs = self.envs(rest)
                out = frozenset()
                for e in envs:
                    out |= self.seq(xs[n:], cur, ctx, e)
                return out
            return self.seq(xs, frozenset([s]), ctx, env)
        if env and is_app(v, 'feat'):
            pass
        try:
            alts = self.S.alts(v, {'bind': env['bind']} if env else None)
        except Top:
            alts = [(text(self.S.name(v)),)]
        out = frozenset()
        for ps in alts:
            out |= self.pieces(ps, frozenset([s]), ctx)
        return out

    def seq(self, xs, cur, ctx, env):
        for x in xs:
            nxt = frozenset()
            for c in cur:
                nxt |= self.run(x, c, ctx, env)
            cur = nxt
            if x.k == 'str':
                ctx = (ctx + x.a)[-60:]
        return cur

    def envs(self, v):
        if v not in self.envmemo:
            r = [None]
            for base, key in self.S.bases(v)[:1]:
                r = []
                for fs in self.S.cells[(key, 0)]:
                    self.nenv += 1
                    r.append({'bind': {base: Agg('adt', key, 0, fs)}, 'id': (base, key, fs)})
            self.envmemo[v] = r
        return self.envmemo[v]

    def pieces(self, ps, cur, ctx):
        for p in ps:
            nxt = set()
            for s in cur:
                nxt |= self.piece(p, s, ctx)
            cur = frozenset(nxt)
            if p[0] == 'c':
                ctx = (ctx + p[1])[-60:]
        return cur

    def piece(self, p, s, ctx):
        k = p[0]
        if k == 'c':
            if '<script' in p[1].lower() or '<style' in p[1].lower():
                self.problem('C01', 'raw:' + p[1][:30], 'the output contains a raw text element: %r' % p[1][:60])
            return {self.urlbad(step_str(s, p[1]), ctx + p[1])}
        if k == 'n':
            self.holes.add(('number', s))
            if s == 'LT':
                self.problem('C01', 'num:%s' % (s,), 'a number follows "<" in the output (after %r)' % ctx)
            return {self.urltext(s, text('number', lacks=ALL, amp='none'), ctx)}
        if k == 'h':
            self.holes.add((p[1], s))
            if s != 'T':
                self.problem('C01', 'html:%s:%s' % (s, ctx[-20:]), 'rendered HTML is put inside a tag or attribute (after %r)' % ctx)
            return {'T'} if s == 'T' else {s}
        if k == 'r':
            cur = {s}
            while True:
                n = set(cur)
                for x in p[1]:
                    n |= self.pieces(x, frozenset(cur), ctx)
                if n == cur:
                    return cur
                cur = n
        _, lacks, amp, pct, feats, o = p
        self.holes.add((o, s))
        where = 'text of %s is put into the output after %r' % (o, ctx)
        key = '%s:%s' % (o, ctx[-24:])
        st = s if isinstance(s, str) else s[0]
        if st == 'T':
            for c in '<>':
                if c not in lacks:
                    self.problem('C01', key + c, '%s without escaping %r' % (where, c))
        elif st in ('DQ', 'SQ'):
            q = '"' if st == 'DQ' else "'"
            for c in q + '<>':
                if c not in lacks:
                    self.problem('C01', key + c, '%s, inside attribute %s, without escaping %r' % (where, s[1], c))
            if s[1].startswith('on') or s[1] == 'style' or s[1] == 'srcdoc':
                self.problem('C01', key + s[1], '%s, inside attribute %s' % (where, s[1]))
        else:
            self.problem('C01', key, '%s, inside a tag and outside a quoted attribute value' % where)
        if amp in ('raw', 'mixed'):
            self.problem('C14', key + '&', '%s without escaping "&"' % where)
        if amp == 'twice':
            self.problem('C14', key + '&&', '%s, escaped twice' % where)
        if amp == 'cut':
            self.problem('C14', key + '&;', '%s with its entities damaged' % where)
        if pct == 'twice':
            self.problem('C14', key + '%%', '%s, percent-encoded twice' % where)
        return {self.urltext(s, p, ctx)}

    def urlbad(self, s, ctx):
        if isinstance(s, tuple) and len(s) > 2 and s[2][0] == 'bad':
            self.problem('C02', 'scheme:%s:%s' % (s[1], ctx[-24:]), 'the %s attribute after %r may have %s' % (s[1], ctx[-60:], s[2][1]))
            return s[:2] + (('ok',),)
        return s

    def urltext(self, s, p, ctx):
        """a text is put into an address"""
        if not (isinstance(s, tuple) and len(s) > 2):
            return s
        u = s[2]
        _, lacks, amp, pct, feats, o = p
        key = 'url:%s:%s:%s' % (s[1], o, ctx[-24:])
        self.urls.add((o, s[1], u))
        if u[0] == 'ok':
            return s
        if amp in ('raw', 'mixed', 'cut'):
            self.problem('C02', key + ':amp', 'text of %s in attribute %s (after %r) may spell a scheme with character references' % (o, s[1], ctx))
        if u[0] == 'dc':
            if not (u[1].lower().startswith('image/') or u[1] == '' and ('img',) in feats):
                self.problem('C02', key + ':data', 'text of %s in attribute %s (after %r) may make a data: address that is not an image' % (o, s[1], ctx))
            return s[:2] + (('ok',),)
        if ':' not in lacks:
            self.problem('C02', key + ':any', 'text of %s at the start of attribute %s (after %r) may carry any scheme' % (o, s[1], ctx))
            return s[:2] + (('ok',),)
        if u == ('p', ''):
            return s[:2] + (('s', feats, all(c in lacks for c in ' \t\n\r\x01')),)
        return s[:2] + (('s', frozenset(), False),)


class Html:
    def __init__(self, ctx):
        g = self.g = gfmprops.gfm(ctx)
        self.S = Solver(g)
        self.E = Emit(self.S)
        self.bad_end = []
        n = 0
        for k in self.S.html_units:
            for v in {e[3] for e in g.logs[k] if e[0] == 'ret'}:
                n += 1
                ends = self.E.unit(v)
                if ends - {'T'}:
                    self.bad_end.append((g.prog.bodies[k].path, ends - {'T'}))
        self.rets = n


def html(ctx):
    if 'html' not in ctx.cache:
        ctx.cache['html'] = Html(ctx)
    return ctx.cache['html']


def result(ctx, kind, rule):
    h = html(ctx)
    R = Result()
    gfmprops.anchors(R, h.g)
    if not h.S.html_units or not h.rets:
        R.bad('anchor:html', 'no function of the renderer returns the output as a string: the analysis lost its anchor')
    for (k, key), msg in sorted(h.E.problems.items(), key=str):
        if k == kind:
            R.bad(key, msg)
    if kind == 'C01':
        for path, ends in h.bad_end:
            R.bad('end:' + path, 'the output of %s may end inside a tag or attribute (%s)' % (path, sorted(map(str, ends))))
    R.obligations = len(h.E.holes)
    R.cov = dict(h.g.coverage(), insertion_points=len(h.E.holes), string_terms=h.S.stats['terms'], joins=len(h.S.phi), rule=rule,
                 html_functions=[h.g.prog.bodies[k].path for k in h.S.html_units])
    R.assume = ['std functions behave as modelled in analysis/models.py', 'functions returning the rendered document are assumed safe where they call '
                'each other recursively and shown safe themselves (induction on the recursion)']
    return R


def injection(ctx):
    return result(ctx, 'C01', 'text of the document never changes the state of an HTML tokenizer reading the output: in text it is free of < and >, in a quoted '
                              'attribute value free of the quote, and it never stands elsewhere in a tag, in an event handler or in a style')


def once(ctx):
    return result(ctx, 'C14', 'every text inserted into the output has had its "&" escaped exactly once, before any other entity is introduced, and percent '
                              'encoding is applied once')


def schemes(ctx):
    R = result(ctx, 'C02', 'the address in every URL attribute of the output starts with a scheme fixed by the program, or with a checked one: never '
                           '"javascript" in any case, "data" only for images, no blanks or control characters in it; or it has no scheme at all')
    h = html(ctx)
    R.cov.update(address_insertions=len(h.E.urls), structures_enumerated=h.E.nenv)
    R.obligations = len(h.E.urls)
    if not h.E.urls:
        R.bad('anchor:urls', 'no text reaches a URL attribute of the output: the analysis lost its anchor')
    return R
