"""C03 / C04 / C15: panic freedom, termination and text preservation of the renderer."""
import purity, gfmrun
from val import *
from dom import *
from run import Result


def cut_of(prog, adts):
    pass


def token_key(prog, lexkey):
    """the ADT of the elements of the vector a lexing function returns"""
    b = prog.bodies[lexkey]
    t = b.lty(0)
    if t.k == 'adt' and t.key.endswith('Vec'):
        for a in t.args():
            if hasattr(a, 'peel') and (a.peel() or a).k == 'adt':
                return (a.peel() or a).key
    return None


def error_keys(prog, tok):
    """error types of functions returning Result<Token, E>"""
    r = set()
    for b in prog.bodies.values():
        if b.kind != 'fn' and b.kind != 'closure':
            continue
        t = b.lty(0)
        if t is not None and t.k == 'adt' and t.key == RES:
            ar = [x.peel() or x for x in t.args() if hasattr(x, 'peel')]
            if len(ar) == 2 and ar[0].k == 'adt' and ar[0].key == tok and ar[1].k == 'adt':
                r.add(ar[1].key)
    return r


class Gfm:
    """one analysis of the whole renderer, shared by the checks of a run"""

    def __init__(self, ctx):
        p = self.prog = ctx.prog
        self.roots = purity.render_roots(p)
        cut, g = gfmrun.cutset(p, self.roots)
        self.units = list(dict.fromkeys(cut + list(self.roots)))
        self.lex = [k for k in self.units if token_key(p, k)]
        self.tok = token_key(p, self.lex[0]) if self.lex else None
        sites = ({self.tok} | error_keys(p, self.tok)) if self.tok else set()
        self.logs = {}
        self.run = gfmrun.Run(p, self.roots, {'maxheads': 10, 'sitekeys': sites, 'feats': True, 'balance': True})
        self.eng = self.run.eng
        for k in self.units:
            self.eng.opts['source'] = self.source(k)
            self.logs[k] = self.run.unit(k)

    def source(self, k):
        b = self.prog.bodies[k]
        for i in range(1, b.argc + 1):
            t = b.lty(i)
            if t.k == 'ref' and (t.pointee().s == 'str'):
                return Sym('arg', k, i)
        return None

    def toktype(self, ty):
        t = ty.peel() or ty
        if t.k != 'adt' or t.key != 'alloc::vec::Vec':
            return False
        a = t.arg(0)
        a = a.peel() or a
        return a.k == 'adt' and a.key == self.tok

    def coverage(self):
        e = self.eng
        return {'functions_analysed': len(e.visited), 'units': [self.prog.bodies[k].path for k in self.units],
                'abstract_steps': e.steps, 'blocks_reached': len(e.blocks_seen),
                'unmodelled_library_functions': sorted(e.models.unknown)}


def gfm(ctx):
    if 'gfm' not in ctx.cache:
        ctx.cache['gfm'] = Gfm(ctx)
    return ctx.cache['gfm']


def anchors(R, g):
    if not g.lex:
        R.bad('anchor:lex', 'no recursive function from text to a vector of tokens found: the analysis lost its anchor')
    reach, _ = purity.reach(g.prog, g.roots)
    missed = [g.prog.bodies[k].path for k in reach if k not in g.eng.visited and g.prog.bodies[k].kind in ('fn', 'closure')]
    return missed


def panics(ctx):
    g = gfm(ctx)
    R = Result()
    anchors(R, g)
    kinds = {}
    for k, log in g.logs.items():
        for e in log:
            if e[0] != 'ob':
                continue
            R.obligations += 1
            kinds[e[1]] = kinds.get(e[1], 0) + 1
            if not e[2]:
                R.bad('%s:%s:%s' % (e[1], e[4][0], e[3][:80]), '%s at %s in %s: %s (reached as %s)' % (e[1], e[4][1], e[4][0], e[3][:300], e[5]))
    for f in sorted(g.eng.models.unknown):
        pass
    R.cov = dict(g.coverage(), obligations_by_kind=kinds, recursion_cut=[g.prog.bodies[k].path for k in g.run.cut],
                 rule='every slice, index, unwrap, arithmetic and assertion reachable from the renderer is shown safe for all inputs')
    R.assume = ['std functions behave as modelled in analysis/models.py', 'strings are shorter than 2^62 bytes',
                'stack depth and allocation failure are not considered']
    return R


def substr_base(v):
    """the value v is a substring of (through length non-increasing operations)"""
    n = 0
    while v.k == 'app' and n < 40:
        n += 1
        if v.a[0] in SUBSTR or v.a[0] == 'slice':
            v = v.a[1]
        elif v.a[0] == 'uor' and v.a[2].k == 'str' and v.a[2].a == '' and is_app(v.a[1]) and v.a[1].a[0] in ('get', 'strip_prefix', 'strip_suffix'):
            v = v.a[1].a[1]
        else:
            break
    return v


def termination(ctx):
    g = gfm(ctx)
    R = Result()
    anchors(R, g)
    loops = 0
    for k, log in g.logs.items():
        for e in log:
            if e[0] == 'loop':
                loops += 1
                if not e[1]:
                    R.bad('loop:%s' % e[2][0], 'loop at %s in %s: %s (reached as %s)' % (e[2][1], e[2][0], e[4], e[3]))
    rec = recursion(R, g)
    R.obligations = loops + rec
    R.cov = dict(g.coverage(), loops=loops, recursive_calls=rec,
                 rule='every way round a loop strictly advances a bounded quantity; every recursive call is on strictly shorter text '
                      'or on a token nested in the current one')
    R.assume = ['iterators of std terminate', 'strings are shorter than 2^62 bytes', 'stack depth is not considered']
    return R


def nested_tokens(g, log):
    """token aggregates stored inside other tokens, as (variant, fields)"""
    phi = {}
    for e in log:
        if e[0] == 'phi':
            phi.setdefault(e[1], []).append(e[2])
    out = set()
    for e in log:
        if e[0] == 'cell' and e[1] == g.tok:
            seen, work = set(), list(e[3])
            while work:
                v = work.pop()
                if v in seen:
                    continue
                seen.add(v)
                for x in subterms(v):
                    if x.k == 'agg' and x.a[0] == 'adt' and x.a[1] == g.tok:
                        out.add(x)
                    for y in phi.get(x, ()):
                        work.append(y)
    return out


def recursion(R, g):
    p = g.prog
    n = 0
    reparsed = {}
    for k, log in g.logs.items():
        src = g.source(k)
        for e in log:
            if e[0] != 'arg':
                continue
            callee, args, where = e[1], e[2], e[3]
            n += 1
            cs = g.source(callee)
            name = '%s -> %s' % (p.bodies[k].path, p.bodies[callee].path)
            if src is not None and cs is not None:
                i = cs.a[2] - 1
                # the same text may be handed on once (render -> lex), but not around a cycle
                if g.eng.shortness(e[5][i]) != 'lt' and not (args[i] is src and not cycles(g, callee, k)):
                    R.bad('rec:%s:%s' % (name, where[0]), '%s at %s: the text of the recursive call is not shown to be shorter than the text of the caller (%s)' %
                          (name, where[1], args[i]))
            elif src is None and cs is not None:
                # tokens -> text
                v = args[cs.a[2] - 1]
                alts = expand(g, log, v)
                for v in alts:
                    b = substr_base(v)
                    path = cellpath(b, g)
                    if path is None:
                        if b.k == 'str':
                            continue
                        R.bad('rec:%s' % name, '%s at %s: text rendered again does not come from a token (%s)' % (name, where[1], b))
                    else:
                        reparsed.setdefault(path, where)
            elif cs is None:
                # nested tokens: anything but the caller's own list
                v = args[0]
                own = Sym('arg', k, 1)
                for v in expand(g, log, v):
                    x = v
                    if x.k == 'agg' and x.a[0] == 'array' and len(x.a[3]) == 1:
                        x = x.a[3][0]
                    if src is not None:
                        if not is_app(x, 'ret'):
                            R.bad('rec:%s' % name, '%s at %s: token list of unknown origin (%s)' % (name, where[1], x))
                        continue
                    if cellpath(x, g) is None:
                        R.bad('rec:%s' % name, '%s at %s: the tokens of the recursive call are not nested in a token of the caller (%s)' % (name, where[1], x))
    # text that is rendered again is shorter than the text its token was lexed from
    for k in g.lex:
        log = g.logs[k]
        verdict = {}
        for e in log:
            if e[0] == 'cell' and e[1] == g.tok:
                for i, f in enumerate(e[3]):
                    o = g.eng.shortness((e[6] or (None,) * 9)[i])
                    key = (e[2], i, f)
                    verdict[key] = worst(verdict.get(key, 'lt'), o)
                    for path, where in reparsed.items():
                        if path == ((e[2], i),):
                            n += 1
                            if o != 'lt':
                                R.bad('rec:cell:%s' % (path,), 'token built at %s holds text that is rendered again at %s but is not shown to be shorter than the '
                                      'text it was lexed from' % (e[4][1], where[1]))
                        elif path[-1] == (e[2], i) and len(path) > 1:
                            n += 1
                            if o is None:
                                R.bad('rec:cell:%s' % (path,), 'token built at %s holds text rendered again at %s without a bound on its length' % (e[4][1], where[1]))
        nested = nested_tokens(g, log)
        for path in reparsed:
            if len(path) > 1:
                for x in nested:
                    if x.a[2] == path[-1][0]:
                        n += 1
                        if verdict.get((x.a[2], path[-1][1], x.a[3][path[-1][1]])) != 'lt':
                            R.bad('rec:nested', 'a token nested in another one holds text that is rendered again but is not shown to be shorter than the source')
    return n


def worst(a, b):
    o = {'lt': 2, 'le': 1, None: 0}
    return a if o[a] < o[b] else b


def cycles(g, a, b):
    """does a reach b in the call graph between units?"""
    seen, work = set(), [a]
    while work:
        x = work.pop()
        for e in g.logs.get(x, ()):
            if e[0] == 'arg' and e[1] not in seen and g.source(e[1]) is not None and g.source(x) is not None:
                seen.add(e[1])
                work.append(e[1])
    return b in seen


def expand(g, log, v):
    """alternatives of a joined value"""
    phi = {}
    for e in log:
        if e[0] == 'phi':
            phi.setdefault(e[1], []).append(e[2])
    out, seen, work = [], set(), [v]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        b = substr_base(x)
        if b in phi:
            work.extend(phi[b])
        else:
            out.append(x)
    return out


def cellpath(v, g):
    """((variant, field), ...) of token payload projections from the unit's token list, outermost first"""
    path = []
    n = 0
    while n < 60:
        n += 1
        if v.k == 'sym':
            return tuple(reversed(path)) if v.a[0] == 'arg' and path else None
        if v.k != 'app':
            return None
        op = v.a[0]
        if op == 'pl' and v.a[2] == g.tok:
            path.append((v.a[3], v.a[4]))
            v = v.a[1]
        elif op in ('pl', 'at', 'elts', 'chars', 'slice', 'field', 'first', 'last'):
            v = v.a[1]
        else:
            return None
    return None


def isblank(s, extra='\\'):
    return all(c.isspace() or c in extra for c in s)


def text(ctx):
    """C15: plain text tokens are exactly the text consumed; the whole input is consumed"""
    g = gfm(ctx)
    R = Result()
    anchors(R, g)
    ends = toks = rounds = 0
    for k in g.lex:
        src = g.source(k)
        for e in g.logs[k]:
            if e[0] == 'curend':
                ends += 1
                if not e[1]:
                    R.bad('end', '%s may stop before the end of its input (cursor %s at %s)' % (g.prog.bodies[k].path, e[3][1], e[2][1]))
            elif e[0] == 'round':
                rounds += 1
                if not e[1]:
                    R.bad('round', '%s at %s: a round that reads a token appends %s tokens to the result' % (g.prog.bodies[k].path, e[2][1], e[3]))
            elif e[0] == 'shrink' and g.toktype(e[2]):
                R.bad('shrink:%s' % e[1], '%s at %s: %s may take tokens out of the result or change them' % (g.prog.bodies[k].path, e[3][1], e[1]))
            elif e[0] == 'ret':
                v = e[2].norm(e[3])
                if v.k == 'app' and v.a[0] not in ('push', 'append', 'ret'):
                    R.bad('result:%s' % v.a[0], '%s returns %s, not the tokens in the order they were read' % (g.prog.bodies[k].path, v))
            elif e[0] == 'tok':
                v, entry, (s, cur), st, where = e[1:]
                v = st.norm(v)
                if v.k == 'agg' and v.a[1] == g.tok and len(v.a[3]) == 1 and g.prog.adts[g.tok]['variants'][v.a[2]]['name'] == 'Plaintext':
                    toks += 1
                    why = gap(st, s, entry, cur, st.norm(v.a[3][0]))
                    if why:
                        R.bad('text:%s' % why[0], '%s: plain text token %s made while the cursor moved from %s to %s: %s' %
                              (g.prog.bodies[k].path, v, entry, cur, why[1]))
    if not ends:
        R.bad('anchor:end', 'no cursor over the input found in the lexing function')
    if not toks:
        R.bad('anchor:tok', 'no plain text token found in the lexing function')
    if not rounds:
        R.bad('anchor:round', 'no loop that reads tokens found in the lexing function')
    R.obligations = ends + toks + rounds
    R.cov = dict(g.coverage(), token_states=toks, exits=ends, rounds=rounds,
                 rule='every round of the lexing loop appends its token to the result and nothing is taken out of it again; '
                      'every plain text token equals source[entry..exit] of the cursor movement that made it, except an escaping backslash or leading blanks; '
                      'lexing ends only with the cursor at the end of the input')
    R.assume = ['std functions behave as modelled in analysis/models.py']
    return R


def eqz(st, a, b):
    return a is b or st.eqzero(st.lnorm(lsub(a, b)))


def charat(st, src, i):
    f = st.vs.get(Ch(src, i))
    if f is None:
        for x, f2 in st.vs.items():
            if is_app(x, 'ch') and x.a[1] is src and f2[0] and eqz(st, x.a[2], i):
                return f2
    return f


def gap(st, src, a, z, t):
    """None if text t is src[a..z] up to an escaping backslash / leading blanks"""
    if t.k == 'str':
        off = a
        for ch in t.a:
            f = charat(st, src, off)
            if not (f and f[0] and f[1] == frozenset([ch])):
                return ('const', 'its text %r is not shown to be the text consumed' % t.a)
            off = ladd(off, Int(blen(ch)))
        return None if eqz(st, off, z) else ('tail', 'text after %r is lost' % t.a)
    if is_app(t, 'ch') and t.a[1] is src:
        b, e = t.a[2], Adv(src, t.a[2])
        f = charat(st, src, b)
        if f and f[0] and all(blen(x) == 1 for x in f[1]):
            e = ladd(b, Int(1))
    elif is_app(t, 'slice') and t.a[1] is src:
        b, e = t.a[2], t.a[3]
    else:
        return ('shape', 'its text is not a part of the source')
    if not eqz(st, e, z) and not eqz(st, Adv(src, b), z if is_app(t, 'ch') else Int(-1)):
        return ('tail', 'source text between %s and %s is lost' % (e, z))
    if eqz(st, b, a):
        return None
    f = st.vs.get(Slice(src, a, b))
    if f and f[0] and all(isblank(x, '') for x in f[1]):
        return None
    f = charat(st, src, a)
    if f and f[0] and all(x == '\\' for x in f[1]) and eqz(st, b, ladd(a, Int(1))):
        return None
    return ('head', 'source text between %s and %s is lost' % (a, b))


def balance(ctx):
    """C12: as many end tags as start tags of every element"""
    g = gfm(ctx)
    R = Result()
    anchors(R, g)
    n = m = h = 0
    for k in g.units:
        b = g.prog.bodies[k]
        if not b.lty(0).s.endswith('String'):
            continue
        for e in g.logs[k]:
            if e[0] == 'ret':
                n += 1
                why = g.eng.balanced(e[2], e[3])
                if why:
                    R.bad('return:%s:%s' % (b.path, why[:60]), '%s: the page it returns: %s' % (b.path, why))
    for k in g.units:
        for e in g.logs[k]:
            if e[0] == 'balance':
                m += 1
                if e[4]:
                    R.bad('token:%s:%s' % (e[2], e[3]), '%s at %s: markup stored in a token: %s' % (e[5][0], e[5][1], e[4]))
            elif e[0] == 'range' and g.prog.adts[e[1]]['variants'][e[2]]['name'] in ('Header', 'Heading'):
                h += 1
                if not all(e[4]):
                    R.bad('level:%s' % e[5][0], '%s at %s: the heading level %s is not shown to lie between 1 and 6' % (e[5][0], e[5][1], e[6]))
    if not n:
        R.bad('anchor:html', 'no function returning the page found')
    R.obligations = n + m + h
    R.cov = dict(g.coverage(), returns=n, markup_in_tokens=m, heading_levels=h, joins=len(g.eng.balall),
                 rule='the affine count of start tags minus end tags of every element is zero wherever the renderer returns markup or stores it in a token')
    R.assume = ['std functions behave as modelled in analysis/models.py', 'document text holds no tags (C01)']
    return R


def content(ctx):
    """C13: the text of every token is in the page"""
    p = ctx.prog
    roots = purity.render_roots(p)
    cut, _ = gfmrun.cutset(p, roots)
    units = list(dict.fromkeys(cut + list(roots)))
    lex = [k for k in units if token_key(p, k)]
    R = Result()
    tok = token_key(p, lex[0]) if lex else None
    if tok is None:
        R.bad('anchor:lex', 'no recursive function from text to a vector of tokens found: the analysis lost its anchor')
        return R
    marks = {(tok, i): m for i, v in enumerate(p.adts[tok]['variants']) for n, m in (('LineBreak', '<br'), ('HorizontalRule', '<hr')) if v['name'] == n}
    urls = {k for k, a in p.adts.items() if a.get('local') and a['kind'] == 'struct' and any(f['name'] == 'scheme' for f in a['variants'][0]['fields'])}
    run = gfmrun.Run(p, roots, {'maxheads': 10, 'content': True, 'token': tok, 'marks': marks, 'urls': urls, 'cdebug': ctx.cache.get('cdebug')})
    eng = run.eng
    n = 0
    for k in units:
        b = p.bodies[k]
        if not b.lty(0).s.endswith('String'):
            continue
        log = run.unit(k)
        miss = [e for e in log if e[0] == 'miss']
        for e in log:
            if e[0] != 'ret':
                continue
            st, v = e[2], e[3]
            S = eng.cont(st, v)
            for i in range(1, b.argc + 1):
                a = Sym('arg', k, i)
                n += 1
                if not eng.rendered(st, a, S, b.lty(i)):
                    ws = sorted({'%s at %s: a round of the loop may leave out its element (kind: %s)' % (m[2][0], m[2][1], min(m[4] or ['an element'], key=len)) for m in miss})
                    R.bad('content:%s' % b.path, '%s: the page it returns is not shown to contain the whole of its argument %d; %s' % (b.path, i, '; '.join(ws)))
    if not n:
        R.bad('anchor:html', 'no function returning the page found')
    R.obligations = n + sum({l: m for l, m in eng.shown}.values())
    R.cov = {'functions_analysed': len(eng.visited), 'units': [p.bodies[k].path for k in units], 'abstract_steps': eng.steps,
             'loops_over_elements': {l: '%d rounds' % m for l, m in eng.shown}, 'token_variants': len(p.adts[tok]['variants']),
             'rule': 'on every path, the page returned contains (up to punctuation) every text, address and nested element of every token it is made from'}
    R.assume = ['std functions behave as modelled in analysis/models.py']
    return R
