"""C05: the renderer is a pure function of its input (call-graph effect analysis over MIR)."""
from run import Result

DENY = ('std::fs', 'std::env', 'std::io', 'std::net', 'std::process', 'std::time', 'std::thread', 'std::os', 'std::sys', 'std::random',
        'core::arch', 'std::backtrace', 'core::sync::atomic', 'std::sync::atomic', 'std::sync::OnceLock', 'std::sync::Mutex', 'std::sync::RwLock', 'std::arch',
        'std::panic::set_hook', 'std::panic::take_hook', 'std::ptr::write', 'core::intrinsics', 'std::hash::RandomState', 'std::collections::hash_map::RandomState')
DENY_EXACT_SUB = ('Location::caller', 'RandomState', 'as_ptr', 'as_mut_ptr', 'LocalKey', 'fmt::Pointer', 'expose_provenance', '::addr')
ITER = ('::iter', '::iter_mut', '::keys', '::values', '::values_mut', '::drain', '::retain', '::into_iter', '::into_keys', '::into_values', '::extract_if')
LOGOK = ('log::max_level', 'log::__private_api', 'log::logger', 'log::Level', 'log::LevelFilter')
INTERIOR = ('Atomic', 'Cell<', 'Mutex', 'RwLock', 'OnceLock', 'OnceCell', 'UnsafeCell', 'LocalKey')
WS = ('gfm', 'smd', 'smd_core')


def consts(x, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'k' and isinstance(x[1], dict):
            out.append(x[1])
        else:
            for y in x:
                consts(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            consts(y, out)


def callee_keys(ty):
    r = ty.raw.get('res')
    ks = []
    if r and r.get('key'):
        ks.append(r['key'])
    if ty.raw.get('key'):
        ks.append(ty.raw['key'])
    return ks


def reach(prog, roots):
    """bodies reachable from roots: direct calls, referenced fn items and closures, and trait
    implementations in the workspace of any type mentioned (over-approximation for fmt/drop)."""
    seen, work, via = {}, list(roots), {}
    for r in roots:
        seen[r] = None
    ext = {}
    while work:
        k = work.pop()
        b = prog.bodies[k]
        cs = []
        for bo in [b] + b.promoted:
            for blk in bo.blocks:
                if blk.get('cleanup'):
                    continue
                consts(blk['st'], cs)
                consts(blk['t'], cs)
                for s in blk['st']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure':
                        add(prog, s[2][1][1], k, seen, work)
        for c in cs:
            ty = b.crate.ty(c['ty'])
            if ty.k == 'fndef':
                hit = False
                for kk in callee_keys(ty):
                    if kk in prog.bodies:
                        add(prog, kk, k, seen, work)
                        hit = True
                        break
                if not hit:
                    ext.setdefault(ty.raw.get('path') or ty.s, []).append((k, ty))
                    # generic instantiations may call back into workspace impls of the type arguments
                    for a in ty.args():
                        if hasattr(a, 'peel'):
                            add_impls(prog, a, k, seen, work)
            elif ty.k == 'closure' and ty.key in prog.bodies:
                add(prog, ty.key, k, seen, work)
            if c.get('item') and c['item'] in prog.bodies:
                add(prog, c['item'], k, seen, work)
            if isinstance(c.get('v'), str) and c['k'] in ('static', 'memref') and c['v'] in prog.bodies:
                add(prog, c['v'], k, seen, work)
    return seen, ext


def add(prog, key, frm, seen, work):
    if key in prog.bodies and key not in seen:
        seen[key] = frm
        work.append(key)


def add_impls(prog, ty, frm, seen, work):
    t = ty.peel() or ty
    if t.k == 'closure':
        add(prog, t.key, frm, seen, work)
    if t.k == 'adt':
        for im, c in prog.impls:
            it = c.ty(im['ty']) if isinstance(im['ty'], int) else None
            if it is not None and it.k == 'adt' and it.key == t.key:
                for m in im['methods']:
                    add(prog, m[1], frm, seen, work)
        for a in t.args():
            if hasattr(a, 'peel') and a is not ty:
                add_impls(prog, a, frm, seen, work)


def chain(seen, k, prog):
    r = []
    while k is not None and len(r) < 10:
        r.append(prog.bodies[k].path)
        k = seen.get(k)
    return ' <- '.join(r)


def render_roots(prog):
    rs = [k for k, b in prog.bodies.items() if b.crate.name == 'gfm' and b.raw.get('exported') and b.kind == 'fn']
    return rs


def check(ctx):
    p = ctx.prog
    R = Result()
    roots = render_roots(p)
    if not any(p.bodies[k].path.endswith('Parser::render') for k in roots):
        R.bad('anchor', 'public entry point gfm::Parser::render not found')
    seen, ext = reach(p, roots)
    n = 0
    for path, sites in sorted(ext.items()):
        for k, ty in sites:
            n += 1
            crate = path.lstrip('<&').split('::')[0]
            why = None
            rp = (ty.raw.get('res') or {}).get('path') or path
            for q in (path, rp):
                if q.startswith(DENY) or any(('<' + d) in q for d in ('std::fs', 'std::io', 'std::net', 'std::env', 'std::process', 'std::time')):
                    why = 'has an effect outside its arguments'
                if any(s in q for s in DENY_EXACT_SUB) and 'is_char_boundary' not in q:
                    why = 'depends on addresses, hashing seeds or hidden state'
                if ('HashMap' in q or 'HashSet' in q or 'hash::map' in q or 'hash_map' in q or 'hash_set' in q) and q.endswith(ITER):
                    why = 'iterates a randomly seeded hash table'
            if why is None and any('HashMap<' in str(a) or 'HashSet<' in str(a) for a in ty.args()) and ('Iterator' in path):
                why = 'iterates a randomly seeded hash table'
            full = ty.raw.get('key') or path
            kc = full.split('::')[0]
            if why is None and kc not in ('core', 'alloc', 'std') + WS and not path.startswith(LOGOK):
                if kc == 'log':
                    why = 'uses the logger beyond emitting records'
                elif crate not in ('core', 'alloc', 'std'):
                    why = 'calls into another crate whose effects are unknown'
            if why:
                R.bad('effect:%s:%s' % (p.bodies[k].path, path), '%s calls `%s`, which %s; reachable as %s' %
                      (p.bodies[k].path, path, why, chain(seen, k, p)))
    # statics, foreign state, logging influence
    stat = 0
    for k in seen:
        b = p.bodies[k]
        cs = []
        for bo in [b] + b.promoted:
            for blk in bo.blocks:
                consts(blk['st'], cs)
                consts(blk['t'], cs)
                for s in blk['st']:
                    if s[0] == '=' and s[2][0] == 'cast' and 'Expose' in s[2][1]:
                        R.bad('addr:%s' % b.path, '%s turns an address into a number' % b.path)
        for c in cs:
            if c['k'] in ('static', 'memref') or 'static' in str(c.get('k')):
                stat += 1
                ty = b.crate.ty(c['ty'])
                if any(x in ty.s for x in INTERIOR) or ty.raw.get('mut'):
                    R.bad('static:%s' % b.path, '%s reads mutable global state (%s)' % (b.path, ty.s))
        stat += loginfluence(p, b, R)
    if len(seen) < 20:
        R.bad('anchor:reach', 'only %d functions reachable from the renderer: the analysis lost its anchor' % len(seen))
    R.obligations = n + stat + len(seen)
    R.cov = {'functions_analysed': len(seen), 'external_call_sites': n, 'global_and_log_sites': stat, 'roots': [p.bodies[k].path for k in roots],
             'rule': 'every call, constant and branch reachable from the public renderer entry points touches only its arguments; '
                     'log-level tests may only guard log records',
             'samples': [chain(seen, k, p) for k in list(seen)[:8]]}
    R.assume = ['core/alloc/std functions outside the deny list are pure functions of their arguments', 'the installed logger does not panic or feed back']
    return R


def loginfluence(p, b, R):
    """branches decided by the logger's level may only guard log records"""
    b.analyse()
    tainted = set()
    ch = True
    n = 0

    def ops(x, out):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('c', 'm') and isinstance(x[1], list):
                out.append(x[1][0])
            elif len(x) >= 2 and x[0] in ('ref', 'rawptr', 'discr') and isinstance(x[1], list):
                out.append(x[1][0])
            else:
                for y in x:
                    ops(y, out)
    while ch:
        ch = False
        for bi in b._rpo:
            blk = b.blocks[bi]
            for s in blk['st']:
                if s[0] == '=':
                    o = []
                    ops(s[2], o)
                    if any(x in tainted for x in o) and s[1][0] not in tainted:
                        tainted.add(s[1][0])
                        ch = True
            t = blk['t']
            if t['k'] == 'call':
                o = []
                for a in t['a']:
                    ops(a, o)
                path = ''
                if t['f'][0] == 'k':
                    path = b.crate.ty(t['f'][1]['ty']).raw.get('path') or ''
                src = path.startswith(('log::max_level', 'log::__private_api::enabled')) or path.endswith('Log::enabled')
                if (src or any(x in tainted for x in o)) and t['d'][0] not in tainted:
                    tainted.add(t['d'][0])
                    ch = True
    if not tainted:
        return 0
    if 0 in tainted:
        R.bad('log:%s' % b.path, 'the result of %s depends on the log level' % b.path)
    for bi in b._rpo:
        t = b.blocks[bi]['t']
        if t['k'] == 'call' and t['f'][0] == 'k':
            o = []
            for a in t['a']:
                ops(a, o)
            ty = b.crate.ty(t['f'][1]['ty'])
            path = ty.raw.get('path') or ''
            if any(x in tainted for x in o) and not path.startswith(('std::cmp', 'core::cmp', 'log::')):
                R.bad('log:%s' % b.path, '%s passes a log-level dependent value to %s' % (b.path, path))
        if t['k'] != 'switch' or t['d'][0] == 'k' or t['d'][1][0] not in tainted:
            continue
        n += 1
        pd = ipdom(b, bi)
        region = set()
        w = list(b.succ(bi))
        while w:
            x = w.pop()
            if x == pd or x in region:
                continue
            region.add(x)
            w.extend(b.succ(x))
        live = b.live_in.get(pd, set()) if pd is not None else {0}
        for x in region:
            blk = b.blocks[x]
            if blk['t']['k'] == 'return':
                R.bad('log:%s' % b.path, '%s returns depending on the log level' % b.path)
            for s in blk['st']:
                if s[0] == '=' and (s[1][0] in live or any(e[0] == '*' for e in s[1][1])):
                    R.bad('log:%s' % b.path, '%s (%s) changes program state depending on the log level' % (b.path, s[3] if len(s) > 3 else ''))
            if blk['t']['k'] == 'call':
                tt = blk['t']
                if tt['d'][0] in live:
                    R.bad('log:%s' % b.path, '%s changes program state depending on the log level' % b.path)
                for a in tt['a']:
                    if a[0] in ('c', 'm'):
                        ty = b.lty(a[1][0])
                        if ty.k == 'ref' and ty.mut:
                            R.bad('log:%s' % b.path, '%s mutates state depending on the log level at %s' % (b.path, tt['s']))
    return n


def ipdom(b, n):
    """first block on every way from n to an exit (None if there is none)"""
    # forward search: common post-dominator by path intersection on the reachable region
    exits = [x for x in b._rpo if not b.succ(x)]
    pd = {x: None for x in b._rpo}
    allb = set(b._rpo)
    cache = b.__dict__.setdefault('_pd', None)
    if cache is None:
        P = {x: ({x} if not b.succ(x) else set(allb)) for x in b._rpo}
        ch = True
        while ch:
            ch = False
            for x in reversed(b._rpo):
                ss = b.succ(x)
                if not ss:
                    continue
                s = set.intersection(*[P[y] for y in ss]) | {x}
                if s != P[x]:
                    P[x] = s
                    ch = True
        cache = b.__dict__['_pd'] = P
    c = cache[n] - {n}
    for x in c:
        if all(x == y or y in cache[x] for y in c):
            return x
    return None
