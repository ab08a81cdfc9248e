"""Rules over the command-line program: what every abstract path from `main` (and from the public
functions of smd_core) may do to files, and what its exit status may claim."""
from run import Result
from flow import *
import flowmodels as fm
import flow as _flow

CFGNAME = 'smd/config.toml'


# ---- terms ------------------------------------------------------------------------------------
def sub(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from sub(x)
            elif isinstance(x, frozenset):
                for y in x:
                    yield from sub(y)


def show(t, n=160):
    def s(t):
        if not isinstance(t, tuple) or not t:
            return str(t)
        k = t[0]
        if k == 'k':
            return repr(t[1])
        if k == 'root':
            return t[1]
        if k == 'arg':
            return t[1]
        if k == 'fld':
            return '%s.%s%s' % (s(t[1]), (t[2] + '.') if t[2] else '', t[3])
        if k == 'call':
            return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2]))
        if k == 'eff':
            return '%s#%d(%s)' % (t[2], t[1], ', '.join(s(x) for x in t[3]))
        if k == 'content':
            return 'content-of(%s)' % s(t[1])
        if k == 'cat':
            return ' + '.join(s(x) for x in t[1])
        if k == 'adt':
            return '%s/%s(%s)' % (t[1].split('::')[-1], t[2], ', '.join(s(x) for x in t[3]))
        return '%s(%s)' % (k, ', '.join(s(x) for x in t[1:]))
    r = s(t)
    return r if len(r) <= n else r[:n] + '…'


class Cli:
    """the analysed program: outcomes of main and the roles of the terms in them"""

    def __init__(self, prog):
        self.F = Flow(prog)
        self.p = prog
        cands = [k for k, b in prog.bodies.items() if k.endswith('!smd::main')] or [k for k in prog.bodies if k == 'smd::main']
        self.main = cands[0] if cands else None
        self.outs = []
        if self.main:
            for k, v, s in self.F.run(self.main, []):
                self.outs.extend(self.classify(k, v, s))

    def tyname(self, t):
        ty = self.F.tyof.get(t)
        ty = ty.peel() if ty is not None else None
        return ty.s if ty is not None else ''

    def classify(self, k, v, s):
        """(ok?, code, state): exit status as the shell sees it"""
        v = self.F.deep(s, v) if v is not None else UNIT
        if k == 'panic':
            return [(False, 'panic', s)]
        if k == 'ret' and v[0] == 'adt' and v[1] == RES:
            if v[2] == 1:
                return [(False, 1, s)]
            return self.classify('exit', v[3][0], s)
        if v == UNIT:
            return [(True, 0, s)]
        if v[0] == 'k' and isinstance(v[1], int):
            return [(v[1] % 256 == 0, v[1], s)]
        if v[0] == 'const' and 'ExitCode' in str(v):
            if 'SUCCESS' in str(v):
                return [(True, 0, s)]
            if 'FAILURE' in str(v):
                return [(False, 1, s)]
        if v[0] == 'adt' and 'ExitCode' in v[1] and len(v[3]) == 1:
            return self.classify('exit', v[3][0], s)
        if k == 'ret' and self.F.variants(self.F.tyof.get(v)) is not None and self.tyname(v).startswith('std::result::Result'):
            r = []
            for s2, i, p in self.F.split(s, v, RES):
                r.append((i == 0, 0 if i == 0 else 1, s2))
            return r
        if v[0] in ('isvar', 'not', 'eq'):
            r = []
            for b in (0, 1):
                s2 = self.F.assume_bool(s, v, b)
                if s2 is not None:
                    r.append((b == 0, b, s2))
            return r
        return [(None, v, s)]

    # ---- roles
    def is_input(self, t):
        if t[0] != 'fld':
            return False
        r = t
        while r[0] == 'fld':
            r = r[1]
        return r == ('root', 'cli') and self.tyname(t).endswith('PathBuf')

    def inputs(self, t):
        return [x for x in sub(t) if self.is_input(x)]

    def norm(self, t):
        """paths in a normal form: nested joins with constant parts folded"""
        if t[0] == 'call' and t[1] == 'join' and len(t[2]) == 2:
            a, b = self.norm(t[2][0]), t[2][1]
            if a[0] == 'call' and a[1] == 'join' and b[0] == 'k' and a[2][1][0] == 'k' and isinstance(b[1], str) and not b[1].startswith('/'):
                return ('call', 'join', (a[2][0], K(a[2][1][1].rstrip('/') + '/' + b[1])))
            if a[0] == 'call' and a[1] == 'current_dir':
                a = a
            return ('call', 'join', (a, b))
        if t[0] == 'call' and t[1] == 'with_extension':
            return ('call', 'with_extension', (self.norm(t[2][0]), t[2][1]))
        if t[0] == 'call' and t[1] == 'parent' or t[0] == 'fld':
            return t
        return t

    def is_cfg(self, t):
        t = self.norm(t)
        if t[0] == 'call' and t[1] == 'join' and t[2][1] == K(CFGNAME):
            b = t[2][0]
            return (b[0] == 'fld' and b[1] == ('call', 'dirs::config_dir', ()) and b[2] == 'Some') or \
                (b[0] == 'call' and b[1] == 'default' and 'PathBuf' in str(b[2]))
        return False

    def is_cfgdir(self, t):
        """parent directory of the configuration file"""
        if t[0] == 'fld' and t[2] == 'Some' and t[1][0] == 'call' and t[1][1] == 'parent':
            return self.is_cfg(t[1][2][0])
        t = self.norm(t)
        return t[0] == 'call' and t[1] == 'join' and t[2][1] == K('smd') and ('call', 'dirs::config_dir', ()) in list(sub(t))

    def mode(self, s):
        """subcommand name decided on this path, and the output format"""
        cmd = fmt = None
        for f, v in s.facts.items():
            n = self.tyname(f)
            if f[0] == 'fld' and n.endswith('Commands') and isinstance(v, int):
                cmd = self.F.variants(self.F.tyof[f])[v]['name']
            if f[0] == 'fld' and n.endswith('OutputFileFormat') and isinstance(v, int):
                fmt = self.F.variants(self.F.tyof[f])[v]['name']
        return cmd, fmt

    def out_ext(self, t):
        """extension if t is the input path with another extension"""
        if t[0] == 'call' and t[1] == 'with_extension' and self.is_input(t[2][0]) and t[2][1][0] == 'k':
            return t[2][1][1]
        return None

    def trace(self, s, upto=None):
        return ' -> '.join('%s(%s) at %s' % (e[1], show(e[2][0], 70) if e[2] else '', ('%s:%s' % (e[4][0], e[4][1])) if e[4] else '?')
                           for e in s.ev[:upto] if e[0] in ('read', 'fsmut', 'hwrite', 'flush', 'spawn', 'env', 'op', 'probe'))[:1500]


def get(ctx):
    if 'cli' not in ctx.cache:
        ctx.cache['cli'] = Cli(ctx.prog)
    return ctx.cache['cli']


def base(R, c, what, n):
    F = c.F
    R.obligations = n
    R.cov = {'paths': len(c.outs), 'abstract_steps': F.steps, 'functions_analysed': len(F.funcs), 'call_sites': F.calls,
             'library_calls_taken_as_functions_of_their_arguments': sorted(F.unknown)[:80], 'loops_cut_after_widening': len(F.truncated),
             'rule': what, 'root': c.p.bodies[c.main].path if c.main else None, 'samples': [c.trace(s)[:600] for ok, code, s in c.outs if ok][:4]}
    R.assume = ['library functions behave as documented (analysis/flowmodels.py)', 'std functions outside the effect table do not touch files']
    if not c.main:
        R.bad('anchor', 'the smd binary has no main function that could be analysed')
    if c.main and not any(ok for ok, _, s in c.outs):
        R.bad('anchor:ok', 'no path of main ends with exit status 0')
    cmds = {c.mode(s)[0] for _, _, s in c.outs}
    for m in ('Parse', 'Initialize'):
        if m not in cmds:
            R.bad('anchor:' + m, 'no path of main handles the subcommand %s' % m)


def loc(e):
    return '%s:%s' % (e[4][0], e[4][1]) if e[4] else e[5]


def fact(s, term):
    """0 = succeeded, 1 = failed, None = never looked at"""
    if term is None:
        return 0
    v = s.facts.get(term)
    return v if isinstance(v, int) else None


def tolerated(c, s, e):
    """a failed attempt to read the configuration because it is not there is not a failure"""
    if e[0] == 'read' and c.is_cfg(e[2][0]):
        err = ('fld', e[3], 'Err', 0)
        for f, v in s.facts.items():
            if v == 1 and f[0] in ('eq', 'isvar') and any(x == err for x in sub(f)):
                return True
            if isinstance(v, int) and f[0] == 'call' and f[1].endswith('kind') and any(x == err for x in sub(f)):
                return True
    return False


def contents(c, s, upto=None):
    """path -> list of data written, as far as the operating system confirmed it"""
    fs, buf, status = {}, {}, {}
    for i, e in enumerate(s.ev[:upto]):
        kind, name, args, term = e[:4]
        good = fact(s, term) == 0
        if kind == 'fsmut':
            p = c.norm(args[0])
            if name in ('open:create', 'open:create_new', 'open:truncate'):
                if good:
                    fs[p] = []
            elif name in ('open:update', 'open:unknown'):
                fs.setdefault(p, []).append(('stale',)) if good else None
            elif name == 'write':
                fs[p] = [args[1]] if good else [('partial', args[1])]
            elif name == 'remove_file':
                fs.pop(p, None)
            elif name == 'rename' and good:
                q = c.norm(args[1])
                if p in fs:
                    fs[q] = fs.pop(p)
                else:
                    fs[q] = [('content', p, i)]
            elif name == 'copy' and good:
                fs[c.norm(args[1])] = list(fs.get(p, [('content', p, i)]))
        elif kind == 'hwrite':
            o = fm.handle_path(args[0])
            if o is None:
                continue
            p = c.norm(o[3][0])
            d = args[1] if name in ('write_all', 'write_fmt') and good else ('partial', args[1])
            if fm.buffered(args[0]):
                buf.setdefault(p, []).append(d)
            else:
                fs.setdefault(p, [('stale',)]).append(d)
        elif kind == 'flush':
            o = fm.handle_path(args[0])
            if o is None:
                continue
            p = c.norm(o[3][0])
            if p in buf and good and name in ('flush', 'into_inner'):
                fs.setdefault(p, [('stale',)]).extend(buf.pop(p))
        elif kind == 'hmut':
            o = fm.handle_path(args[0])
            if o is not None and name in ('set_len',):
                fs.setdefault(c.norm(o[3][0]), []).append(('resized', args[1] if len(args) > 1 else None))
    for p, d in buf.items():
        fs.setdefault(p, []).append(('unflushed', tuple(d)))
    return {p: fm.strcat(*d) if d else K('') for p, d in fs.items()}


def is_render(c, t):
    """render of the whole content of the input file"""
    return t[0] == 'call' and t[1] in ('Parser::render', 'gfm::Parser::render') and len(t[2]) == 1 and \
        t[2][0][0] == 'content' and c.is_input(t[2][0][1])


# ---- C06 --------------------------------------------------------------------------------------
def complete(ctx):
    R, c = Result(), get(ctx)
    n = 0
    for ok, code, s in c.outs:
        cmd, f = c.mode(s)
        if not ok:
            continue
        fs = contents(c, s)
        if cmd == 'Parse':
            n += 1
            outp = [p for p in fs if c.out_ext(p) is not None]
            if len(outp) != 1:
                R.bad('out:%s' % f, 'a run of `parse` (%s) that exits 0 leaves %s; path: %s' % (
                    f, 'no complete output file' if not outp else 'several output files', c.trace(s)))
                continue
            d = fs[outp[0]]
            if c.out_ext(outp[0]) == 'html' or f == 'Html':
                if not is_render(c, d):
                    R.bad('html', 'a successful run leaves `%s` in %s instead of exactly the rendering of the input; path: %s' % (show(d, 300), show(outp[0]), c.trace(s)))
            else:
                pdf(c, R, s, d, outp[0])
        elif cmd == 'Initialize':
            n += 1
            d = [x for p, x in fs.items() if c.is_cfg(p)]
            if len(d) != 1 or not whole(d[0]):
                R.bad('init', 'a successful `initialize` does not leave a completely written configuration file; path: %s' % c.trace(s))
        else:
            R.bad('mode', 'exit status 0 on a path where the subcommand is not decided: %s' % c.trace(s))
    n += library(c, R)
    base(R, c, 'on every path with exit status 0 the output file was truncated or freshly created, then received exactly the rendering (or the bytes '
         'printed by the browser from a temporary file holding exactly the rendering), by calls that write everything or fail, with every result checked', n)
    return R


def whole(t):
    return not any(x[0] in ('partial', 'stale', 'unflushed', 'resized') for x in sub(t) if x)


def pdf(c, R, s, d, outp):
    ops = {e[3]: i for i, e in enumerate(s.ev) if e[3] is not None}
    ok = d[0] == 'fld' and d[2] == 'Ok' and d[1][0] == 'eff' and d[1][2].endswith('print_to_pdf') and whole(d)
    if not ok:
        R.bad('pdf:data', 'a successful PDF run leaves `%s` in the output instead of exactly the bytes printed by the browser; path: %s' % (show(d, 300), c.trace(s)))
        return
    pi = ops.get(d[1])
    navs = [(i, e) for i, e in enumerate(s.ev[:pi]) if e[1].endswith('navigate_to')]
    if not navs:
        R.bad('pdf:nav', 'the browser prints a page although it was never told to open the rendering; path: %s' % c.trace(s))
        return
    ni, nav = navs[-1]
    url, tab = nav[2][1], nav[2][0]
    fs = contents(c, s, ni)
    src = [p for p, x in fs.items() if is_render(c, x) and any(c.norm(y) == p for y in sub(url))]
    if not src:
        R.bad('pdf:src', 'the page opened for printing (`%s`) is not a file completely holding the rendering of the input; path: %s' % (show(url, 200), c.trace(s)))
    else:
        gone = [i for i, e in enumerate(s.ev[:pi]) if e[0] == 'fsmut' and i > ni and c.norm(e[2][0]) == src[0]]
        waits = [i for i, e in enumerate(s.ev[:pi]) if e[1].endswith(('wait_until_navigated', 'wait_for_element')) and i > ni and fact(s, e[3]) == 0 and e[2] and e[2][0] == tab]
        if not waits:
            R.bad('pdf:wait', 'the page is printed without waiting for its navigation; path: %s' % c.trace(s))
        elif gone and gone[0] < waits[0]:
            R.bad('pdf:gone', 'the temporary file is changed or removed before the browser has loaded it; path: %s' % c.trace(s))
    # the printed tab is the opened one
    pt = d[1][3][0]
    if pt != tab:
        good = False
        for x in sub(pt):
            if x[0] == 'lam' and x[1][0] == 'eq' and tab in list(sub(x[1])) and any(y[0] == 'call' and y[1] == 'element' for y in sub(x[1])):
                good = True
        for f, v in s.facts.items():
            if v == 1 and f[0] == 'eq' and pt in list(sub(f)) and tab in list(sub(f)):
                good = True
        if not good:
            R.bad('pdf:tab', 'the printed tab is not shown to be the one that opened the rendering: `%s`' % show(pt, 300))


def pubfns(c):
    for k, b in c.p.bodies.items():
        if b.crate.name == 'smd_core' and b.kind == 'fn' and b.raw.get('exported'):
            ret = b.lty(0)
            if ret.k == 'adt' and ret.key == RES and b.argc <= 4 and '::_' not in k:
                yield k, b


def roots(c):
    if not hasattr(c, '_roots'):
        c._roots = []
        for k, b in pubfns(c):
            F = c.F
            args = [('arg', '%s:arg%d' % (b.path, i)) for i in range(b.argc)]
            c._roots.append((k, b, args, F.run(k, args)))
    return c._roots


def library(c, R):
    """the file helpers of smd_core do what their success claims"""
    n = 0
    for k, b, args, outs in roots(c):
        nm = b.path.split('::')[-1]
        for kind, v, s in outs:
            n += 1
            v = c.F.deep(s, v) if v is not None else UNIT
            if kind != 'ret' or not (v[0] == 'adt' and v[1] == RES and v[2] == 0):
                continue
            fs = contents(c, s)
            tys = [b.lty(i + 1).peel().s for i in range(b.argc)]
            if b.argc == 2 and 'Path' in tys[0] and (tys[1] in ('str', 'std::string::String') or 'u8' in tys[1]) and nm.startswith('write'):
                if fs.get(args[0]) != args[1]:
                    R.bad('lib:' + nm, '%s returns Ok although its file holds `%s` and not exactly the given data; path: %s' % (b.path, show(fs.get(args[0], K('<nothing>')), 200), c.trace(s)))
            if nm == 'read_to_string' and b.argc == 1:
                p = v[3][0]
                if not (p[0] == 'content' and p[1] == args[0]):
                    R.bad('lib:' + nm, '%s returns `%s` and not exactly the content of its file' % (b.path, show(p, 200)))
    return n


# ---- C07 --------------------------------------------------------------------------------------
def status(ctx):
    R, c = Result(), get(ctx)
    n = 0
    for ok, code, s in c.outs:
        if ok is None:
            R.bad('code', 'the exit status is `%s`, which is not decided by success or failure; path: %s' % (show(code), c.trace(s)))
            continue
        if ok:
            for e in s.ev:
                if e[3] is None or e[0] == 'probe':
                    continue
                n += 1
                f = fact(s, e[3])
                if f != 0 and not tolerated(c, s, e):
                    R.bad('ignored:%s:%s' % (e[5], e[1]), '%s (%s in %s) %s, yet the program exits with status 0; path: %s' % (
                        e[1], loc(e), e[5], 'failed' if f == 1 else 'returned a result nobody looked at', c.trace(s)))
        else:
            n += 1
            why = any(e[3] is not None and fact(s, e[3]) == 1 for e in s.ev)
            why = why or any(compared(f, v)[1] and c.inputs(f) for f, v in s.facts.items())
            why = why or any(v == 1 and f[0] == 'bin' and f[1] == 'BitOr' and all(compared(x, 1)[1] and c.inputs(x) for x in f[2:]) for f, v in s.facts.items())
            why = why or any(v == 1 and (f[0] == 'call' and f[1] in ('exists', 'is_file', 'try_exists') and c.is_cfg(f[2][0]) or
                                         f[0] == 'fld' and f[1][0] == 'eff' and f[1][2] in ('exists', 'try_exists') and c.is_cfg(f[1][3][0])) for f, v in s.facts.items())
            why = why or any(v == 0 and f[0] == 'call' and f[1].startswith('Iterator::') for f, v in s.facts.items())
            if not why:
                R.bad('spurious:%s' % code, 'the program ends with %s although nothing failed; path: %s; decided: %s' % (
                    'a panic' if code == 'panic' else 'status %s' % code, c.trace(s), '; '.join('%s=%s' % (show(f, 80), v) for f, v in s.facts.items())[:600]))
            # a failure after the output was written completely must not be claimed either way; nothing to check
    for k, b, args, outs in roots(c):
        for kind, v, s in outs:
            v = c.F.deep(s, v) if v is not None else UNIT
            if kind == 'ret' and v[0] == 'adt' and v[1] == RES and v[2] == 0:
                for e in s.ev:
                    if e[3] is None or e[0] == 'probe':
                        continue
                    n += 1
                    f = fact(s, e[3])
                    if f != 0 and not tolerated(c, s, e):
                        R.bad('lib:%s:%s' % (b.path, e[1]), '%s returns Ok although %s (%s) %s' % (b.path, e[1], loc(e), 'failed' if f == 1 else 'was not looked at'))
            elif kind == 'ret' and v[0] == 'eff':
                n += 1
    base(R, c, 'on every path with exit status 0 each operation on files, configuration and browser is known to have succeeded; every other path has a failed '
         'operation or a refused overwrite on it; the same for Ok results of the public functions of smd_core', n)
    return R


# ---- C08 --------------------------------------------------------------------------------------
def created(c, s, p, upto):
    """index at which this run created p exclusively (and succeeded)"""
    for i, e in enumerate(s.ev[:upto]):
        if e[0] == 'fsmut' and e[1] == 'open:create_new' and c.norm(e[2][0]) == p and fact(s, e[3]) != 1:
            return i
    return None


def confined(ctx):
    R, c = Result(), get(ctx)
    n = 0
    for ok, code, s in c.outs:
        cmd, f = c.mode(s)
        for i, e in enumerate(s.ev):
            kind, name, args = e[:3]
            at = '%s in %s' % (loc(e), e[5])
            if kind in ('spawn', 'net', 'os'):
                n += 1
                R.bad('%s:%s' % (kind, name), '%s: the program uses %s' % (at, name))
            elif kind == 'env':
                n += 1
                R.bad('env:%s' % name, '%s: the program changes its environment (%s %s)' % (at, name, show(args)))
            elif kind == 'op' and name.endswith('build'):
                n += 1
                for x in sub(args):
                    if x[0] == 'call' and x[1].endswith(('File::with_name', 'File::new')) or x[0] == 'eff' and x[2].endswith(('File::with_name', 'File::new')):
                        R.bad('read:config', '%s reads configuration from another file (`%s`)' % (at, show(x)))
                        break
            elif kind == 'read':
                n += 1
                p = c.norm(args[0])
                if not (c.is_input(p) or c.is_cfg(p) or created(c, s, p, i) is not None):
                    R.bad('read:%s' % e[5], '%s reads `%s`, which is neither the input nor the configuration file' % (at, show(p)))
                if c.is_input(p) and cmd != 'Parse':
                    R.bad('readmode', '%s reads the input outside `parse`' % at)
            elif kind == 'fsmut':
                n += 1
                p = c.norm(args[0])
                if not allowed(c, s, i, cmd, f, name, p, args):
                    R.bad('touch:%s:%s' % (e[5], name), '%s: %s touches `%s`, which is not the file this command writes (%s %s); path: %s' % (
                        at, name, show(p), cmd, f, c.trace(s)))
            elif kind in ('hwrite', 'hmut'):
                n += 1
                o = fm.handle_path(args[0])
                if o is None:
                    R.bad('handle:%s' % e[5], '%s writes through a handle of unknown origin (%s)' % (at, show(args[0])))
                elif kind == 'hmut' and name not in ('lock', 'unlock', 'try_lock', 'set_len'):
                    R.bad('meta:%s' % e[5], '%s changes file metadata (%s)' % (at, name))
    n += argpath(c, R)
    base(R, c, 'every file operation on every path names the input (read), the configuration file (read; written only by initialize), the input path with '
         'the extension of the chosen format (written by parse), or a file this run created exclusively', n)
    return R


def allowed(c, s, i, cmd, f, name, p, args):
    if name == 'rename':
        q = c.norm(args[1])
        return created(c, s, p, i) is not None and target(c, cmd, f, q)
    if name == 'copy':
        q = c.norm(args[1])
        return created(c, s, p, i) is not None and target(c, cmd, f, q)
    if name in ('create_dir_all', 'create_dir'):
        return cmd == 'Initialize' and c.is_cfgdir(args[0])
    if name in ('open:create', 'open:truncate', 'write', 'open:update', 'open:unknown'):
        return target(c, cmd, f, p) or created(c, s, p, i) is not None
    if name == 'open:create_new':
        return target(c, cmd, f, p) or (cmd == 'Parse' and f != 'Html' and inhere(c, p)) or (cmd == 'Parse' and bool(c.inputs(p)))
    if name == 'remove_file':
        return created(c, s, p, i) is not None
    return False


def inhere(c, p):
    """p is a file of the program's own directly in the current directory"""
    if p[0] == 'call' and p[1] == 'join' and len(p[2]) == 2:
        return here(p[2][0]) and plainname(c, p[2][1])
    if p[0] == 'call' and p[1] == 'with_extension':
        return inhere(c, p[2][0]) and plainname(c, p[2][1])
    if p[0] == 'call' and p[1] == 'with_file_name':
        return inhere(c, p[2][0]) and plainname(c, p[2][1])
    return plainname(c, p)


def here(t):
    if t[0] == 'k':
        return t[1] in ('', '.', './')
    if t[0] == 'call' and t[1] == 'default' and 'PathBuf' in str(t[2]):
        return True
    t = t[1] if t[0] == 'fld' and t[2] in ('Ok', 'Some') else t
    return t[0] == 'call' and t[1].split('::')[-1] == 'current_dir' or t[0] == 'eff' and t[2].split('::')[-1] == 'current_dir'


def plainname(c, t):
    """a file name without directory parts, not taken from the command line or the environment"""
    ks = [x for x in sub(t) if x[0] == 'k' and isinstance(x[1], str)]
    if t[0] == 'k' and t[1] in ('', '.', '..') or any('/' in x[1] and not (i == 0 and x[1].startswith('./') and '/' not in x[1][2:]) for i, x in enumerate(ks)):
        return False
    if t[0] == 'call' and t[1] in ('join', 'temp_dir', 'env::temp_dir', 'parent', 'dirs::config_dir', 'with_file_name'):
        return False
    return not c.inputs(t) and not any(x[0] == 'call' and (x[1].split('::')[-1] in ('temp_dir', 'home_dir', 'current_dir', 'var', 'var_os', 'join') or x[1].startswith('dirs::'))
                                       for x in sub(t))


def target(c, cmd, f, p):
    if cmd == 'Initialize':
        return c.is_cfg(p)
    if cmd == 'Parse':
        x = c.out_ext(p)
        return x is not None and f is not None and x == f.lower()
    return False


def argpath(c, R):
    """the path given on the command line is used as given (tilde expanded, made absolute)"""
    n = 0
    for k, b in c.p.bodies.items():
        if b.crate.name == 'smd' and not b.crate.bin and b.kind == 'fn' and b.argc == 1 and b.lty(1).peel() is not None and b.lty(1).peel().s == 'str' and \
                b.lty(0).s.startswith('std::result::Result<std::path::PathBuf'):
            a = ('arg', 'dir')
            for kind, v, s in c.F.run(k, [a]):
                n += 1
                v = c.F.deep(s, v)
                if kind == 'ret' and v[0] == 'adt' and v[2] == 0:
                    p = v[3][0]
                    q = p
                    if q[0] == 'fld' and q[2] == 'Ok' and q[1][0] == 'eff' and q[1][2] == 'canonicalize':
                        q = q[1][3][0]
                    if q[0] == 'call' and q[1] in ('shellexpand::tilde', 'tilde') and len(q[2]) >= 1:
                        q = q[2][0]
                    if q != a:
                        R.bad('arg:%s' % b.path, '%s turns the path argument into `%s`' % (b.path, show(p, 200)))
                elif kind == 'ret' and v[0] in ('eff', 'call'):
                    R.bad('arg:%s' % b.path, '%s returns `%s` for the path argument' % (b.path, show(v, 200)))
    return n


# ---- C09 --------------------------------------------------------------------------------------
def absent(c, s, i, strict=False):
    """before event i the configuration file is known not to exist (-> True)"""
    for f, v in s.facts.items():
        if v == 0 and s.when.get(f, 1 << 30) <= i:
            if f[0] == 'call' and f[1] in (('exists',) if strict else ('exists', 'is_file')) and c.is_cfg(f[2][0]):
                return True
            if f[0] == 'fld' and f[2] == 'Ok' and f[1][0] == 'eff' and f[1][2] in ('exists', 'try_exists') and c.is_cfg(f[1][3][0]):
                return True
        if v == 1 and f[0] == 'eff' and f[2] in ('metadata', 'symlink_metadata') and c.is_cfg(f[3][0]) and s.when.get(f, 1 << 30) <= i:
            return True
    return False


def present(c, s):
    for f, v in s.facts.items():
        if v == 1 and f[0] == 'call' and f[1] in ('exists', 'is_file') and c.is_cfg(f[2][0]):
            return True
        if v == 1 and f[0] == 'fld' and f[1][0] == 'eff' and f[1][2] in ('exists', 'try_exists') and c.is_cfg(f[1][3][0]):
            return True
        if v == 1 and f[0] == 'eff' and f[2] == 'open:create_new' and c.is_cfg(f[3][0]):
            return True
    return False


def keepconfig(ctx):
    R, c = Result(), get(ctx)
    n = 0
    for ok, code, s in c.outs:
        cmd, f = c.mode(s)
        for i, e in enumerate(s.ev):
            if e[0] == 'fsmut' and any(c.is_cfg(x) for x in e[2]) or (e[0] == 'fsmut' and e[1].startswith('remove') and any(c.is_cfgdir(x) for x in e[2])):
                n += 1
                if e[1] == 'open:create_new' or created(c, s, c.norm(e[2][0]), i) is not None:
                    continue
                if e[1] in ('open:create', 'write', 'open:truncate', 'rename', 'copy', 'open:unknown', 'open:update') and absent(c, s, i):
                    continue
                R.bad('config:%s' % e[1], '%s in %s: %s may destroy an existing configuration file (its absence is not established first); path: %s' % (loc(e), e[5], e[1], c.trace(s)))
        if cmd == 'Initialize' and present(c, s):
            n += 1
            if ok:
                R.bad('config:claimed', 'initialize exits 0 although the configuration file already exists; path: %s' % c.trace(s))
            if any(e[0] == 'fsmut' and not (e[1].startswith('create_dir') or e[1] == 'open:create_new') for e in s.ev):
                R.bad('config:touched', 'initialize changes files although the configuration file already exists; path: %s' % c.trace(s))
        if cmd == 'Initialize' and ok:
            n += 1
            if not any(c.is_cfg(p) for p in contents(c, s)):
                R.bad('config:missing', 'initialize exits 0 without having written the configuration file; path: %s' % c.trace(s))
    for k, b, args, outs in roots(c):
        for kind, v, s in outs:
            for i, e in enumerate(s.ev):
                if e[0] == 'fsmut' and any(c.is_cfg(x) for x in e[2]) and not (e[1] == 'open:create_new' or created(c, s, c.norm(e[2][0]), i) is not None):
                    n += 1
                    if not absent(c, s, i):
                        R.bad('lib:%s' % b.path, '%s: %s (%s) may destroy an existing configuration file' % (b.path, e[1], loc(e)))
    if n < 4:
        R.bad('anchor:config', 'no path writes the configuration file: the rule has lost its anchor')
    base(R, c, 'every operation that creates, truncates, replaces or removes the configuration file comes after its absence was established on the same path '
         '(or creates it exclusively); paths on which it exists fail and change nothing', n)
    return R


# ---- C10 --------------------------------------------------------------------------------------
def sources(t):
    """flattened add_source chain of a config builder term"""
    out = []
    while t[0] in ('call', 'mut'):
        if t[0] == 'mut':
            out.append(t[3][0]) if t[1].endswith('add_source') else None
            t = t[2]
            continue
        if t[1].endswith('add_source'):
            out.append(t[2][1])
            t = t[2][0]
        elif t[1].endswith(('builder', 'ConfigBuilder::default', 'default')):
            return list(reversed(out))
        else:
            return None
    return None


def roundtrip(ctx):
    R, c = Result(), get(ctx)
    n = 0
    F = c.F
    loads = 0
    defaults = set()
    for ok, code, s in c.outs:
        cmd, f = c.mode(s)
        if cmd == 'Initialize' and ok:
            n += 1
            d = [x for p, x in contents(c, s).items() if c.is_cfg(p)]
            if len(d) != 1:
                continue
            parts = d[0][1] if d[0][0] == 'cat' else (d[0],)
            tom = [x for x in parts if not (x[0] == 'k' and isinstance(x[1], str))]
            text = [x[1] for x in parts if x[0] == 'k' and isinstance(x[1], str)]
            i = next((j for j, x in enumerate(parts) if x[0] != 'k'), None)
            pre = ''.join(x[1] for x in parts[:i] if x[0] == 'k') if i is not None else ''
            post = ''.join(x[1] for x in parts[i + 1:] if x[0] == 'k') if i is not None else ''
            good = len(tom) == 1 and tom[0][0] == 'fld' and tom[0][2] == 'Ok' and tom[0][1][0] == 'eff' and 'toml' in tom[0][1][2] and tom[0][1][2].split('::')[-1] in ('to_string', 'to_string_pretty')
            if not good:
                R.bad('init:value', 'initialize writes `%s`, which is not the default configuration in TOML' % show(d[0], 300))
                continue
            for t in (pre, post):
                for l in t.split('\n'):
                    if l.strip() and not l.lstrip().startswith('#'):
                        R.bad('init:text', 'initialize adds the line %r to the TOML text' % l)
            if pre and not pre.endswith('\n'):
                R.bad('init:glue', 'the text before the TOML values does not end its line')
            defaults.add(tom[0][1][3][0])
        if cmd == 'Parse':
            for e in s.ev:
                if e[1].endswith(('try_deserialize', '::try_into', 'from_str')) and e[0] == 'op' and 'onfig' in e[1] and fact(s, e[3]) == 0:
                    n += 1
                    loads += 1
                    layered(c, R, s, e)
    vals = set()
    cfgty = None
    for k, b in pubfns(c):
        ret = b.lty(0)
        a0 = ret.arg(0)
        if b.argc == 0 and a0 is not None and a0.k == 'adt' and a0.key.startswith('smd_core::') and a0.key.endswith('Config'):
            cfgty = a0.key
            for kind, v, s in F.run(k, []):
                v = F.deep(s, v)
                n += 1
                if kind == 'ret' and v[0] == 'adt' and v[2] == 0:
                    p = v[3][0]
                    if p[0] == 'adt':
                        vals.add(p)
                        if present(c, s):
                            R.bad('load:ignored', '%s returns built-in values although the configuration file exists; path: %s' % (b.path, c.trace(s)))
                    elif not (p[0] == 'fld' and p[1][0] == 'eff' and p[1][2].endswith(('try_deserialize', 'try_into')) and present(c, s)):
                        R.bad('load:value', '%s returns `%s`, which is not the configuration read from the file' % (b.path, show(p, 200)))
    for d in defaults:
        if vals and d not in vals:
            R.bad('init:default', 'initialize writes `%s`, but without a file the program uses %s' % (show(d, 200), ', '.join(show(v, 200) for v in vals)))
    if not loads:
        R.bad('anchor:load', 'no path of `parse` reads the configuration file')
    n += serde(c, R)
    base(R, c, 'the loaded configuration is the deserialised [file, then environment SMD__*] stack; initialize writes comment lines and the serialised defaults; '
         'names written by Serialize are read back to the same field and variant by Deserialize', n)
    return R


def layered(c, R, s, e):
    t = e[2][0]
    if t[0] == 'fld' and t[2] == 'Ok' and t[1][0] == 'eff' and t[1][2].endswith('build'):
        src = sources(t[1][3][0])
    else:
        src = None
    if src is None:
        R.bad('layers:%s' % e[5], '%s: the configuration is built from `%s`, not from the file and the environment' % (loc(e), show(t, 300)))
        return
    file = [i for i, x in enumerate(src) if any(y[0] == 'content' and c.is_cfg(y[1]) for y in sub(x))]
    env = [i for i, x in enumerate(src) if any(y[0] == 'call' and y[1].startswith('Environment::') for y in sub(x))]
    if not file:
        R.bad('layers:file', '%s: the content of the configuration file is not among the sources' % loc(e))
    if not env:
        R.bad('layers:env', '%s: the environment is not among the sources' % loc(e))
    for i, x in enumerate(src):
        if i not in file and i not in env:
            R.bad('layers:extra', '%s: the configuration is also taken from `%s`' % (loc(e), show(x, 200)))
    if file and env and max(file) > min(env):
        R.bad('layers:order', '%s: the file is added after the environment, so it overrides it' % loc(e))
    for i in env:
        o = envopts(src[i])
        if o.get('with_prefix') != K('SMD') or o.get('separator') != K('__') or o.get('prefix_separator', K('__')) != K('__') or set(o) - {
                'with_prefix', 'separator', 'prefix_separator', 'try_parsing', 'ignore_empty', 'keep_prefix'} or any(o.get(x, K(0)) != K(0) for x in ('ignore_empty', 'keep_prefix')):
            R.bad('layers:prefix', '%s: the environment source is `%s`, not SMD__ variables with `__` between levels' % (loc(e), show(src[i], 200)))
    for i in file:
        x = src[i]
        whole_ = [y for y in sub(x) if y[0] == 'call' and y[1].endswith('from_str') and y[2] and y[2][0][0] == 'content']
        if not whole_:
            R.bad('layers:text', '%s: the file source is `%s`, not the whole file' % (loc(e), show(x, 200)))


def envopts(x):
    o = {}
    while x[0] == 'call' and x[1].startswith('Environment::'):
        nm = x[1].split('::')[-1]
        if nm in ('with_prefix', 'prefix') and len(x[2]) == 1:
            o.setdefault('with_prefix', x[2][0])
            return o
        if nm == 'default' or not x[2]:
            return o
        o.setdefault('with_prefix' if nm == 'prefix' else nm, x[2][1] if len(x[2]) > 1 else TOP)
        x = x[2][0]
    if x[0] == 'call' and x[1] == 'default':
        return o
    o['?'] = x
    return o


def serde(c, R):
    """names written by the Serialize impls are accepted by Deserialize for the same field/variant"""
    F, p = c.F, c.p
    n = 0
    ser, vis = {}, {}
    for im, cr in p.impls:
        tr = im.get('trait') or ''
        ty = cr.ty(im['ty']) if isinstance(im['ty'], int) else None
        if ty is None or ty.k != 'adt':
            continue
        if tr.endswith('ser::Serialize') or tr.endswith('serde::Serialize'):
            for m in im['methods']:
                if m[0] == 'serialize' and m[1] in p.bodies:
                    ser[ty.key] = p.bodies[m[1]]
        if tr.endswith('de::Visitor') or tr.endswith('Visitor'):
            for m in im['methods']:
                if m[0] == 'visit_str' and m[1] in p.bodies:
                    vis[m[1]] = p.bodies[m[1]]
    des, names_of = {}, {}
    for im, cr in p.impls:
        tr = im.get('trait') or ''
        ty = cr.ty(im['ty']) if isinstance(im['ty'], int) else None
        if ty is not None and ty.k == 'adt' and tr.endswith('Deserialize'):
            for m in im['methods']:
                if m[0] == 'deserialize':
                    # the field visitor lives below the deserialize function
                    for k, b in vis.items():
                        if k.startswith(m[1] + '::'):
                            des[ty.key] = b
                            if m[1] in p.bodies:
                                names_of[ty.key] = expected(F, p.bodies[m[1]])
    for key in sorted(ser):
        a = p.adts.get(key)
        if a is None or key not in des:
            continue

        def accepted(name):
            b = des[key]
            r = set()
            for kind, v, s in F.run(b.key, [('arg', 'visitor'), K(name)]):
                v = F.deep(s, v)
                r.add(fieldindex(p, v[3][0]) if kind == 'ret' and v[0] == 'adt' and v[1] == RES and v[2] == 0 and v[3][0][0] == 'adt' else None)
            return r
        names = []
        if a['kind'] == 'enum':
            for i, var in enumerate(a['variants']):
                names.append((i, 'variant ' + var['name'], written(F, ser[key], ('adt', key, i, tuple(('arg', 'f%d' % j) for j in range(len(var['fields'])))))))
        else:
            fs = a['variants'][0]['fields']
            w = written(F, ser[key], ('adt', key, 0, tuple(('arg', 'f%d' % j) for j in range(len(fs)))))
            for i, fd in enumerate(fs):
                names.append((i, 'field ' + fd['name'], [x for x in w if x[1] == ('arg', 'f%d' % i)]))
        for i, what, ws in names:
            n += 1
            if not ws:
                R.bad('serde:%s:%s' % (key, what), '%s %s is not written by Serialize' % (key, what))
                continue
            for nm, _ in ws:
                # the config crate stores keys in lower case and matches variants whatever their case
                rd = nm.lower() if isinstance(nm, str) else nm
                if a['kind'] == 'enum':
                    rd = next((x for x in names_of.get(key) or () if x.lower() == rd), nm)
                r = accepted(rd)
                if r != {i}:
                    R.bad('serde:%s:%s' % (key, what), '%s: %s is written as %r, which Deserialize reads as %s' % (key, what, nm, sorted(map(str, r))))
    for kind, key, msg in custom(c, ser):
        n += 1
        if kind == 'value':
            R.bad('serde:' + key, msg)
    if n < 3:
        R.bad('anchor:serde', 'the Serialize/Deserialize implementations of the configuration were not found')
    return n


def fieldindex(p, v):
    """index of the field or variant a derived field visitor answers with (None: the name is ignored)"""
    a = p.adts.get(v[1])
    name = a['variants'][v[2]]['name'] if a and v[2] < len(a['variants']) else ''
    if name.startswith('__field') and name[7:].isdigit():
        return int(name[7:])
    return None if name.startswith('__') else v[2]


def deserialises(t):
    return t[0] == 'call' and t[1].split('::')[-1].startswith('deserialize') or t[0] == 'eff' and t[2].split('::')[-1].startswith('deserialize')


def custom(c, ser=None):
    """what hand-written parts of reading configuration values do: (kind, key, message) with kind 'ok', 'value' (not the value
    that was read) or 'lenient' (values that cannot be read are accepted)"""
    F, p = c.F, c.p
    if ser is None:
        ser = {}
    out = []
    for im, cr in p.impls:
        tr = im.get('trait') or ''
        ty = cr.ty(im['ty']) if isinstance(im['ty'], int) else None
        if ty is None or ty.k != 'adt' or not tr.endswith('Deserialize') or not tr.startswith(('serde', '_serde')):
            continue
        a = p.adts.get(ty.key) or {}
        for m in im['methods']:
            if m[0] != 'deserialize' or m[1] not in p.bodies:
                continue
            body = p.bodies[m[1]]
            names = {}
            derived = False
            for kind, v, s in F.run(m[1], [('arg', 'deserializer')]):
                v = F.deep(s, v) if v is not None else UNIT
                if kind != 'ret' or deserialises(v):
                    derived = True
                    continue
                if not (v[0] == 'adt' and v[1] == RES):
                    out.append(('value', ty.s, '%s: reading gives `%s`' % (body.path, show(v, 200))))
                    continue
                if v[2] == 1:
                    continue
                bad = [f for f, x in s.facts.items() if x == 1 and deserialises(f)]
                if bad:
                    out.append(('lenient', ty.s, '%s accepts a value although `%s` failed' % (body.path, show(bad[0], 100))))
                    continue
                P = v[3][0]
                if P[0] == 'adt' and '__DeserializeWith' in P[1]:
                    P = P[3][0]
                if read(P):
                    out.append(('ok', ty.s, ''))
                elif P[0] == 'adt' and a.get('kind') == 'enum' and not P[3]:
                    eqs = [y[1] for f, x in s.facts.items() if x == 1 and f[0] == 'eq' for y in f[1:] if y[0] == 'k' and isinstance(y[1], str)]
                    if not eqs:
                        out.append(('lenient', ty.s, '%s reads every other value as %s' % (body.path, show(P, 80))))
                    for x in eqs:
                        names[x] = P[2]
                elif P[0] == 'adt' and P[3] and all(x[0] == 'fld' and read(x[1]) for x in P[3]) and same_names(c, a, P):
                    out.append(('ok', ty.s, ''))
                else:
                    out.append(('value', ty.s, '%s: what is read becomes `%s`' % (body.path, show(P, 200))))
            if names and ty.key in ser:
                for i, var in enumerate(a['variants']):
                    for nm, _ in written(F, ser[ty.key], ('adt', ty.key, i, tuple(('arg', 'f%d' % j) for j in range(len(var['fields']))))):
                        if names.get(nm) != i:
                            out.append(('value', ty.s, '%s: variant %s is written as %r, which is read differently' % (body.path, var['name'], nm)))
            # derived enums: a name that is no variant
            if derived and a.get('kind') == 'enum':
                for im2, cr2 in p.impls:
                    for m2 in im2['methods'] if (im2.get('trait') or '').endswith('Visitor') else ():
                        if m2[0] == 'visit_str' and m2[1].startswith(m[1] + '::') and m2[1] in p.bodies:
                            for kind, v, s in F.run(m2[1], [('arg', 'visitor'), K('\x01no such name')]):
                                v = F.deep(s, v) if v is not None else UNIT
                                out.append(('ok', ty.s, ''))
                                if kind == 'ret' and v[0] == 'adt' and v[1] == RES and v[2] == 0:
                                    out.append(('lenient', ty.s, '%s accepts names that are no variant of %s' % (p.bodies[m2[1]].path, ty.s)))
    return out


def read(t):
    return t[0] == 'fld' and t[2] == 'Ok' and deserialises(t[1])


def same_names(c, a, P):
    to = [f['name'] for f in a['variants'][0]['fields']] if a else []
    for j, x in enumerate(P[3]):
        ty = c.F.tyof.get(x[1])
        src = c.p.adts.get(ty.key) if ty is not None and ty.k == 'adt' else None
        k = x[3]
        if src is not None:
            if j >= len(to) or src['variants'][0]['fields'][k]['name'] != to[j]:
                return False
        elif k != j:
            return False
    return True


def written(F, body, selfv):
    """[(name, value)] given to the serializer"""
    got = []
    F.serhook = got
    try:
        F.run(body.key, [selfv, ('arg', 'serializer')])
    finally:
        F.serhook = None
    return got


def expected(F, body):
    """names given to deserialize_enum / deserialize_struct"""
    got = []
    F.deshook = got
    try:
        F.run(body.key, [('arg', 'deserializer')])
    finally:
        F.deshook = None
    for a in got:
        for x in a:
            if x[0] == 'arr' and x[1] and all(y[0] == 'k' and isinstance(y[1], str) for y in x[1]):
                return [y[1] for y in x[1]]
    return None


# ---- C11 --------------------------------------------------------------------------------------
def tempfile(ctx):
    R, c = Result(), get(ctx)
    n = 0
    seen = 0
    for ok, code, s in c.outs:
        cmd, f = c.mode(s)
        for i, e in enumerate(s.ev):
            if e[0] != 'fsmut' or e[1].startswith('create_dir'):
                continue
            p = c.norm(e[2][0])
            if target(c, cmd, f, p) or c.is_cfg(p):
                continue
            if e[1] == 'open:create_new':
                n += 1
                seen += 1
                if fact(s, e[3]) == 1:
                    if any(x[0] == 'fsmut' and c.norm(x[2][0]) == p and x[1] != 'open:create_new' for x in s.ev[i + 1:]) and \
                            not any(x[0] == 'fsmut' and c.norm(x[2][0]) == p and x[1] == 'open:create_new' and fact(s, x[3]) == 0 for x in s.ev[i + 1:]):
                        R.bad('foreign:%s' % e[5], '%s: the file `%s` is touched although it could not be created exclusively; path: %s' % (loc(e), show(p), c.trace(s)))
                    continue
                later = [x for x in s.ev[i + 1:] if x[0] in ('fsmut',) and c.norm(x[2][0]) == p]
                if not later or later[-1][1] not in ('remove_file', 'rename'):
                    if code == 'panic' and guarded(c, s, p):
                        continue
                    R.bad('left:%s' % e[5], '%s: the temporary file `%s` is not removed on a path that ends with %s; path: %s' % (
                        loc(e), show(p), 'a panic' if code == 'panic' else 'status %s' % code, c.trace(s)))
            else:
                n += 1
                if created(c, s, p, i) is None:
                    R.bad('foreign:%s:%s' % (e[5], e[1]), '%s: %s touches `%s`, which this run has not created itself: a file of the user could be lost; path: %s' % (loc(e), e[1], show(p), c.trace(s)))
    if not seen:
        pdfs = [s for ok, code, s in c.outs if c.mode(s) == ('Parse', 'Pdf')]
        if not pdfs:
            R.bad('anchor:pdf', 'no path converts to PDF')
    base(R, c, 'a file that is neither output nor configuration is created exclusively (fails if the name is taken) before anything else is done to it, and on '
         'every path after its creation - success, error or explicit panic - the last operation on it is its removal', n)
    return R


def guarded(c, s, p):
    for k, v in s.mem.items():
        if c.F.hasdrop(v) and any(c.norm(x) == p for x in sub(c.F.deep(s, v))):
            return True
    return False


# ---- C17 --------------------------------------------------------------------------------------
def configfirst(ctx):
    R, c = Result(), get(ctx)
    n = 0
    for ok, code, s in c.outs:
        cmd, f = c.mode(s)
        if cmd != 'Parse':
            continue
        first = next((i for i, e in enumerate(s.ev) if e[0] in ('fsmut', 'hwrite')), None)
        bad = [e for i, e in enumerate(s.ev) if e[3] is not None and fact(s, e[3]) == 1 and not tolerated(c, s, e) and
               (e[0] == 'read' and c.is_cfg(e[2][0]) or e[0] == 'op' and any(x[0] == 'content' and c.is_cfg(x[1]) for x in sub(e[2])))]
        n += 1
        if bad and ok:
            R.bad('cfg:ignored', '%s (%s) failed on the configuration file, yet the run succeeds; path: %s' % (bad[0][1], loc(bad[0]), c.trace(s)))
        if bad and first is not None:
            R.bad('cfg:late', 'files are written although the configuration is invalid (%s at %s); path: %s' % (bad[0][1], loc(bad[0]), c.trace(s)))
        if first is not None:
            good = absent(c, s, first, True) or any(tolerated(c, s, e) for e in s.ev[:first])
            for i, e in enumerate(s.ev[:first]):
                if e[0] == 'op' and e[1].endswith(('try_deserialize', 'try_into')) and fact(s, e[3]) == 0 and s.when.get(e[3], 1 << 30) <= first and \
                        any(x[0] == 'content' and c.is_cfg(x[1]) for x in sub(e[2])):
                    good = True
            if not good:
                R.bad('cfg:unchecked', 'the output is written on a path on which the configuration file was not validated before; path: %s' % c.trace(s))
    for kind, key, msg in custom(c):
        n += 1
        if kind == 'lenient':
            R.bad('cfg:lenient:' + key, 'invalid configuration values are accepted: ' + msg)
    if n < 4:
        R.bad('anchor:cfg', 'too few paths of `parse` found')
    base(R, c, 'on every path of `parse` the first change to any file comes after the configuration file was found absent or was read and deserialised '
         'successfully; paths on which that fails change nothing and fail', n)
    return R


# ---- C19 --------------------------------------------------------------------------------------
def source(ctx):
    R, c = Result(), get(ctx)
    n = 0
    for ok, code, s in c.outs:
        cmd, f = c.mode(s)
        for i, e in enumerate(s.ev):
            if e[0] != 'fsmut' or e[1].startswith('create_dir'):
                continue
            for j, a in enumerate(e[2]):
                if not isinstance(a, tuple) or (e[1] in ('write',) and j == 1) or (e[1] == 'copy' and j == 0):
                    continue
                p = c.norm(a)
                if p[0] not in ('call', 'fld', 'cat', 'top', 'loop', 'eff', 'mut', 'arg', 'content', 'k', 'adt'):
                    continue
                n += 1
                if c.is_cfg(p):
                    continue
                if e[1] == 'open:create_new' or created(c, s, p, i) is not None:
                    continue
                if not different(c, s, p, i):
                    R.bad('source:%s:%s' % (e[5], e[1]), '%s: %s on `%s` can hit the document being converted (it is not compared with the input path first); path: %s' % (
                        loc(e), e[1], show(p), c.trace(s)))
                elif not unlinked(c, s, p, i):
                    R.bad('link:%s:%s' % (e[5], e[1]), '%s: %s on `%s` can hit the document being converted (the path may be a link to it: where it leads is not compared with the input first); path: %s' % (
                        loc(e), e[1], show(p), c.trace(s)))
    if n < 4:
        R.bad('anchor:src', 'no path of `parse` writes an output file')
    base(R, c, 'every operation that can change a file names a path that was compared with the input path before, on the same path through the program, and differs '
         '(or that this run created exclusively, or the configuration file)', n)
    return R


def different(c, s, p, i):
    ext = c.out_ext(p)
    for f, v in s.facts.items():
        if s.when.get(f, 1 << 30) > i:
            continue
        if f[0] == 'eq' and v == 0:
            a, b = c.norm(f[1]), c.norm(f[2])
            for x, y in ((a, b), (b, a)):
                if c.is_input(x) and y == p:
                    return True
                # comparison of the whole extension
                if ext is not None and isext(c, x) and (y == K(ext) or y == Some(K(ext))):
                    return True
                if isext(c, x) and y[0] == 'call' and y[1] == 'extension' and c.norm(y[2][0]) == p:
                    return True
        # without an extension it is not the file with one
        if ext is not None and v == 0 and f[0] == 'call' and f[1] == 'extension' and c.is_input(f[2][0]):
            return True
        # were p the input path, the two sides would be the same
        pair, same = compared(f, v)
        if pair is not None and not same:
            for x in c.inputs(f):
                if put(c, pair[0], p, x) == put(c, pair[1], p, x):
                    return True
        if isinstance(v, int) and f[0] == 'call':
            for x in c.inputs(f):
                g = s.facts.get(put(c, f, p, x), v)
                if isinstance(g, int) and g != v:
                    return True
    return unlinked(c, s, p, i, True)


def givenresolved(c):
    """the input path has been resolved (links followed) when the command line was read"""
    if not hasattr(c, '_resolved'):
        rs = []
        for k, b in c.p.bodies.items():
            if b.crate.name == 'smd' and not b.crate.bin and b.kind == 'fn' and b.argc == 1 and b.lty(1).peel() is not None and b.lty(1).peel().s == 'str' and \
                    b.lty(0).s.startswith('std::result::Result<std::path::PathBuf'):
                for kind, v, s in c.F.run(k, [('arg', 'dir')]):
                    v = c.F.deep(s, v)
                    if kind == 'ret' and v[0] == 'adt' and v[2] == 0:
                        q = v[3][0]
                        rs.append(q[0] == 'fld' and q[2] == 'Ok' and q[1][0] == 'eff' and q[1][2] == 'canonicalize')
        c._resolved = bool(rs) and all(rs)
    return c._resolved


def unlinked(c, s, p, i, strong=False):
    """before event i, p is known not to be a symbolic link to the input (strong: nor the input path itself)"""
    def resolved(t, path):
        if t[0] == 'fld' and t[2] in ('Ok', 'Some'):
            t = t[1]
        while t[0] == 'call' and t[1].split('::')[-1] in ('ok', 'Result::ok') and len(t[2]) == 1:
            t = t[2][0]
        return t[0] == 'eff' and t[2] == 'canonicalize' and path(c.norm(t[3][0]))

    def out(t):
        return resolved(t, lambda q: q == p)

    def inp(t):
        return resolved(t, c.is_input) or c.is_input(c.norm(t)) and givenresolved(c)
    for e in s.ev[:i]:
        if e[0] != 'probe' or e[3] is None:
            continue
        q, f = c.norm(e[2][0]), fact(s, e[3])
        # nothing there that leads anywhere, or the input itself is gone
        if f == 1 and e[1] in ('canonicalize', 'metadata') and (q == p or c.is_input(q)):
            return True
        if f == 1 and e[1] == 'read_link' and q == p and not strong:
            return True
    for f, v in s.facts.items():
        if s.when.get(f, 1 << 30) > i:
            continue
        if v == 0 and f[0] == 'call' and f[1] in ('exists', 'is_file' if not strong else '', 'is_symlink' if not strong else '') and c.norm(f[2][0]) == p:
            return True
        if v == 0 and f[0] == 'fld' and f[1][0] == 'eff' and f[1][2] in ('exists', 'try_exists', 'is_symlink' if not strong else '') and c.norm(f[1][3][0]) == p:
            return True
        pair, same = compared(f, v)
        if pair is not None and not same:
            for x, y in (pair, pair[::-1]):
                if out(x) and inp(y):
                    return True
    return False


def compared(f, v):
    """the two sides a fact compares, and whether they are equal"""
    if f[0] == 'eq' and v in (0, 1):
        return (f[1], f[2]), v == 1
    if f[0] == 'call' and len(f[2]) == 2:
        if f[1] == 'Iterator::eq' and v in (0, 1):
            return f[2], v == 1
        if f[1] in ('Ord::cmp', 'Iterator::cmp') and (isinstance(v, int) or isinstance(v, frozenset) and 1 in v):
            return f[2], v == 1
    return None, None


def put(c, t, p, x):
    """t with x for p; Some(unwrapped) is the option itself"""
    if not isinstance(t, tuple) or not t:
        return t
    if isinstance(t[0], str) and c.norm(t) == p:
        return x
    t = tuple(put(c, y, p, x) if isinstance(y, tuple) else y for y in t)
    if t[0] == 'adt' and len(t) > 3 and t[1] == OPT and t[2] == 1 and t[3][0][0] == 'fld' and t[3][0][2] == 'Some':
        return t[3][0][1]
    return t


def isext(c, x):
    if x[0] == 'fld' and x[2] == 'Some':
        x = x[1]
    return x[0] == 'call' and x[1] == 'extension' and c.is_input(x[2][0])
