"""What library functions do, as far as the command-line rules need it: which are content
preserving, which are control (Result/Option combinators), which are effects."""
from flow import *

IDENT = {'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'to_owned', 'into', 'from', 'as_str', 'as_path', 'as_bytes', 'into_bytes',
         'as_mut_str', 'to_path_buf', 'into_boxed_str', 'into_boxed_path', 'into_owned', 'into_string', 'must_use', 'as_os_str', 'to_vec', 'as_slice', 'into_path_buf',
         'into_os_string', 'to_string', 'into_boxed_slice', 'into_vec', 'black_box', 'identity', 'as_mut_os_string', 'as_encoded_bytes', 'by_ref', 'into_iter', 'to_os_string'}
IDENT2 = {'Path::new', 'OsStr::new', 'Box::new', 'Arc::new', 'Rc::new', 'Cow::Borrowed', 'Cow::Owned', 'Box::pin', 'String::from_utf8_lossy_owned', 'Mutex::new', 'OsString::from', 'PathBuf::from'}
# operations whose outcome the program must not ignore (crates of the environment it works on)
OPCRATES = ('config', 'toml', 'headless_chrome', 'toml_edit', 'serde_json')
READS = {'fs::read_to_string': 'read_to_string', 'fs::read': 'read'}
PROBES = {'exists', 'is_file', 'is_dir', 'try_exists', 'metadata', 'symlink_metadata', 'canonicalize', 'is_symlink', 'read_dir', 'read_link'}
FSMUT = {'create_dir', 'create_dir_all', 'remove_file', 'remove_dir', 'remove_dir_all', 'rename', 'copy', 'hard_link', 'set_permissions', 'write', 'soft_link', 'set_times'}
OOPT = {'read', 'write', 'append', 'truncate', 'create', 'create_new', 'mode', 'custom_flags'}


def ev(st, kind, name, args, t, fr, fallible=True):
    """append an event; -> term standing for its result"""
    n = len(st.ev)
    term = ('eff', n, name, args)
    st.ev = st.ev + ((kind, name, args, term if fallible else None, tuple(t['s']) if t.get('s') else None, fr.body.path),)
    return term


def strcat(*xs):
    out = []
    for x in xs:
        if x[0] == 'cat':
            out.extend(x[1])
        else:
            out.append(x)
    r = []
    for x in out:
        if x == K(''):
            continue
        if r and r[-1][0] == 'k' and x[0] == 'k' and isinstance(r[-1][1], str) and isinstance(x[1], str):
            r[-1] = K(r[-1][1] + x[1])
        else:
            r.append(x)
    if not r:
        return K('')
    return r[0] if len(r) == 1 else ('cat', tuple(r))


def fmt_template(b, args):
    pieces, i, ai = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            pieces.append(K(b[i:i + n].decode('utf-8', 'replace')))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            pieces.append(K(b[i:i + ln].decode('utf-8', 'replace')))
            i += ln
        else:
            spec = n & 7
            i += (4 if n & 1 else 0) + (2 if n & 2 else 0) + (2 if n & 4 else 0)
            if n & 8:
                ai = b[i] | b[i + 1] << 8
                i += 2
            a = args[ai] if ai < len(args) else TOP
            ai += 1
            pieces.append(('spec', a) if spec else a)
    return strcat(*pieces)


def external(F, st, fr, blk, path, rp, fty, targs, args, t):
    seg = lastseg(path)
    name = seg[-1] if seg else path
    two = '::'.join(seg[-2:])
    rsegs = lastseg(rp)
    rtwo = '::'.join(rsegs[-2:])
    R = lambda v, s=None: [('ret', v, s if s is not None else st)]
    kfull = (fty.raw.get('res') or {}).get('key') or fty.raw.get('key') or path
    crate = kfull.lstrip('<&').split('::')[0]
    D = lambda i: F.deep(st, args[i])
    dty = fr.body.lty(t['d'][0]) if t.get('d') and not t['d'][1] else None

    # ---- control
    if path.startswith(('core::panicking', 'std::rt::', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'std::panicking')):
        return [('panic', TOP, st)]
    if path == 'std::process::exit':
        return [('exit', D(0), st)]
    if path == 'std::process::abort':
        return [('exit', K(134), st)]
    if two == 'Parser::parse' or two in ('Parser::try_parse', 'Parser::parse_from', 'Parser::try_parse_from'):
        v = F.settype(('root', 'cli'), targs[0] if targs else None)
        return R(v if 'try' not in two else Ok(v))
    if path.startswith('log::'):
        if name == 'max_level':
            return R(LOG)
        if name == 'enabled':
            return R(LOG)
        return R(UNIT)
    if crate == 'env_logger':
        if dty is not None and dty.k == 'adt' and dty.key == RES:
            return R(F.settype(ev(st, 'op', two, (), t, fr), dty))
        return R(args[0] if dty is not None and dty.k == 'ref' and args else ('call', two, ()))
    if any(F.content(st, a) == LOG for a in args):
        return R(LOG)
    if any(c[0] == 'adt' and c[1] in ('log::Level', 'log::LevelFilter') for c in (F.content(st, a) for a in args)):
        return R(LOG)
    if name == 'branch' and seg[-2:-1] == ['Try']:
        key = OPT if 'Option' in rp else RES
        out = []
        for s, i, p in F.split(st, args[0], key):
            if key == RES:
                out.append(('ret', ('adt', CF, 0, (p,)) if i == 0 else ('adt', CF, 1, (Err(p),)), s.copy()))
            else:
                out.append(('ret', ('adt', CF, 0, (p,)) if i == 1 else ('adt', CF, 1, (NONE,)), s.copy()))
        return out
    if name == 'from_residual':
        v = F.content(st, args[0])
        if v[0] == 'adt' and v[1] == RES:
            return R(Err(v[3][0]))
        if v[0] == 'adt' and v[1] == OPT:
            return R(NONE)
        return R(Err(v))
    if name == 'from_output':
        return R(Ok(args[0]))
    if name in ('call', 'call_mut', 'call_once') and len(seg) > 1 and seg[-2] in ('Fn', 'FnMut', 'FnOnce'):
        a = F.content(st, args[1]) if len(args) > 1 else UNIT
        return F.apply(st, fr, ('call', blk), args[0], list(a[1]) if a[0] == 'tup' else [a], t)
    if name in ('then', 'then_some') and 'bool' in rp and len(args) == 2:
        out = []
        for b in (True, False):
            s = F.assume_bool(st, D(0), b)
            if s is None:
                continue
            s = s.copy()
            if not b:
                out.append(('ret', NONE, s))
            elif name == 'then_some':
                out.append(('ret', Some(args[1]), s))
            else:
                out += [(k, Some(v) if k == 'ret' else v, s2) for k, v, s2 in F.apply(s, fr, ('then', blk), args[1], [], t)]
        return out
    if len(seg) > 1 and seg[-2] in ('Result', 'Option'):
        r = combinator(F, st, fr, blk, seg[-2], name, args, t, dty)
        if r is not None:
            return r

    # ---- formatting and strings
    if name.startswith('new_') and 'Argument' in two:
        return R(D(0))
    if two == 'Argument::from_usize':
        return R(D(0))
    if two == 'Arguments::from_str' or two == 'Arguments::new_const':
        v = D(0)
        if v[0] == 'arr':
            v = strcat(*v[1])
        return R(v)
    if two == 'Arguments::new':
        tpl, arr = D(0), D(1)
        al = list(arr[1]) if arr[0] in ('arr', 'tup') else []
        if tpl[0] == 'arr' and all(x[0] == 'k' for x in tpl[1]):
            tpl = K(bytes(x[1] for x in tpl[1]))
        if tpl[0] == 'k' and isinstance(tpl[1], (bytes, bytearray)):
            return R(fmt_template(tpl[1], al))
        return R(('call', 'format', (tpl,) + tuple(al)))
    if path in ('std::fmt::format', 'alloc::fmt::format', 'std::fmt::format::format_inner'):
        return R(strcat(D(0)))
    if name == 'write_str' or (name == 'write_fmt' and seg[-2:-1] in (['Formatter'],)) or (len(seg) > 1 and seg[-2] in ('Formatter',)) or 'fmt::Write' in path:
        p = F.content(st, args[0])
        if args[0][0] == 'ref' and name in ('write_str', 'write_fmt'):
            setref(F, st, args[0], strcat(p, D(1)))
        return R(Ok(UNIT))
    if two == 'String::insert_str' and args[0][0] == 'ref':
        old = F.content(st, args[0])
        at = D(1)
        setref(F, st, args[0], strcat(D(2), old) if at == K(0) else ('call', 'insert_str', (old, at, D(2))))
        return R(UNIT)
    if two in ('String::push_str', 'String::push') and args[0][0] == 'ref':
        setref(F, st, args[0], strcat(F.content(st, args[0]), D(1)))
        return R(UNIT)
    if two in ('String::new', 'Vec::new', 'String::with_capacity', 'Vec::with_capacity'):
        return R(K('') if 'String' in two else ('arr', ()))
    if two == 'Vec::extend_from_slice' and args[0][0] == 'ref':
        old = F.content(st, args[0])
        setref(F, st, args[0], strcat(old, D(1)) if old != ('arr', ()) else D(1))
        return R(UNIT)
    if two == 'Add::add':
        return R(strcat(D(0), D(1)))
    if two == 'AddAssign::add_assign' and args[0][0] == 'ref':
        setref(F, st, args[0], strcat(F.content(st, args[0]), D(1)))
        return R(UNIT)

    # ---- comparisons
    if name in ('eq', 'ne') and 'PartialEq' in path:
        v = F.eqv(D(0), D(1))
        return R(v if name == 'eq' else F.neg(v))
    if name in ('discriminant_value', 'discriminant'):
        v = D(0)
        return R(K(v[2]) if v[0] == 'adt' else ('discr', v))
    if name == 'not' and 'ops::Not' in path:
        return R(F.neg(D(0)))

    # ---- paths
    if two == 'PathBuf::set_extension' and args[0][0] == 'ref':
        old = F.content(st, args[0])
        setref(F, st, args[0], ('call', 'with_extension', (old, D(1))))
        return R(('call', 'set_extension?', (old, D(1))))
    if two == 'PathBuf::push' and args[0][0] == 'ref':
        setref(F, st, args[0], ('call', 'join', (F.content(st, args[0]), D(1))))
        return R(UNIT)
    if two == 'PathBuf::set_file_name' and args[0][0] == 'ref':
        setref(F, st, args[0], ('call', 'with_file_name', (F.content(st, args[0]), D(1))))
        return R(UNIT)
    if seg[-2:-1] == ['Path'] and name in PROBES:
        term = ev(st, 'probe', name, (D(0),), t, fr, fallible=True)
        if name == 'exists' or name.startswith('is_'):
            return R(('call', 'exists' if name in ('exists',) else name, (D(0),)))
        return R(term)
    if seg[-2:-1] == ['Path'] or seg[-2:-1] == ['PathBuf']:
        if name in ('with_extension', 'join', 'with_file_name', 'parent', 'extension', 'file_name', 'file_stem', 'to_str', 'to_string_lossy', 'display', 'components', 'starts_with', 'ends_with', 'is_absolute', 'is_relative'):
            return R(F.settype(('call', name, tuple(F.deep(st, a) for a in args)), dty))

    # ---- effects
    r = effects(F, st, fr, blk, path, seg, name, two, rp, crate, args, t, dty, D, R)
    if r is not None:
        return r

    if two in ('ExitCode::from', 'From::from') and dty is not None and 'ExitCode' in dty.s:
        return R(D(0))
    if name == 'report' and 'Termination' in path:
        return R(D(0))
    if name == 'clone' or name == 'cloned' and len(args) == 1:
        return R(F.content(st, args[0]))
    if name == 'default' and 'Default' in path:
        s = dty.s if dty is not None else '?'
        if s == 'bool':
            return R(K(0))
        if s.endswith('String'):
            return R(K(''))
        return R(F.settype(('call', 'default', (s,)), dty))
    if (name in IDENT and len(args) == 1) or two in IDENT2:
        a = args[0]
        if a[0] == 'ref' and name in ('to_string', 'to_owned', 'to_path_buf', 'to_os_string', 'to_vec'):
            v = D(0)
            return R(a if v == TOP else v)
        return R(a)
    if name in ('take', 'replace') and path.startswith(('std::mem::', 'core::mem::')) and args[0][0] == 'ref':
        old = F.content(st, args[0])
        setref(F, st, args[0], D(1) if name == 'replace' else ('call', 'default', (dty.s if dty is not None else '?',)))
        return R(old)
    if name == 'drop' and path.startswith(('std::mem', 'core::mem')):
        o = F.dropval(st, fr, blk, args[0], t)
        return [(k, UNIT if k == 'ret' else v, s) for k, v, s in o]
    if name == 'forget' and path.startswith(('std::mem', 'core::mem')):
        return R(UNIT)

    if getattr(F, 'deshook', None) is not None and name.startswith('deserialize_'):
        F.deshook.append([F.deep(st, a) for a in args])
    if getattr(F, 'serhook', None) is not None:
        dd = [F.deep(st, a) for a in args]
        if name in ('serialize_field', 'serialize_entry') and len(dd) >= 3:
            F.serhook.append((dd[1][1] if dd[1][0] == 'k' else '?', dd[2]))
        if name.endswith('_variant') and len(dd) >= 4:
            F.serhook.append((dd[3][1] if dd[3][0] == 'k' else '?', None))

    # ---- anything else: a value made of its arguments; closures handed over may run
    states = [st]
    outs = []
    lams = {}
    if crate not in ('env_logger', 'clap', 'clap_builder', 'log'):
        for n, a in enumerate(args):
            c = F.content(st, a)
            if c[0] == 'clo' and c[1] in F.p.bodies:
                nxt = list(states)
                lam = set()
                for s in states:
                    b = F.p.bodies[c[1]]
                    before = s.ev
                    extra = [('call', 'element', tuple(F.deep(s, x) for j, x in enumerate(args) if j != n)) for _ in range(b.argc - 1)]
                    for k, v, s2 in F.apply(s.copy(), fr, ('ext', blk, n), a, extra, t):
                        if k == 'ret':
                            lam.add(F.deep(s2, v))
                            if s2.ev != before:
                                nxt.append(s2)
                        else:
                            outs.append((k, v, s2))
                states = nxt
                if len(lam) == 1:
                    lams[n] = ('lam', lam.pop())
    F.unknown.setdefault(rp, set()).add(fr.body.path)
    isres = dty is not None and dty.k == 'adt' and dty.key == RES
    for s in states:
        dargs = tuple(lams.get(j) or F.deep(s, a) for j, a in enumerate(args))
        nm = two if crate not in ('core', 'alloc', 'std') else two
        if crate in OPCRATES and isres:
            v = ev(s, 'op', nm, dargs, t, fr)
            pay = (dty.args() or [None])[0]
            if pay is not None and pay.k == 'ref' and args and fr.body.lty(t['a'][0][1][0]).peel().s == pay.peel().s if t['a'] and t['a'][0][0] in ('c', 'm') and not t['a'][0][1][1] else False:
                # returns the receiver itself
                F.settype(v, dty)
                for i, w in ((0, Ok(args[0])), (1, Err(F.fld(v, 'Err', 0)))):
                    s2 = F.assume_var(s, v, i)
                    if s2 is not None:
                        outs.append(('ret', w, s2.copy()))
                continue
        elif isres and (kfull.startswith(('std::io', 'std::fs')) or crate == 'env_logger' or two == 'Mutex::lock' or crate in WS):
            v = ev(s, 'op', nm, dargs, t, fr)
        else:
            v = ('call', nm, dargs)
        F.settype(v, dty)
        for i, a in enumerate(args):
            if a[0] == 'ref' and i < len(t['a']) and refmut(fr, t['a'][i]):
                setref(F, s, a, ('mut', nm, F.content(s, a), tuple(d for j, d in enumerate(dargs) if j != i)))
                if dty is not None and dty.k == 'ref' and i == 0:
                    v = a
        outs.append(('ret', v, s))
    return outs


def refmut(fr, op):
    if op[0] not in ('c', 'm'):
        return False
    try:
        ty = fr.body.lty(op[1][0])
    except Exception:
        return False
    if op[1][1]:
        return False
    return ty.k == 'ref' and ty.mut


def setref(F, st, r, v):
    """write through a reference (following references stored in the target)"""
    n = 0
    while n < 10:
        cur = F.loadref(st, r)
        if cur[0] == 'ref':
            r = cur
            n += 1
            continue
        break
    root = (r[1], r[2])
    st.mem[root] = F.setpath(st.mem.get(root, TOP), r[3], v)


def handle_path(h):
    """the path a file handle was opened with, and how; ('eff',..) of the opening"""
    while True:
        if h[0] == 'fld' and h[2] in ('Ok', None):
            h = h[1]
        elif h[0] == 'mut':
            h = h[2]
        elif h[0] == 'call' and h[1] in ('BufWriter::new', 'LineWriter::new', 'BufReader::new', 'BufWriter::with_capacity', 'get_ref', 'get_mut', 'try_clone', 'BufWriter::get_mut', 'BufWriter::get_ref'):
            h = h[2][-1] if h[1].endswith('with_capacity') else h[2][0]
        elif h[0] == 'eff' and h[2] in ('into_inner',):
            h = h[3][0]
        else:
            break
    return h if h[0] == 'eff' else None


def buffered(h):
    while h[0] in ('fld', 'mut'):
        h = h[1] if h[0] == 'fld' else h[2]
    return h[0] == 'call' and h[1] in ('BufWriter::new', 'LineWriter::new', 'BufWriter::with_capacity')


def effects(F, st, fr, blk, path, seg, name, two, rp, crate, args, t, dty, D, R):
    own = seg[-2] if len(seg) > 1 else ''
    if path.startswith('std::fs::') and len(seg) == 3 or (own == 'fs' and path.startswith('std::')):
        if two in READS:
            return R(F.settype(ev(st, 'read', READS[two], (D(0),), t, fr), dty))
        if name in ('metadata', 'symlink_metadata', 'canonicalize', 'read_link', 'exists', 'read_dir'):
            term = ev(st, 'probe', name, (D(0),), t, fr)
            return R(F.settype(term, dty))
        return R(F.settype(ev(st, 'fsmut', name, tuple(F.deep(st, a) for a in args), t, fr), dty))
    if own == 'File':
        if name == 'open':
            return R(F.settype(ev(st, 'read', 'open', (D(0),), t, fr), dty))
        if name in ('create', 'create_new'):
            return R(F.settype(ev(st, 'fsmut', 'open:' + name, (D(0),), t, fr), dty))
        if name == 'options':
            return R(('oo', frozenset()))
        if name in ('sync_all', 'sync_data'):
            return R(F.settype(ev(st, 'flush', name, (D(0),), t, fr), dty))
        if name in ('set_len', 'set_permissions', 'set_modified', 'set_times', 'lock', 'unlock', 'try_lock'):
            return R(F.settype(ev(st, 'hmut', name, tuple(F.deep(st, a) for a in args), t, fr), dty))
        if name == 'metadata':
            return R(F.settype(ev(st, 'probe', name, (D(0),), t, fr), dty))
    if own == 'OpenOptions' or own == 'OpenOptionsExt':
        if name == 'new':
            return R(('oo', frozenset()))
        if name in OOPT:
            o = F.content(st, args[0])
            if o[0] == 'oo' and args[0][0] == 'ref':
                v = D(1)
                o2 = frozenset(x for x in o[1] if x[0] != name) | {(name, v)}
                setref(F, st, args[0], ('oo', o2))
            return R(args[0])
        if name == 'open':
            o = F.content(st, args[0])
            opts = {k for k, v in o[1] if v == K(1)} if o[0] == 'oo' else {'unknown'}
            unk = o[0] != 'oo' or any(v[0] != 'k' for k, v in o[1] if k in ('write', 'append', 'truncate', 'create', 'create_new'))
            if unk:
                nm = 'open:unknown'
            elif 'create_new' in opts and ({'write', 'append'} & opts):
                nm = 'open:create_new'
            elif 'write' in opts and 'truncate' in opts:
                nm = 'open:create' if 'create' in opts else 'open:truncate'
            elif {'write', 'append', 'create', 'truncate'} & opts:
                nm = 'open:update'
            else:
                return R(F.settype(ev(st, 'read', 'open', (D(1),), t, fr), dty))
            return R(F.settype(ev(st, 'fsmut', nm, (D(1),), t, fr), dty))
    if own == 'Write' and name in ('write_all', 'write', 'write_fmt', 'flush', 'write_vectored', 'write_all_vectored'):
        h = F.deep(st, args[0])
        if stdio(h):
            return R(Ok(UNIT))
        if memwriter(F, h, args[0], fr, t):
            if args[0][0] == 'ref' and name in ('write_all', 'write_fmt'):
                old = F.content(st, args[0])
                setref(F, st, args[0], D(1) if old == ('arr', ()) else strcat(old, D(1)))
            return R(Ok(UNIT if name != 'write' else ('call', 'len', (D(1),))))
        if name == 'flush':
            return R(F.settype(ev(st, 'flush', name, (h,), t, fr), dty))
        return R(F.settype(ev(st, 'hwrite', name, (h, D(1)), t, fr), dty))
    if name == 'into_inner' and own in ('BufWriter', 'LineWriter', 'IntoInnerError'):
        return R(F.settype(ev(st, 'flush', 'into_inner', (D(0),), t, fr), dty))
    if own in ('BufWriter', 'LineWriter', 'BufReader') and name in ('new', 'with_capacity', 'get_ref', 'get_mut'):
        return R(('call', two, tuple(F.deep(st, a) for a in args)))
    if own == 'Read' and name in ('read_to_string', 'read_to_end', 'read', 'read_exact', 'bytes', 'take', 'chain'):
        h = D(0)
        e = handle_path(h)
        p = e[3][0] if e is not None else h
        if name in ('read_to_string', 'read_to_end') and args[1][0] == 'ref':
            n = len(st.ev)
            term = ev(st, 'read', 'contents', (p,), t, fr)
            old = F.content(st, args[1])
            c = ('content', p, n)
            setref(F, st, args[1], c if old in (K(''), ('arr', ())) else strcat(old, c))
            return R(F.settype(term, dty))
        return R(F.settype(ev(st, 'read', name, (p,), t, fr), dty))
    if two == 'io::read_to_string':
        h = D(0)
        e = handle_path(h)
        return R(F.settype(ev(st, 'read', 'contents', (e[3][0] if e is not None else h,), t, fr), dty))
    if two == 'io::copy':
        h = F.deep(st, args[1])
        return R(F.settype(ev(st, 'hwrite', 'write_all', (h, D(0)), t, fr), dty))
    if two == 'String::from_utf8':
        # strict conversion: the text of exactly these bytes, or an error
        v = D(0)
        tm = ev(st, 'op', 'from_utf8', (v,), t, fr)
        F.settype(tm, dty)
        s2 = F.assume_var(st, tm, 0)
        s3 = F.assume_var(st, tm, 1)
        return [('ret', Ok(v), s2), ('ret', Err(F.fld(tm, 'Err', 0)), s3)]
    if path.startswith('std::env::'):
        if name in ('set_var', 'remove_var'):
            if D(0) != K('RUST_LOG'):
                ev(st, 'env', name, tuple(F.deep(st, a) for a in args), t, fr, fallible=False)
            return R(UNIT)
        if name == 'set_current_dir':
            return R(F.settype(ev(st, 'env', name, (D(0),), t, fr), dty))
        if name == 'current_dir':
            n = len(st.ev)
            st.ev = st.ev + (('op', name, (), ('call', 'current_dir', ()), tuple(t['s']), fr.body.path),)
            return R(F.settype(('call', 'current_dir', ()), dty))
        return R(F.settype(('call', 'env::' + name, tuple(F.deep(st, a) for a in args)), dty))
    if path.startswith('std::process::') and own in ('Command', 'Child'):
        if name in ('spawn', 'output', 'status', 'exec', 'wait', 'kill', 'wait_with_output', 'try_wait'):
            return R(F.settype(ev(st, 'spawn', name, tuple(F.deep(st, a) for a in args), t, fr), dty))
    if path.startswith('std::net::') or path.startswith('std::os::'):
        return R(F.settype(ev(st, 'net' if path.startswith('std::net::') else 'os', two, tuple(F.deep(st, a) for a in args), t, fr), dty))
    if path == 'std::process::id':
        return R(('call', 'process::id', ()))
    return None


def stdio(h):
    s = h
    while s[0] in ('fld', 'mut'):
        s = s[1] if s[0] == 'fld' else s[2]
    if s[0] == 'call' and s[1] in ('BufWriter::new', 'LineWriter::new', 'lock', 'Stdout::lock', 'Stderr::lock'):
        return stdio(s[2][0])
    return s[0] == 'call' and s[1].split('::')[-1] in ('stdout', 'stderr')


def memwriter(F, h, a, fr, t):
    if h[0] in ('arr',) or h == K('') or h[0] == 'cat':
        return True
    return False


def combinator(F, st, fr, blk, ty, name, args, t, dty):
    key = RES if ty == 'Result' else OPT
    good = 0 if key == RES else 1
    W = Ok if key == RES else Some
    if name in ('is_ok', 'is_some', 'is_err', 'is_none'):
        v = F.content(st, args[0])
        idx = {'is_ok': 0, 'is_err': 1, 'is_none': 0, 'is_some': 1}[name]
        if v[0] == 'adt':
            return [('ret', K(1 if v[2] == idx else 0), st)]
        return [('ret', ('isvar', v, idx), st)]
    if name in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'copied', 'cloned', 'by_ref', 'inspect', 'inspect_err', 'iter', 'clone') and name not in ('iter',):
        out = []
        if name in ('inspect', 'inspect_err'):
            for s, i, p in F.split(st, args[0], key):
                s = s.copy()
                v = F.content(s, args[0])
                if (i == good) == (name == 'inspect') and p is not None:
                    for k, _, s2 in F.apply(s, fr, ('insp', blk), args[1], [p], t):
                        out.append((k, v, s2))
                else:
                    out.append(('ret', v, s))
            return out
        return [('ret', F.content(st, args[0]), st)]
    if name == 'take':
        v = F.content(st, args[0])
        if args[0][0] == 'ref':
            setref(F, st, args[0], NONE)
        return [('ret', v, st)]
    SUP = {'map', 'map_err', 'and_then', 'or_else', 'unwrap', 'expect', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'ok', 'err', 'ok_or', 'ok_or_else', 'map_or', 'map_or_else',
           'and', 'or', 'unwrap_err', 'expect_err', 'is_some_and', 'is_ok_and', 'is_err_and', 'is_none_or', 'filter', 'flatten', 'transpose', 'unwrap_unchecked', 'then'}
    if name not in SUP:
        return None
    out = []

    def ap(s, f, a, wrap, tag):
        for k, v, s2 in F.apply(s, fr, (tag, blk), f, a, t):
            out.append((k, wrap(v) if k == 'ret' else v, s2))
    idf = lambda v: v
    for s, i, p in F.split(st, args[0], key):
        s = s.copy()
        g = i == good
        bad = Err(p) if key == RES else NONE
        if name == 'map':
            ap(s, args[1], [p], W, 'map') if g else out.append(('ret', bad, s))
        elif name == 'map_err':
            out.append(('ret', Ok(p), s)) if g else ap(s, args[1], [p], Err, 'maperr')
        elif name == 'and_then':
            ap(s, args[1], [p], idf, 'andthen') if g else out.append(('ret', bad, s))
        elif name == 'or_else':
            out.append(('ret', W(p), s)) if g else ap(s, args[1], [p] if key == RES else [], idf, 'orelse')
        elif name in ('unwrap', 'expect', 'unwrap_unchecked'):
            out.append(('ret', p, s) if g else ('panic', TOP, s))
        elif name in ('unwrap_err', 'expect_err'):
            out.append(('panic', TOP, s) if g else ('ret', p, s))
        elif name == 'unwrap_or':
            out.append(('ret', p if g else args[1], s))
        elif name == 'unwrap_or_default':
            out.append(('ret', p if g else K(0) if dty is not None and dty.s == 'bool' else ('call', 'default', (dty.s if dty is not None else '?',)), s))
        elif name == 'unwrap_or_else':
            out.append(('ret', p, s)) if g else ap(s, args[1], [p] if key == RES else [], idf, 'uoe')
        elif name == 'ok':
            out.append(('ret', Some(p) if g else NONE, s))
        elif name == 'err':
            out.append(('ret', NONE if g else Some(p), s))
        elif name == 'ok_or':
            out.append(('ret', Ok(p) if g else Err(args[1]), s))
        elif name == 'ok_or_else':
            out.append(('ret', Ok(p), s)) if g else ap(s, args[1], [], Err, 'ooe')
        elif name == 'map_or':
            ap(s, args[2], [p], idf, 'mo') if g else out.append(('ret', args[1], s))
        elif name == 'map_or_else':
            ap(s, args[2], [p], idf, 'moe') if g else ap(s, args[1], [p] if key == RES else [], idf, 'moe2')
        elif name == 'and':
            out.append(('ret', F.content(s, args[1]) if g else bad, s))
        elif name == 'or':
            out.append(('ret', W(p) if g else F.content(s, args[1]), s))
        elif name in ('is_some_and', 'is_ok_and'):
            ap(s, args[1], [p], idf, 'isa') if g else out.append(('ret', K(0), s))
        elif name == 'is_err_and':
            out.append(('ret', K(0), s)) if g else ap(s, args[1], [p], idf, 'iea')
        elif name == 'is_none_or':
            ap(s, args[1], [p], idf, 'ino') if g else out.append(('ret', K(1), s))
        elif name == 'filter':
            if not g:
                out.append(('ret', NONE, s))
            else:
                for k, v, s2 in F.apply(s, fr, ('filt', blk), args[1], [p], t):
                    if k != 'ret':
                        out.append((k, v, s2))
                        continue
                    for b in (True, False):
                        s3 = F.assume_bool(s2, F.deep(s2, v), b)
                        if s3 is not None:
                            out.append(('ret', Some(p) if b else NONE, s3.copy()))
        elif name == 'flatten':
            out.append(('ret', p if g else bad, s))
        elif name == 'transpose':
            if key == OPT:
                if not g:
                    out.append(('ret', Ok(NONE), s))
                else:
                    for s2, j, q in F.split(s, p, RES):
                        out.append(('ret', Ok(Some(q)) if j == 0 else Err(q), s2.copy()))
            else:
                return None
        else:
            return None
    return out
