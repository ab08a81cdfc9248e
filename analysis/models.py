"""Models of the std / dependency functions the workspace calls."""
import re
from val import *
from dom import *
import engine as E

RANGE = 'core::ops::range::Range'
RANGEI = 'core::ops::range::RangeInclusive'
RFROM = 'core::ops::range::RangeFrom'
RTO = 'core::ops::range::RangeTo'
RTOI = 'core::ops::range::RangeToInclusive'
RFULL = 'core::ops::range::RangeFull'
CF = 'core::ops::control_flow::ControlFlow'

# track_caller functions of std that do not panic on any input reachable here (allocation aside)
SAFE_TC = {'with_capacity', 'reserve', 'push', 'extend', 'extend_from_slice', 'into', 'from', 'from_residual', 'loc', 'from_usize',
           'collect', 'from_iter', 'to_vec', 'clone', 'to_string', 'push_str', 'spawn', 'sort', 'sort_by', 'sort_by_key', 'dedup',
           'fuse', 'append', 'insert_unique', 'resize', 'map', 'clear', 'branch', 'max_level', 'new', 'shrink_to_fit', 'concat', 'join', 'drop', 'repeat_n'}
PANICKY = {'copy_from_slice', 'clone_from_slice', 'split_at_mut', 'swap', 'borrow_mut', 'borrow', 'chunks', 'chunks_exact', 'windows',
           'step_by', 'swap_remove', 'drain', 'split_off', 'rotate_left', 'rotate_right', 'to_digit', 'from_digit', 'pow', 'abs', 'copy_within',
           'unwrap_unchecked', 'get_unchecked', 'insert', 'replace_range', 'remove', 'truncate_', 'splice', 'ilog2', 'ilog10', 'div_euclid', 'rem_euclid'}
IDENT = {'ToOwned::to_owned', 'Clone::clone', 'Deref::deref', 'String::as_str', 'AsRef::as_ref', 'Borrow::borrow', 'Into::into', 'From::from', 'hint::must_use',
         'String::into_boxed_str', 'Box::new', 'str::as_str', 'Vec::as_slice', 'slice::to_vec', 'slice::as_ref', 'String::into_string', 'Iterator::cloned',
         'Iterator::copied', 'Iterator::by_ref', 'Iterator::fuse', 'Option::as_ref', 'Option::as_deref', 'Option::cloned', 'Option::copied', 'Result::as_ref',
         'Cow::into_owned', 'str::into_string', 'convert::identity', 'Vec::into_boxed_slice', 'slice::into_vec', 'str::to_owned', 'Rc::new', 'Arc::new',
         'slice::as_slice', 'str::as_ref', 'String::as_ref', 'Cow::as_ref', 'str::trim_ascii_', 'PathBuf::as_path', 'Path::to_path_buf', 'Path::new', 'PathBuf::from',
         'PathBuf::as_os_str', 'Path::as_os_str', 'Rc::clone', 'Arc::clone', 'Iterator::peekable_', 'String::into_bytes', 'str::as_bytes', 'String::as_bytes', 'black_box',
         'OsStr::to_os_string', 'AsDisplay::as_display', 'PathBuf::into_os_string', 'Path::as_path', 'String::leak', 'String::borrow'}
SUBOPS = {'str::trim': 'trim', 'str::trim_start': 'trim_start', 'str::trim_end': 'trim_end', 'str::trim_left': 'trim_start', 'str::trim_right': 'trim_end',
          'str::trim_start_matches': 'trim_start_matches', 'str::trim_end_matches': 'trim_end_matches', 'str::trim_matches': 'trim_matches',
          'str::trim_left_matches': 'trim_start_matches', 'str::trim_right_matches': 'trim_end_matches'}
SEQOPS = {'str::chars': 'chars', 'str::char_indices': 'char_indices', 'str::bytes': 'bytes', 'str::lines': 'lines', 'str::split': 'split', 'str::splitn': 'splitn',
          'str::rsplit': 'rsplit', 'str::rsplitn': 'rsplitn', 'str::split_whitespace': 'split_whitespace', 'str::matches': 'matches', 'str::rmatches': 'matches', 'str::match_indices': 'match_indices',
          'str::split_terminator': 'split_terminator', 'str::split_inclusive': 'split_inclusive', 'str::split_ascii_whitespace': 'split_whitespace',
          'str::rmatch_indices': 'match_indices'}
OPTOPS = {'str::find': 'find', 'str::rfind': 'rfind', 'str::strip_prefix': 'strip_prefix', 'str::strip_suffix': 'strip_suffix',
          'str::split_once': 'split_once', 'str::rsplit_once': 'rsplit_once'}
PREDS = {'str::contains': 'contains', 'str::starts_with': 'starts_with', 'str::ends_with': 'ends_with'}

_nm = {}


def short(path):
    r = _nm.get(path)
    if r is None:
        s = path
        s = s.replace('<impl str>', 'str').replace('<impl [T]>', 'slice').replace('<impl char>', 'char')
        s = re.sub(r'<impl (\w+)>', r'\1', s)
        s = re.sub(r'<impl .*? for (\w+)>', r'\1', s)
        # drop generic argument lists
        while True:
            t = re.sub(r'(::)?<[^<>]*>', '', s)
            if t == s:
                break
            s = t
        parts_ = [x for x in s.split('::') if x]
        r = '::'.join(parts_[-2:])
        _nm[path] = r
    return r


def charclass(name, c):
    """value of a `char` predicate"""
    a = c.isascii()
    return {'is_alphanumeric': c.isalnum(), 'is_ascii_alphanumeric': a and c.isalnum(), 'is_alphabetic': c.isalpha(),
            'is_ascii_alphabetic': a and c.isalpha(), 'is_ascii_digit': a and c.isdigit(), 'is_whitespace': c.isspace() and c not in '\x1c\x1d\x1e\x1f',
            'is_ascii_whitespace': c in ' \t\n\r\x0c', 'is_ascii': a, 'is_control': ord(c) < 32 or 127 <= ord(c) < 160,
            'is_ascii_control': ord(c) < 32 or ord(c) == 127, 'is_numeric': c.isnumeric(), 'is_uppercase': c.isupper(), 'is_lowercase': c.islower(),
            'is_ascii_uppercase': a and c.isupper(), 'is_ascii_lowercase': a and c.islower(),
            'is_ascii_graphic': 33 <= ord(c) < 127, 'is_ascii_punctuation': 33 <= ord(c) < 127 and not c.isalnum(),
            'is_ascii_hexdigit': c in '0123456789abcdefABCDEF'}.get(name)


# operations that take elements out of a vector or change them in place
SHRINK = {'Vec::' + n for n in ('pop', 'pop_if', 'truncate', 'clear', 'dedup', 'dedup_by', 'dedup_by_key', 'remove', 'swap_remove', 'drain', 'retain', 'retain_mut',
                                'split_off', 'splice', 'extract_if', 'set_len', 'resize', 'as_mut_slice')} | {'DerefMut::deref_mut', 'IndexMut::index_mut'}


class Models:
    def __init__(self, effects=None):
        self.effects = effects or {}
        self.unknown = {}
        self.overrides = {}

    # ---------------------------------------------------------------- helpers
    def deref(self, eng, st, v):
        v = st.norm(v)
        n = 0
        while v.k == 'ref' and n < 6:
            v = st.norm(eng.load(st, v.a[0], v.a[1]))
            n += 1
        return v

    def lref(self, eng, st, v):
        """innermost mutable location a value refers to"""
        v = st.norm(v)
        last = None
        n = 0
        while v.k == 'ref' and n < 6:
            last = v
            v = st.norm(eng.load(st, v.a[0], v.a[1]))
            n += 1
        return last, v

    def update(self, eng, st, ref, v):
        if ref is None:
            eng.note('update-of-pure')
            return
        eng.storeloc(st, (ref.a[0], ref.a[1]), v)

    def targ(self, fty, i=0):
        ts = [a for a in (fty.args() if fty is not None else []) if hasattr(a, 'peel')]
        return ts[i] if i < len(ts) else None

    def override(self, eng, st, fr, body, args, dty, site, t):
        f = self.overrides.get(body.key)
        if f is not None:
            return f(eng, st, fr, body, args, dty, site, t)
        return None

    def call_value(self, eng, st, fr, fv, args, dty, site, t):
        return eng.call_closure(st, fr, fv, args, site, dty)

    def has_ref(self, v):
        return any(x.k == 'ref' for x in subterms(v))

    # ---------------------------------------------------------------- dispatch
    def call(self, eng, st, fr, path, fty, args, dty, site, t):
        s = short(path)
        sp = t.get('s') if t else None
        eff = self.effects.get(s) or self.effects.get(path)
        if eff is not None:
            r = eff(self, eng, st, fr, s, fty, args, dty, site, t)
            if r is not None:
                return r
        if path.startswith(('core::panicking', 'std::rt::begin_panic', 'std::rt::panic', 'core::option::unwrap_failed', 'core::option::expect_failed',
                            'core::result::unwrap_failed', 'std::panicking', 'core::str::slice_error_fail', 'core::slice::index')) or 'panic' in s.lower() and 'catch_unwind' not in s:
            eng.oblige(fr, st, 'panic', False, 'explicit panic `%s` is reachable' % s, sp)
            return []
        if path.startswith('log::'):
            return self.log_call(eng, st, fr, s, args, dty, site)
        # unresolved trait method on a workspace implementation
        r = self.resolve_generic(eng, st, fr, path, fty, args, dty, site, t)
        if r is not None:
            return r
        if s in IDENT or s.split('::')[-1] in ('to_owned', 'clone') and len(args) == 1 and s not in ('RangeInclusive::clone',):
            if s == 'From::from' or s == 'Into::into':
                return self.conv(eng, st, fr, fty, args, dty, site)
            v = st.norm(args[0])
            if s == 'Deref::deref' or v.k != 'ref' or s not in ('Clone::clone', 'ToOwned::to_owned'):
                return [(st, v if s in ('Iterator::by_ref',) else self.shared(eng, st, v))]
            return [(st, self.deref(eng, st, v))]
        if args and s in SHRINK:
            eng.on_shrink(st, fr, self.lref(eng, st, args[0])[0], s)
        h = getattr(self, 'm_' + s.replace('::', '_'), None)
        if h is not None:
            r = h(eng, st, fr, fty, args, dty, site, t)
            if r is not None:
                return r
        d = [self.deref(eng, st, a) for a in args]
        if s in SUBOPS:
            return [(st, self.substr(eng, st, fr, SUBOPS[s], d, site))]
        if s in SEQOPS:
            for a in d[1:]:
                self.probe(eng, st, fr, a, site)
            src = App(SEQOPS[s], *d)
            return [(st, self.it(src))]
        if s in OPTOPS:
            self.probe(eng, st, fr, d[1], site)
            a1 = pat_str(d[1]) if d[1].k == 'char' else eng.charset(st, fr, d[1]) or d[1]
            if d[0].k == 'str' and a1.k == 'str':
                r = self.const_opt(OPTOPS[s], d[0].a, a1.a)
                if r is not None:
                    return [(st, r)]
            v = App(OPTOPS[s], d[0], a1)
            return [(st, v)]
        if s in PREDS:
            self.probe(eng, st, fr, d[1], site)
            return [(st, StrPred(PREDS[s], d[0], eng.charset(st, fr, d[1]) or d[1]))]
        if s.split('::')[0] in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator') or s.startswith(('Peekable::',)):
            r = self.iter_call(eng, st, fr, s.split('::')[1], fty, args, dty, site, t)
            if r is not None:
                return r
        if s.startswith('Option::') or s.startswith('Result::'):
            r = self.opt_call(eng, st, fr, s, fty, args, d, dty, site, t)
            if r is not None:
                return r
        return self.generic(eng, st, fr, path, s, fty, args, d, dty, site, t)

    def const_opt(self, op, s, p):
        def bi(i):
            return blen(s[:i])
        if op == 'find':
            i = s.find(p)
            return Some(Int(bi(i))) if i >= 0 else None_()
        if op == 'rfind':
            i = s.rfind(p)
            return Some(Int(bi(i))) if i >= 0 else None_()
        if op == 'strip_prefix':
            return Some(Str(s[len(p):])) if s.startswith(p) else None_()
        if op == 'strip_suffix':
            return Some(Str(s[:len(s) - len(p)])) if s.endswith(p) else None_()
        if op == 'split_once':
            i = s.find(p)
            return Some(Tup(Str(s[:i]), Str(s[i + len(p):]))) if i >= 0 else None_()
        return None

    def substr(self, eng, st, fr, op, d, site):
        s = d[0]
        if s.k == 'str' and (len(d) == 1 or d[1].k in ('str', 'char')):
            ws = ' \t\n\r\x0b\x0c\x85\xa0'
            if len(d) == 1:
                return Str({'trim': s.a.strip(ws), 'trim_start': s.a.lstrip(ws), 'trim_end': s.a.rstrip(ws)}[op])
            p = pat_str(d[1]).a
            r = s.a
            if p and op in ('trim_start_matches', 'trim_matches'):
                while r.startswith(p):
                    r = r[len(p):]
            if p and op in ('trim_end_matches', 'trim_matches'):
                while r.endswith(p):
                    r = r[:len(r) - len(p)]
            return Str(r)
        for a in d[1:]:
            self.probe(eng, st, fr, a, site)
        if len(d) > 1 and d[1].k == 'char':
            d = [d[0], pat_str(d[1])]
        return App(op, *d)

    def shared(self, eng, st, v):
        return v

    def it(self, src, pos=None):
        return Agg('it', 'seq', 0, (src, pos or Int(0)))

    def probe(self, eng, st, fr, f, site):
        """run a predicate closure on an arbitrary character (for its obligations only)"""
        f = st.norm(f)
        if f.k == 'agg' and f.a[0] == 'closure':
            s2 = st.copy()
            c = Sym('anychar', str(site))
            b = eng.p.bodies.get(f.a[1])
            if b is not None and b.argc >= 2:
                eng.settype(c, b.lty(2))
            eng.call_closure(s2, fr, f, [c], ('probe', site))

    # ---------------------------------------------------------------- generic fallback
    def generic(self, eng, st, fr, path, s, fty, args, d, dty, site, t):
        sp = t.get('s') if t else None
        self.unknown[s] = self.unknown.get(s, 0) + 1
        fn = eng.p.fns.get((fty.raw.get('res') or {}).get('key') or fty.raw.get('key'), {}) if fty is not None else {}
        m = s.split('::')[-1]
        if (fn.get('track_caller') and m not in SAFE_TC) or m in PANICKY and not (m == 'insert' and ('Map' in s or 'Set' in s)) and not (m == 'remove' and ('Map' in s or 'Set' in s)) and not (m == 'swap' and s == 'mem::swap'):
            eng.oblige(fr, st, 'call', False, 'call of `%s`, which may panic, is not covered by a model' % path, sp)
        for a in args:
            if a.k == 'agg' and a.a[0] == 'closure':
                s2 = st.copy()
                b = eng.p.bodies.get(a.a[1])
                if b is not None:
                    xs = []
                    for i in range(2, b.argc + 1):
                        x = Sym('anyarg', str(site), i)
                        eng.settype(x, b.lty(i))
                        xs.append(x)
                    eng.call_closure(s2, fr, a, xs, ('gen', site))
        had = False
        for a in args:
            if self.has_ref(a):
                had = True
                eng.havoc_refs(st, a, site)
        v = App('fn:' + s, *(d or [Tup()]))
        if had or not self.pure_name(path):
            v = App('fn:' + s, eng.fresh('call', site), *d)
        eng.settype(v, dty)
        if dty is not None and dty.k == 'tuple' and not dty.raw.get('ts'):
            v = Tup()
        return [(st, v)]

    def pure_name(self, path):
        return path.startswith(('core::', 'alloc::', 'std::str', 'std::string', 'std::vec', 'std::option', 'std::result', 'std::iter', 'std::cmp', 'std::char', 'std::slice', 'std::ops', 'std::path', '<'))

    def resolve_generic(self, eng, st, fr, path, fty, args, dty, site, t):
        if fty is None:
            return None
        r = fty.raw.get('res')
        if r and r.get('kind') == 'item':
            return None
        key = fty.raw.get('key') or ''
        if key.split('::')[0] not in eng.workspace():
            return None
        m = path.split('::')[-1]
        tr = '::'.join(key.split('::')[:-1])
        cands = []
        for im, c in eng.p.impls:
            it = (im.get('trait') or '')
            if it and (it == tr or tr.endswith(it) or it.endswith('::'.join(tr.split('::')[1:]))):
                for mm in im['methods']:
                    if mm[0] == m and mm[1] in eng.p.bodies:
                        cands.append(mm[1])
        out = []
        for k in dict.fromkeys(cands):
            out += eng.call_body(st.copy(), fr, eng.p.bodies[k], args, dty, ('dyn', site, k), t)
        return out or None

    def conv(self, eng, st, fr, fty, args, dty, site):
        v = st.norm(args[0])
        src = self.targ(fty, 1) or None
        if dty is not None:
            dt = dty.peel() or dty
            # workspace From impls
            if dt.k == 'adt' and dt.key.split('::')[0] in eng.workspace():
                for im, c in eng.p.impls:
                    if im.get('trait') and im['trait'].endswith('convert::From'):
                        ty = c.ty(im['ty']) if isinstance(im['ty'], int) else None
                        if ty is not None and ty.k == 'adt' and ty.key == dt.key:
                            for mm in im['methods']:
                                b = eng.p.bodies.get(mm[1])
                                if b is not None:
                                    at = b.lty(1)
                                    vt = tyof.get(v)
                                    if vt is not None and (vt.peel() or vt).s == (at.peel() or at).s:
                                        return eng.call_body(st, fr, b, [v], dty, ('from', site))
                return [(st, eng.settype(App('from', v, dt.s), dty))]
            if v.k == 'char' and dt.s.endswith('String'):
                return [(st, Str(chr(v.a)))]
            if dt.k in ('int', 'uint') or dt.s in UNSIGNED or dt.s in SIGNED:
                if v.k == 'char':
                    return [(st, Int(v.a))]
                if not is_int(v):
                    r = App('toint', v)
                    tyname.setdefault(r, dt.s)
                    return [(st, r)]
                return [(st, v)]
            if dt.s == 'char' and is_int(v):
                return [(st, eng.settype(App('tochar', v), dty))]
            vt = tyof.get(v)
            if vt is not None and (vt.peel() or vt).s == 'char' and dt.s.endswith('String'):
                return [(st, App('chstr', v))]
        return [(st, v)]

    # ---------------------------------------------------------------- logging
    def log_call(self, eng, st, fr, s, args, dty, site):
        if s.endswith('::log') or s.endswith('log_impl'):
            for a in args:
                if a.k == 'agg' and a.a[0] == 'fmtargs':
                    self.fmt_render(eng, st.copy(), fr, a, ('log', site))
            return [(st, Tup())]
        if s.endswith('max_level'):
            return [(st, eng.settype(Sym('maxlevel'), dty))]
        v = App('log:' + s, *(args or [Tup()]))
        return [(st, eng.settype(v, dty))]

    # ---------------------------------------------------------------- formatting
    def m_Argument_new_display(self, eng, st, fr, fty, args, dty, site, t):
        ty = self.targ(fty)
        return [(st, self.fmtarg(eng, 'display', ty, self.deref(eng, st, args[0])))]

    def m_Argument_new_debug(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, self.fmtarg(eng, 'debug', self.targ(fty), self.deref(eng, st, args[0])))]

    def m_Argument_from_usize(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, self.fmtarg(eng, 'num', self.targ(fty), self.deref(eng, st, args[0])))]

    def fmtarg(self, eng, kind, ty, v):
        eng.fmttys = getattr(eng, 'fmttys', {})
        nm = ty.s if ty is not None else '?'
        if ty is not None:
            eng.fmttys.setdefault(nm, ty)
        return Agg('fmtarg', kind, nm, (v,))

    def m_Arguments_from_str(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, Agg('fmtargs', None, 0, (self.deref(eng, st, args[0]),)))]

    def m_Arguments_new_const(self, eng, st, fr, fty, args, dty, site, t):
        return self.m_Arguments_from_str(eng, st, fr, fty, args, dty, site, t)

    def m_Arguments_new(self, eng, st, fr, fty, args, dty, site, t):
        tpl = self.deref(eng, st, args[0])
        arr = self.deref(eng, st, args[1])
        if tpl.k == 'bytes':
            b = tpl.a
        elif tpl.k == 'agg' and all(is_const(x) for x in tpl.a[3]):
            b = bytes(cval(x) for x in tpl.a[3])
        else:
            return [(st, Agg('fmtargs', None, 0, (App('unkfmt', tpl, arr),)))]
        if isinstance(b, str):
            b = b.encode('latin1')
        pieces, i, ai = [], 0, 0

        def arg(j):
            if arr.k == 'agg' and j < len(arr.a[3]):
                return self.deref(eng, st, arr.a[3][j])
            return App('at', arr, Int(j))
        while i < len(b):
            n = b[i]
            i += 1
            if n == 0:
                break
            if n < 0x80:
                pieces.append(Str(b[i:i + n].decode('utf-8')))
                i += n
            elif n == 0x80:
                ln = b[i] | b[i + 1] << 8
                i += 2
                pieces.append(Str(b[i:i + ln].decode('utf-8')))
                i += ln
            else:
                spec = n & 7
                if n & 1:
                    i += 4
                if n & 2:
                    i += 2
                if n & 4:
                    i += 2
                if n & 8:
                    ai = b[i] | b[i + 1] << 8
                    i += 2
                a = arg(ai)
                ai += 1
                if spec and a.k == 'agg':
                    a = Agg('fmtarg', 'spec' if a.a[1] == 'display' else a.a[1], a.a[2], a.a[3])
                pieces.append(a)
        return [(st, Agg('fmtargs', None, 0, tuple(pieces)))]

    def fmt_render(self, eng, st, fr, fa, site):
        """-> [(state, string value)]"""
        cur = [(st, [])]
        for n, p in enumerate(fa.a[3] if fa.k == 'agg' else (fa,)):
            nxt = []
            for s, acc in cur:
                if p.k == 'agg' and p.a[0] == 'fmtarg':
                    for s2, v in self.fmt_one(eng, s, fr, p, ('fa', site, n)):
                        nxt.append((s2, acc + [v]))
                else:
                    nxt.append((s, acc + [p]))
            cur = nxt
        return [(s, Cat(*acc)) for s, acc in cur]

    def fmt_one(self, eng, st, fr, p, site):
        kind, tn, v = p.a[1], p.a[2], p.a[3][0]
        ty = getattr(eng, 'fmttys', {}).get(tn)
        return self.display(eng, st, fr, v, ty, kind, site)

    def display(self, eng, st, fr, v, ty, kind, site):
        v = self.deref(eng, st, v)
        t = ty
        while t is not None and t.k in ('ref', 'ptr') or (t is not None and t.raw.get('box')):
            t = t.pointee()
        if t is None or t.k == 'param':
            t2 = tyof.get(v)
            t = t2.peel() if t2 is not None else t
        if kind == 'debug':
            if t is not None and t.k == 'adt' and t.key.split('::')[0] in eng.workspace():
                self.run_fmt(eng, st.copy(), fr, 'fmt::Debug', t.key, v, site)
            return [(st, App('debug', v))]
        if v.k == 'agg' and v.a[0] == 'fmtargs':
            return self.fmt_render(eng, st, fr, v, site)
        if t is not None and t.k == 'adt' and t.key.split('::')[0] in eng.workspace():
            r = self.run_fmt(eng, st, fr, 'fmt::Display', t.key, v, site)
            if r is not None:
                return r
        s = t.s if t is not None else ''
        if kind == 'spec':
            return [(st, App('fmtspec', v))]
        if is_int(v) or s in UNSIGNED or s in SIGNED:
            return [(st, Str(str(cval(v))) if is_const(v) else App('itoa', v))]
        if v.k == 'char':
            return [(st, Str(chr(v.a)))]
        if s == 'char':
            return [(st, App('chstr', v))]
        if v.k == 'bool':
            return [(st, Str('true' if v.a else 'false'))]
        if s in ('str', 'std::string::String') or 'Cow' in s or v.k == 'str' or eng.seqlike(v):
            return [(st, v)]
        return [(st, App('display', v))]

    def run_fmt(self, eng, st, fr, trait, key, v, site):
        b = eng.p.impl_method(trait, key, 'fmt')
        if b is None:
            return None
        root = ('fmtbuf', fr.id, site)
        st.mem[root] = Str('')
        out = []
        for s, _ in eng.call_body(st, fr, b, [v, Ref(root)], None, ('fmt', site)):
            out.append((s, s.mem.pop(root)))
        return out

    def m_fmt_format(self, eng, st, fr, fty, args, dty, site, t):
        a = self.deref(eng, st, args[0])
        return self.fmt_render(eng, st, fr, a, site)

    def m_Formatter_write_str(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        self.update(eng, st, ref, Cat(cur, self.deref(eng, st, args[1])))
        return [(st, Ok(Tup()))]
    m_Write_write_str = m_Formatter_write_str
    m_Formatter_pad = m_Formatter_write_str

    def m_Formatter_write_char(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        self.update(eng, st, ref, Cat(cur, self.chs(self.deref(eng, st, args[1]))))
        return [(st, Ok(Tup()))]
    m_Write_write_char = m_Formatter_write_char

    def m_Formatter_write_fmt(self, eng, st, fr, fty, args, dty, site, t):
        a = self.deref(eng, st, args[1])
        out = []
        for s, v in self.fmt_render(eng, st, fr, a, site):
            ref, cur = self.lref(eng, s, args[0])
            self.update(eng, s, ref, Cat(cur, v))
            out.append((s, Ok(Tup())))
        return out

    def m_Write_write_fmt(self, eng, st, fr, fty, args, dty, site, t):
        if (fty.raw.get('path') or '').startswith('std::fmt'):
            return self.m_Formatter_write_fmt(eng, st, fr, fty, args, dty, site, t)
        return None

    def m_Display_fmt(self, eng, st, fr, fty, args, dty, site, t):
        ty = self.targ(fty)
        out = []
        for s, v in self.display(eng, st, fr, args[0], ty, 'display', site):
            ref, cur = self.lref(eng, s, args[1])
            self.update(eng, s, ref, Cat(cur, v))
            out.append((s, Ok(Tup())))
        return out

    def dbg(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        self.update(eng, st, ref, Cat(cur, App('dbgtext', *[self.deref(eng, st, a) for a in args[1:]])))
        return [(st, Ok(Tup()))]
    m_Formatter_debug_struct_field1_finish = dbg
    m_Formatter_debug_struct_field2_finish = dbg
    m_Formatter_debug_struct_field3_finish = dbg
    m_Formatter_debug_struct_field4_finish = dbg
    m_Formatter_debug_struct_field5_finish = dbg
    m_Formatter_debug_struct_fields_finish = dbg
    m_Formatter_debug_tuple_field1_finish = dbg
    m_Formatter_debug_tuple_field2_finish = dbg
    m_Formatter_debug_tuple_field3_finish = dbg
    m_Formatter_debug_tuple_field4_finish = dbg

    def m_ToString_to_string(self, eng, st, fr, fty, args, dty, site, t):
        ty = self.targ(fty)
        return self.display(eng, st, fr, args[0], ty, 'display', site)

    def m_SpecToString_spec_to_string(self, *a):
        return self.m_ToString_to_string(*a)

    def chs(self, c):
        return ChStr(c)

    # ---------------------------------------------------------------- String
    def m_slice_from_ref(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, Agg('array', None, 0, (st.norm(args[0]),)))]

    def m_array_from_ref(self, *a):
        return self.m_slice_from_ref(*a)

    def m_String_new(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, Str(''))]
    m_String_with_capacity = m_String_new

    def m_String_push_str(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        self.update(eng, st, ref, Cat(cur, self.deref(eng, st, args[1])))
        return [(st, Tup())]

    def m_AddAssign_add_assign(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        b = self.deref(eng, st, args[1])
        if is_int(cur) or is_int(b):
            r = ladd(cur, b)
            self.update(eng, st, ref, r)
        else:
            self.update(eng, st, ref, Cat(cur, b))
        return [(st, Tup())]

    def m_Add_add(self, eng, st, fr, fty, args, dty, site, t):
        a, b = self.deref(eng, st, args[0]), self.deref(eng, st, args[1])
        if dty is not None and dty.s in UNSIGNED or dty is not None and dty.s in SIGNED:
            return self.arith(eng, st, fr, 'Add', a, b, dty, t)
        return [(st, Cat(a, b))]

    def arith(self, eng, st, fr, op, a, b, dty, t):
        r = ladd(a, b, 1 if op == 'Add' else -1)
        ok = eng.no_overflow(st, op, r, dty.s)
        if ok is not None:
            eng.oblige(fr, st, 'overflow', ok, 'arithmetic %s on %s may overflow' % (op, dty.s), t.get('s') if t else None)
            if dty.s in UNSIGNED:
                try:
                    st.add_ge(st.lnorm(r))
                except Dead:
                    return []
        return [(st, r)]

    def m_Sub_sub(self, eng, st, fr, fty, args, dty, site, t):
        a, b = self.deref(eng, st, args[0]), self.deref(eng, st, args[1])
        if dty is not None and (dty.s in UNSIGNED or dty.s in SIGNED):
            return self.arith(eng, st, fr, 'Sub', a, b, dty, t)
        return None

    def m_SubAssign_sub_assign(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        b = self.deref(eng, st, args[1])
        nm = tyname.get(cur, 'usize')

        class T:
            s = nm
        rs = self.arith(eng, st, fr, 'Sub', cur, b, T, t)
        out = []
        for s, v in rs:
            self.update(eng, s, ref, v)
            out.append((s, Tup()))
        return out

    def m_String_push(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        self.update(eng, st, ref, Cat(cur, self.chs(self.deref(eng, st, args[1]))))
        return [(st, Tup())]

    def m_String_insert_str(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        i = self.deref(eng, st, args[1])
        x = self.deref(eng, st, args[2])
        if x.k == 'char':
            x = self.chs(x)
        eng.oblige(fr, st, 'index', st.bnd(cur, i) and st.prove(st.lnorm(lsub(Len(cur), i))), 'insertion index may not be a character boundary', t['s'])
        self.update(eng, st, ref, Cat(Slice(cur, Int(0), i), x, Slice(cur, i, Len(cur))))
        return [(st, Tup())]
    m_String_insert = m_String_insert_str

    def m_String_truncate(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        i = self.deref(eng, st, args[1])
        if eng.seqlike(cur):
            ok = st.bnd(cur, i)
            eng.oblige(fr, st, 'index', ok, 'truncation length may not be a character boundary', t['s'])
        self.update(eng, st, ref, App('substr', cur, i))
        return [(st, Tup())]

    def m_String_clear(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        self.update(eng, st, ref, Str(''))
        return [(st, Tup())]

    def m_String_pop(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        out = []
        p = Ge0(ladd(Len(cur), Int(-1)))
        for s in eng.cases(st.copy(), p, True):
            self.update(eng, s, ref, App('substr', cur, Str('pop')))
            out.append((s, Some(eng.settype(App('lastch', cur), None))))
        for s in eng.cases(st, p, False):
            out.append((s, None_()))
        return out

    def length(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, LenX(self.deref(eng, st, args[0])))]
    m_str_len = m_String_len = m_Vec_len = m_slice_len = length

    def empty(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, Not(Ge0(ladd(Len(self.deref(eng, st, args[0])), Int(-1)))))]
    m_str_is_empty = m_String_is_empty = m_Vec_is_empty = m_slice_is_empty = empty

    # ---------------------------------------------------------------- str
    def m_str_get(self, eng, st, fr, fty, args, dty, site, t):
        s = self.deref(eng, st, args[0])
        r = self.rng(eng, st, self.deref(eng, st, args[1]), s)
        if r is None:
            return None
        if st.valid_range(s, r[0], r[1]):
            return [(st, Some(Slice(s, st.lnorm(r[0]), st.lnorm(r[1]))))]
        return [(st, eng.settype(App('get', s, r[0], r[1]), dty))]

    def rng(self, eng, st, r, s):
        r = st.norm(r)
        if r.k != 'agg' or r.a[0] != 'adt':
            return None
        f = [st.norm(x) for x in r.a[3]]
        k = r.a[1]
        if k == RANGE:
            return f[0], f[1]
        if k == RANGEI:
            return f[0], ladd(f[1], Int(1))
        if k == RFROM:
            return f[0], Len(s)
        if k == RTO:
            return Int(0), f[0]
        if k == RTOI:
            return Int(0), ladd(f[0], Int(1))
        if k == RFULL:
            return Int(0), Len(s)
        return None

    def m_Index_index(self, eng, st, fr, fty, args, dty, site, t):
        s = self.deref(eng, st, args[0])
        i = self.deref(eng, st, args[1])
        r = self.rng(eng, st, i, s)
        sty = self.targ(fty)
        isstr = sty is not None and ((sty.peel() or sty).s in ('str', 'std::string::String'))
        if r is not None:
            a, b = r
            if isstr:
                ok = st.valid_range(s, a, b)
                eng.oblige(fr, st, 'index', ok, 'string slice [%s..%s] of %s may be out of bounds or split a character' % (show(a), show(b), show(s)), t['s'])
                try:
                    st.add_ge(st.lnorm(lsub(b, a)))
                    st.add_ge(st.lnorm(lsub(Len(s), b)))
                    st.pb[App('bnd', s, a)] = True
                    st.pb[App('bnd', s, b)] = True
                except Dead:
                    return []
                return [(st, Slice(s, a, b))]
            ok = st.prove(st.lnorm(lsub(b, a))) and st.prove(st.lnorm(lsub(Len(s), b))) and st.prove(st.lnorm(a))
            eng.oblige(fr, st, 'index', ok, 'slice range may be out of bounds', t['s'])
            return [(st, eng.settype(App('subseq', s, a, b), dty))]
        if is_int(i):
            ok = st.prove(st.lnorm(ladd(lsub(Len(s), i), Int(-1)))) and st.prove(st.lnorm(i))
            eng.oblige(fr, st, 'index', ok, 'index %s may be out of bounds of %s' % (show(i), show(s)), t['s'])
            try:
                st.add_ge(st.lnorm(ladd(lsub(Len(s), i), Int(-1))))
            except Dead:
                return []
            return [(st, eng.settype(At(s, i), dty))]
        eng.oblige(fr, st, 'index', False, 'indexing of unknown kind may panic', t['s'])
        return [(st, eng.settype(App('index', s, i), dty))]

    def m_str_split_at(self, eng, st, fr, fty, args, dty, site, t):
        s, i = self.deref(eng, st, args[0]), self.deref(eng, st, args[1])
        ok = st.bnd(s, i) and st.prove(st.lnorm(lsub(Len(s), i)))
        eng.oblige(fr, st, 'index', ok, 'split_at(%s) may be out of bounds or split a character' % show(i), t['s'])
        st.pb[App('bnd', s, i)] = True
        try:
            st.add_ge(st.lnorm(lsub(Len(s), i)))
        except Dead:
            return []
        return [(st, Tup(Slice(s, Int(0), i), Slice(s, i, Len(s))))]

    def m_str_split_at_checked(self, eng, st, fr, fty, args, dty, site, t):
        s, i = self.deref(eng, st, args[0]), self.deref(eng, st, args[1])
        v = App('get', s, Int(0), i)
        out = []
        for x in eng.cases(st.copy(), Is(v, 1), True):
            out.append((x, Some(Tup(Slice(s, Int(0), i), Slice(s, i, Len(s))))))
        for x in eng.cases(st, Is(v, 1), False):
            out.append((x, None_()))
        return out

    def m_str_is_char_boundary(self, eng, st, fr, fty, args, dty, site, t):
        s, i = self.deref(eng, st, args[0]), self.deref(eng, st, args[1])
        if st.bnd(s, i):
            return [(st, Bool(True))]
        if st.prove(st.lnorm(ladd(lsub(i, Len(s)), Int(-1)))):
            return [(st, Bool(False))]
        p = App('bnd', s, i)
        for e, tr in list(st.pb.items()):
            if is_app(e, 'bnd') and e.a[1] is s and tr is False and st.eqzero(st.lnorm(lsub(e.a[2], i))):
                return [(st, Bool(False))]
        return [(st, p)]

    def m_str_is_ascii(self, eng, st, fr, fty, args, dty, site, t):
        s = self.deref(eng, st, args[0])
        if s.k == 'str':
            return [(st, Bool(all(ord(c) < 128 for c in s.a)))]
        if st.ascii(s):
            return [(st, Bool(True))]
        return [(st, App('is_ascii', s))]

    def lower(self, op):
        def f(eng, st, fr, fty, args, dty, site, t):
            s = self.deref(eng, st, args[0])
            if s.k == 'str':
                return [(st, Str(s.a.lower() if 'lower' in op else s.a.upper()))]
            return [(st, App(op, s))]
        return f

    def __getattr__(self, n):
        m = {'m_str_to_lowercase': 'lower', 'm_str_to_uppercase': 'upper', 'm_str_to_ascii_lowercase': 'alower', 'm_str_to_ascii_uppercase': 'aupper'}
        if n in m:
            return self.lower(m[n])
        if n.startswith('m_char_is_') and charclass(n[7:], 'a') is not None:
            return self.char_pred(n[7:])
        raise AttributeError(n)

    def m_str_replace(self, eng, st, fr, fty, args, dty, site, t):
        d = [self.deref(eng, st, a) for a in args]
        self.probe(eng, st, fr, d[1], site)
        return [(st, Replace(d[0], pat_str(d[1]) if d[1].k == 'char' else d[1], d[2]))]

    def m_str_replacen(self, eng, st, fr, fty, args, dty, site, t):
        d = [self.deref(eng, st, a) for a in args]
        return [(st, App('replacen', *d))]

    def m_str_repeat(self, eng, st, fr, fty, args, dty, site, t):
        d = [self.deref(eng, st, a) for a in args]
        if d[0].k == 'str' and is_const(d[1]) and cval(d[1]) < 64:
            return [(st, Str(d[0].a * cval(d[1])))]
        return [(st, App('strrep', d[0], d[1]))]

    def m_str_eq_ignore_ascii_case(self, eng, st, fr, fty, args, dty, site, t):
        d = [self.deref(eng, st, a) for a in args]
        a, b = d
        if a.k == 'str':
            a, b = b, a
        if b.k == 'str':
            return [(st, Eq(App('alower', a), Str(b.a.lower())))]
        return [(st, App('eqci', a, b))]

    def m_str_parse(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, eng.settype(App('parse', self.deref(eng, st, args[0]), str(dty.s if dty else '')), dty))]

    # ---------------------------------------------------------------- comparisons
    def eqv(self, eng, st, a, b):
        a, b = st.norm(a), st.norm(b)
        if a is b:
            return Bool(True)
        if is_app(a, 'discr') or is_app(b, 'discr'):
            if is_app(b, 'discr'):
                a, b = b, a
            if is_const(b):
                return eng.isdiscr(a.a[1], cval(b))
        for x, y in ((a, b), (b, a)):
            if x.k == 'agg' and x.a[0] == 'adt':
                if y.k == 'agg' and y.a[0] == 'adt':
                    if x.a[1] == y.a[1] and x.a[2] != y.a[2]:
                        return Bool(False)
                    r = Bool(True)
                    for p, q in zip(x.a[3], y.a[3]):
                        r = And(r, self.eqv(eng, st, p, q))
                    return r
                r = Is(y, x.a[2])
                for i, p in enumerate(x.a[3]):
                    pl = Pl(y, x.a[1], x.a[2], i)
                    if p in tyof:
                        eng.settype(pl, tyof[p])
                    r = And(r, self.eqv(eng, st, pl, p))
                return r
        if a.k == 'agg' and b.k == 'agg' and a.a[0] in ('tuple', 'array') and b.a[0] == a.a[0]:
            if len(a.a[3]) != len(b.a[3]):
                return Bool(False)
            r = Bool(True)
            for p, q in zip(a.a[3], b.a[3]):
                r = And(r, self.eqv(eng, st, p, q))
            return r
        return Eq(a, b)

    def m_PartialEq_eq(self, eng, st, fr, fty, args, dty, site, t):
        a, b = self.deref(eng, st, args[0]), self.deref(eng, st, args[1])
        ty = self.targ(fty)
        key = (ty.peel() or ty).key if ty is not None else None
        if key and key.split('::')[0] in eng.workspace():
            bd = eng.p.impl_method('cmp::PartialEq', key, 'eq')
            if bd is not None:
                return eng.call_body(st, fr, bd, [a, b], dty, ('eq', site), t)
        return [(st, self.eqv(eng, st, a, b))]

    def m_PartialEq_ne(self, eng, st, fr, fty, args, dty, site, t):
        return [(s, Not(v)) for s, v in self.m_PartialEq_eq(eng, st, fr, fty, args, dty, site, t)]

    def cmp(self, op):
        def f(eng, st, fr, fty, args, dty, site, t):
            a, b = self.deref(eng, st, args[0]), self.deref(eng, st, args[1])
            ty = self.targ(fty)
            if ty is not None and 'log::Level' in ty.s:
                return [(st, eng.fresh('logon', site))]
            return [(st, eng.binop(st, fr, op, a, b, dty, None, None))]
        return f

    def m_PartialOrd_le(self, *a): return self.cmp('Le')(*a)
    def m_PartialOrd_lt(self, *a): return self.cmp('Lt')(*a)
    def m_PartialOrd_ge(self, *a): return self.cmp('Ge')(*a)
    def m_PartialOrd_gt(self, *a): return self.cmp('Gt')(*a)

    def m_Ord_cmp(self, eng, st, fr, fty, args, dty, site, t):
        a, b = self.deref(eng, st, args[0]), self.deref(eng, st, args[1])
        if not (is_int(a) and is_int(b)) or 'core::cmp::Ordering' not in eng.p.adts:
            return [(st, eng.fresh('cmp', site, ty=dty))]
        out = []
        d = st.lnorm(lsub(b, a))
        for v, ps in ((0, [Ge0(ladd(d, Int(-1)))]), (1, [Ge0(d), Ge0(lscale(d, -1))]), (2, [Ge0(ladd(lscale(d, -1), Int(-1)))])):
            s = st.copy()
            try:
                for p in ps:
                    s.assume(p, True)
            except Dead:
                continue
            out.append((s, mk('agg', 'adt', 'core::cmp::Ordering', v, ())))
        return out

    def m_PartialOrd_partial_cmp(self, eng, st, fr, fty, args, dty, site, t):
        return [(s, Some(v)) for s, v in self.m_Ord_cmp(eng, st, fr, fty, args, dty, site, t)]

    def minmax(self, op, eng, st, args):
        a, b = self.deref(eng, st, args[0]), self.deref(eng, st, args[1])
        if is_int(a) and is_int(b):
            if st.prove(st.lnorm(lsub(b, a))):
                return [(st, a if op == 'min' else b)]
            if st.prove(st.lnorm(lsub(a, b))):
                return [(st, b if op == 'min' else a)]
            r = App(op, a, b)
            tyname.setdefault(r, tyname.get(a, tyname.get(b, 'usize')))
            return [(st, r)]
        return [(st, App(op, a, b))]

    def m_Ord_min(self, eng, st, fr, fty, args, dty, site, t): return self.minmax('min', eng, st, args)
    def m_Ord_max(self, eng, st, fr, fty, args, dty, site, t): return self.minmax('max', eng, st, args)
    def m_cmp_min(self, eng, st, fr, fty, args, dty, site, t): return self.minmax('min', eng, st, args)
    def m_cmp_max(self, eng, st, fr, fty, args, dty, site, t): return self.minmax('max', eng, st, args)

    def m_Not_not(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, Not(self.deref(eng, st, args[0])))]

    def satsub(self, st, a, b, ty):
        """max(a - b, 0)"""
        r = st.lnorm(lsub(a, b))
        if st.prove(r):
            return r
        if st.prove(lscale(r, -1)):
            return Int(0)
        if a.id > b.id:
            v = App('satsub', b, a)
            tyname.setdefault(v, ty)
            return ladd(v, r)
        v = App('satsub', a, b)
        tyname.setdefault(v, ty)
        return v

    def num(self, eng, st, fr, nm, args, dty, t):
        d = [self.deref(eng, st, a) for a in args]
        ty = dty.s if dty is not None else 'usize'
        if nm == 'saturating_sub' and ty in UNSIGNED:
            return [(st, self.satsub(st, d[0], d[1], ty))]
        if nm == 'abs_diff' and ty in UNSIGNED:
            return [(st, ladd(self.satsub(st, d[0], d[1], ty), self.satsub(st, d[1], d[0], ty)))]
        if nm in ('saturating_add', 'wrapping_add'):
            r = ladd(d[0], d[1])
            hi = UNSIGNED.get(ty)
            if hi is not None and (hi >= 2**32 - 1 or st.prove(lsub(Int(hi), r))):
                return [(st, r)]
            v = App(nm, d[0], d[1])
            tyname.setdefault(v, ty)
            return [(st, v)]
        if nm in ('checked_sub', 'checked_add'):
            r = lsub(d[0], d[1]) if nm == 'checked_sub' else ladd(d[0], d[1])
            out = []
            if nm == 'checked_add':
                return [(st, Some(r))]
            for s in eng.cases(st.copy(), Ge0(r), True):
                out.append((s, Some(r)))
            for s in eng.cases(st, Ge0(r), False):
                out.append((s, None_()))
            return out
        return None

    # ---------------------------------------------------------------- Vec / slices
    def m_Vec_new(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, Agg('array', None, 0, ()))]
    m_Vec_with_capacity = m_Vec_new

    def m_Vec_push(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        x = st.norm(args[1])
        eng.settype(x, self.targ(fty))
        eng.on_push(st, fr, x, ref)
        if cur.k == 'agg' and cur.a[0] == 'array' and len(cur.a[3]) < 16:
            self.update(eng, st, ref, Agg('array', None, 0, cur.a[3] + (x,)))
        else:
            self.update(eng, st, ref, App('push', cur, x))
        return [(st, Tup())]

    def m_Vec_append(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        r2, b = self.lref(eng, st, args[1])
        self.update(eng, st, ref, self.app(cur, b))
        if r2 is not None:
            self.update(eng, st, r2, Agg('array', None, 0, ()))
        return [(st, Tup())]

    def app(self, a, b):
        if a.k == 'agg' and b.k == 'agg' and a.a[0] == 'array' and b.a[0] == 'array' and len(a.a[3]) + len(b.a[3]) <= 16:
            return Agg('array', None, 0, a.a[3] + b.a[3])
        return App('append', a, b)

    def m_Vec_extend_from_slice(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        self.update(eng, st, ref, self.app(cur, self.deref(eng, st, args[1])))
        return [(st, Tup())]

    def m_Extend_extend(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        it = self.toiter(eng, st, args[1])
        out = []
        isstr = cur.k == 'str' or is_app(cur, 'cat') or (self.targ(fty) is not None and self.targ(fty).s.endswith('String'))
        for s, c in self.collect(eng, st, fr, it, site, 'str' if isstr else 'vec'):
            ref, cur = self.lref(eng, s, args[0])
            self.update(eng, s, ref, Cat(cur, c) if isstr else self.app(cur, c))
            out.append((s, Tup()))
        return out

    def m_Vec_remove(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        i = self.deref(eng, st, args[1])
        ok = st.prove(st.lnorm(ladd(lsub(Len(cur), i), Int(-1))))
        eng.oblige(fr, st, 'index', ok, 'removal index %s may be out of bounds of %s' % (show(i), show(cur)), t['s'])
        try:
            st.add_ge(st.lnorm(ladd(lsub(Len(cur), i), Int(-1))))
        except Dead:
            return []
        x = eng.settype(At(cur, i), dty)
        if cur.k == 'agg' and is_const(i) and cval(i) < len(cur.a[3]):
            fs = list(cur.a[3])
            del fs[cval(i)]
            self.update(eng, st, ref, Agg('array', None, 0, fs))
        else:
            self.update(eng, st, ref, App('rmat', cur, i))
        return [(st, x)]

    def m_Vec_insert(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        i = self.deref(eng, st, args[1])
        ok = st.prove(st.lnorm(lsub(Len(cur), i)))
        eng.oblige(fr, st, 'index', ok, 'insertion index may be out of bounds', t['s'])
        self.update(eng, st, ref, App('push', cur, st.norm(args[2])))
        return [(st, Tup())]

    def m_Vec_pop(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        p = Ge0(ladd(Len(cur), Int(-1)))
        out = []
        for s in eng.cases(st.copy(), p, True):
            n = ladd(Len(cur), Int(-1))
            x = At(cur, n)
            if cur.k == 'agg':
                nv = Agg('array', None, 0, cur.a[3][:-1])
            elif is_app(cur, 'push'):
                nv = cur.a[1]
            else:
                nv = App('rmat', cur, n)
            self.update(eng, s, ref, nv)
            if dty is not None and dty.arg(0) is not None:
                eng.settype(x, dty.arg(0))
            out.append((s, Some(x)))
        for s in eng.cases(st, p, False):
            out.append((s, None_()))
        return out

    def m_Vec_clear(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        self.update(eng, st, ref, Agg('array', None, 0, ()))
        return [(st, Tup())]

    def m_Vec_truncate(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        self.update(eng, st, ref, eng.settype(App('subseq', cur, Int(0), self.deref(eng, st, args[1])), tyof.get(cur)))
        return [(st, Tup())]

    def m_Vec_retain(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        E_ = Sym('elem', eng.tag, fr.id, site)
        n = 0
        for s, x in self.gelem(eng, st.copy(), fr, self.it(cur), site):
            eng.settype(x, self.targ(fty))
            eng.settype(E_, self.targ(fty))
            for s2, b in eng.call_closure(s, fr, args[1], [x], ('retain', site)):
                for s3 in eng.cases(s2, b, True):
                    eng.philog(E_, s3, s3.norm(x))
                    n += 1
        v = App('collect', E_)
        if cur in tyof:
            eng.settype(v, tyof[cur])
        st.add_ge(lsub(Len(cur), Len(v)))
        self.update(eng, st, ref, v)
        return [(st, Tup())]

    def seqopt(self, op):
        def f(eng, st, fr, fty, args, dty, site, t):
            s = self.deref(eng, st, args[0])
            if s.k == 'agg' and s.a[0] == 'array':
                fs = s.a[3]
                if not fs:
                    return [(st, None_())]
                return [(st, Some(fs[0] if op == 'first' else fs[-1]))]
            v = App(op, s)
            eng.settype(v, dty)
            if dty is not None and dty.arg(0) is not None:
                eng.settype(Pl(v, OPT, 1, 0), dty.arg(0))
            return [(st, v)]
        return f

    def m_slice_last(self, *a): return self.seqopt('last')(*a)
    def m_slice_first(self, *a): return self.seqopt('first')(*a)
    m_Vec_last, m_Vec_first = m_slice_last, m_slice_first

    def m_slice_get(self, eng, st, fr, fty, args, dty, site, t):
        s, i = self.deref(eng, st, args[0]), self.deref(eng, st, args[1])
        if is_int(i):
            v = App('getat', s, i)
            eng.settype(v, dty)
            if dty is not None and dty.arg(0) is not None:
                eng.settype(Pl(v, OPT, 1, 0), dty.arg(0))
            return [(st, v)]
        return None

    def m_slice_contains(self, eng, st, fr, fty, args, dty, site, t):
        s, x = self.deref(eng, st, args[0]), self.deref(eng, st, args[1])
        if s.k == 'agg' and all(isconst(f) for f in s.a[3]):
            if isconst(x):
                return [(st, Bool(x in s.a[3]))]
            if len(s.a[3]) <= 6:
                r = Bool(False)
                for f in s.a[3]:
                    r = Or(r, Eq(x, f))
                return [(st, r)]
        return [(st, App('inset', x, s))]

    def m_slice_iter(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, self.it(self.deref(eng, st, args[0])))]

    def m_slice_join(self, eng, st, fr, fty, args, dty, site, t):
        d = [self.deref(eng, st, a) for a in args]
        if d[0].k == 'agg' and d[0].a[0] == 'array':
            ps = []
            for i, x in enumerate(d[0].a[3]):
                if i:
                    ps.append(d[1])
                ps.append(x)
            return [(st, Cat(*ps))]
        return [(st, App('join', *d))]

    def m_slice_concat(self, eng, st, fr, fty, args, dty, site, t):
        d = self.deref(eng, st, args[0])
        if d.k == 'agg' and d.a[0] == 'array':
            return [(st, Cat(*d.a[3]))]
        return [(st, App('join', d, Str('')))]

    # vec! machinery
    def m_Box_new_uninit(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, Ref(('box', fr.id, site), ()))]

    def m_boxed_box_assume_init_into_vec_unsafe(self, eng, st, fr, fty, args, dty, site, t):
        v = st.norm(args[0])
        if v.k == 'ref':
            x = st.mem.pop(v.a[0], None)
            if x is not None:
                return [(st, x)]
        return [(st, eng.settype(eng.fresh('boxvec', site), dty))]

    def m_vec_from_elem(self, eng, st, fr, fty, args, dty, site, t):
        d = [self.deref(eng, st, a) for a in args]
        v = App('repeatseq', d[0], d[1])
        st.add_ge(lsub(Len(v), d[1]))
        st.add_ge(lsub(d[1], Len(v)))
        return [(st, eng.settype(v, dty))]

    # ---------------------------------------------------------------- mem
    def m_mem_take(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        self.update(eng, st, ref, self.default(eng, st, fr, dty, site))
        return [(st, cur)]

    def m_mem_replace(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        self.update(eng, st, ref, st.norm(args[1]))
        return [(st, cur)]

    def m_mem_swap(self, eng, st, fr, fty, args, dty, site, t):
        r1, a = self.lref(eng, st, args[0])
        r2, b = self.lref(eng, st, args[1])
        self.update(eng, st, r1, b)
        self.update(eng, st, r2, a)
        return [(st, Tup())]

    def m_mem_drop(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, Tup())]

    def default(self, eng, st, fr, ty, site):
        t = ty.peel() if ty is not None else None
        if t is None:
            return eng.fresh('default', site)
        if t.s in UNSIGNED or t.s in SIGNED:
            return Int(0)
        if t.s == 'bool':
            return Bool(False)
        if t.s in ('str', 'std::string::String'):
            return Str('')
        if t.k == 'adt' and t.key == 'alloc::vec::Vec':
            return Agg('array', None, 0, ())
        if t.k == 'adt' and t.key == OPT:
            return None_()
        return App('default', Str(t.s))

    def m_Default_default(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, eng.settype(self.default(eng, st, fr, dty, site), dty))]

    # ---------------------------------------------------------------- closures
    def m_Fn_call(self, eng, st, fr, fty, args, dty, site, t):
        tup = st.norm(args[1])
        xs = tup.a[3] if tup.k == 'agg' else [tup]
        return eng.call_closure(st, fr, args[0], xs, site, dty)
    m_FnMut_call_mut = m_FnOnce_call_once = m_Fn_call

    # ---------------------------------------------------------------- ranges
    def m_RangeInclusive_new(self, eng, st, fr, fty, args, dty, site, t):
        return [(st, Agg('adt', RANGEI, 0, (st.norm(args[0]), st.norm(args[1]), Bool(False))))]

    def contains(self, eng, st, args):
        r, x = self.deref(eng, st, args[0]), self.deref(eng, st, args[1])
        if r.k != 'agg':
            return None
        f, k = r.a[3], r.a[1]
        if not is_int(x):
            if k == RANGEI and f[0].k == 'char':
                return [(st, App('inrange', x, f[0], f[1]))]
            if k == RANGE and f[0].k == 'char':
                return [(st, App('inrange', x, f[0], Char(f[1].a - 1)))]
            return None
        p = Bool(True)
        if k in (RANGE, RANGEI, RFROM):
            p = Ge0(lsub(x, f[0]))
        if k == RANGE:
            p = And(p, Ge0(ladd(lsub(f[1], x), Int(-1))))
        elif k == RANGEI:
            p = And(p, Ge0(lsub(f[1], x)))
        elif k == RTO:
            p = Ge0(ladd(lsub(f[0], x), Int(-1)))
        elif k == RTOI:
            p = Ge0(lsub(f[0], x))
        return [(st, p)]

    def m_RangeInclusive_contains(self, eng, st, fr, fty, args, dty, site, t): return self.contains(eng, st, args)
    def m_Range_contains(self, eng, st, fr, fty, args, dty, site, t): return self.contains(eng, st, args)
    def m_RangeFrom_contains(self, eng, st, fr, fty, args, dty, site, t): return self.contains(eng, st, args)
    def m_RangeTo_contains(self, eng, st, fr, fty, args, dty, site, t): return self.contains(eng, st, args)
    def m_RangeToInclusive_contains(self, eng, st, fr, fty, args, dty, site, t): return self.contains(eng, st, args)
    def m_RangeBounds_contains(self, eng, st, fr, fty, args, dty, site, t): return self.contains(eng, st, args)

    # ---------------------------------------------------------------- Option / Result
    def m_Try_branch(self, eng, st, fr, fty, args, dty, site, t):
        v = st.norm(args[0])
        ty = self.targ(fty)
        isopt = ty is not None and ty.key == OPT
        key, good = (OPT, 1) if isopt else (RES, 0)
        p = Is(v, good)
        out = []
        for s in eng.cases(st.copy(), p, True):
            x = Pl(s.norm(v), key, good, 0)
            if ty is not None and ty.arg(0) is not None:
                eng.settype(x, ty.arg(0))
            out.append((s, Agg('adt', CF, 0, (s.norm(x),))))
        for s in eng.cases(st, p, False):
            r = None_() if isopt else Err(s.norm(Pl(s.norm(v), RES, 1, 0)))
            if not isopt and ty is not None and ty.arg(1) is not None:
                eng.settype(r.a[3][0], ty.arg(1))
            out.append((s, Agg('adt', CF, 1, (r,))))
        return out

    def m_FromResidual_from_residual(self, eng, st, fr, fty, args, dty, site, t):
        v = st.norm(args[0])
        return [(st, v)]

    def m_Try_from_output(self, eng, st, fr, fty, args, dty, site, t):
        if dty is not None and dty.key == OPT:
            return [(st, Some(args[0]))]
        return [(st, Ok(args[0]))]

    def opt_call(self, eng, st, fr, s, fty, args, d, dty, site, t):
        kind, m = s.split('::')
        opt = kind == 'Option'
        key = OPT if opt else RES
        good = 1 if opt else 0
        v = d[0]
        sp = t.get('s') if t else None
        T = self.targ(fty)

        def pay(s2, k=good):
            x = Pl(s2.norm(v), key, k, 0)
            tt = self.targ(fty, 0 if (opt or k == 0) else 1)
            if tt is not None:
                eng.settype(x, tt)
            return s2.norm(x)
        yes = Is(v, good)
        if m in ('is_some', 'is_ok'):
            return [(st, yes)]
        if m in ('is_none', 'is_err'):
            return [(st, Not(yes))]
        if m in ('unwrap', 'expect'):
            ok = st.truth(yes) is True
            eng.oblige(fr, st, 'unwrap', ok, '%s on %s may panic' % (m, show(v)), sp)
            return [(x, pay(x)) for x in eng.cases(st, yes, True)]
        if m in ('unwrap_err', 'expect_err'):
            eng.oblige(fr, st, 'unwrap', st.truth(yes) is False, '%s may panic' % m, sp)
            return [(x, pay(x, 1)) for x in eng.cases(st, yes, False)]
        if m == 'unwrap_or' and opt:
            r = Uor(st.norm(v), d[1])
            if r.k == 'app':
                eng.settype(r, T)
            return [(st, st.norm(r))]
        if m == 'unwrap_or_default' and opt:
            r = Uor(st.norm(v), self.default(eng, st, fr, dty, site))
            if r.k == 'app':
                eng.settype(r, T)
            return [(st, st.norm(r))]
        if m == 'take' and opt:
            ref, cur = self.lref(eng, st, args[0])
            self.update(eng, st, ref, None_())
            return [(st, cur)]
        if m in ('replace', 'insert') and opt:
            ref, cur = self.lref(eng, st, args[0])
            self.update(eng, st, ref, Some(st.norm(args[1])))
            return [(st, cur)]
        if m in ('as_mut', 'as_deref_mut', 'get_or_insert_with', 'get_or_insert', 'iter_mut'):
            return None
        if m == 'iter' or m == 'into_iter':
            return None
        table = {'map', 'and_then', 'filter', 'or', 'or_else', 'ok_or', 'ok_or_else', 'is_some_and', 'is_ok_and', 'map_or', 'map_or_else', 'unwrap_or_else', 'ok', 'err', 'map_err',
                 'unwrap_or', 'unwrap_or_default', 'and', 'is_none_or', 'inspect', 'inspect_err', 'zip', 'xor', 'flatten', 'is_err_and', 'transpose'}
        if m not in table:
            return None
        out = []

        def call(s2, f, xs, k):
            return eng.call_closure(s2, fr, f, xs, (m, k, site), None)
        S = eng.cases(st.copy(), yes, True)
        N = eng.cases(st, yes, False)

        def wrap(x):
            return Some(x) if opt else Ok(x)

        def none(s2):
            return None_() if opt else Err(pay(s2, 1))
        for s2 in S:
            x = pay(s2)
            if m == 'map':
                out += [(a, wrap(b)) for a, b in call(s2, args[1], [x], 'y')]
            elif m == 'and_then':
                out += call(s2, args[1], [x], 'y')
            elif m == 'and':
                out.append((s2, d[1]))
            elif m == 'filter':
                for a, b in call(s2, args[1], [x], 'y'):
                    out += [(c, Some(x)) for c in eng.cases(a.copy(), b, True)]
                    out += [(c, None_()) for c in eng.cases(a, b, False)]
            elif m in ('or', 'or_else', 'map_err', 'inspect_err'):
                out.append((s2, wrap(x)))
            elif m == 'inspect':
                out += [(a, wrap(x)) for a, b in call(s2, args[1], [x], 'y')]
            elif m in ('ok_or', 'ok_or_else'):
                out.append((s2, Ok(x)))
            elif m in ('is_some_and', 'is_ok_and', 'is_none_or'):
                out += call(s2, args[1], [x], 'y')
            elif m == 'map_or':
                out += call(s2, args[2], [x], 'y')
            elif m == 'map_or_else':
                out += call(s2, args[2], [x], 'y')
            elif m in ('unwrap_or_else', 'unwrap_or', 'unwrap_or_default'):
                out.append((s2, x))
            elif m == 'ok':
                out.append((s2, Some(x)))
            elif m == 'err':
                out.append((s2, None_()))
            elif m == 'flatten':
                out.append((s2, x))
            elif m == 'is_err_and':
                out.append((s2, Bool(False)))
            else:
                return None
        for s2 in N:
            if m in ('map', 'and_then', 'filter', 'and', 'inspect', 'flatten'):
                out.append((s2, none(s2)))
            elif m == 'or':
                out.append((s2, d[1]))
            elif m == 'or_else':
                out += call(s2, args[1], [] if opt else [pay(s2, 1)], 'n')
            elif m == 'ok_or':
                out.append((s2, Err(d[1])))
            elif m == 'ok_or_else':
                out += [(a, Err(b)) for a, b in call(s2, args[1], [], 'n')]
            elif m in ('is_some_and', 'is_ok_and'):
                out.append((s2, Bool(False)))
            elif m == 'is_none_or':
                out.append((s2, Bool(True)))
            elif m == 'map_or':
                out.append((s2, d[1]))
            elif m == 'map_or_else':
                out += call(s2, args[1], [] if opt else [pay(s2, 1)], 'n')
            elif m == 'unwrap_or_else':
                out += call(s2, args[1], [] if opt else [pay(s2, 1)], 'n')
            elif m == 'unwrap_or':
                out.append((s2, d[1]))
            elif m == 'unwrap_or_default':
                out.append((s2, self.default(eng, s2, fr, dty, site)))
            elif m == 'ok':
                out.append((s2, None_()))
            elif m == 'err':
                out.append((s2, Some(pay(s2, 1))))
            elif m == 'map_err':
                out += [(a, Err(b)) for a, b in call(s2, args[1], [pay(s2, 1)], 'n')]
            elif m == 'inspect_err':
                out += [(a, Err(pay(a, 1))) for a, b in call(s2, args[1], [pay(s2, 1)], 'n')]
            elif m == 'is_err_and':
                out += call(s2, args[1], [pay(s2, 1)], 'n')
        return out

    def m_bool_then_some(self, eng, st, fr, fty, args, dty, site, t):
        b = self.deref(eng, st, args[0])
        return [(s, Some(args[1])) for s in eng.cases(st.copy(), b, True)] + [(s, None_()) for s in eng.cases(st, b, False)]

    def m_bool_then(self, eng, st, fr, fty, args, dty, site, t):
        b = self.deref(eng, st, args[0])
        out = []
        for s in eng.cases(st.copy(), b, True):
            out += [(a, Some(v)) for a, v in eng.call_closure(s, fr, args[1], [], ('then', site))]
        return out + [(s, None_()) for s in eng.cases(st, b, False)]

    # ---------------------------------------------------------------- iterators
    def toiter(self, eng, st, v):
        v = st.norm(v)
        d = self.deref(eng, st, v)
        if d.k == 'agg' and d.a[0] == 'adt' and d.a[1] == RANGE:
            a, b = st.norm(d.a[3][0]), st.norm(d.a[3][1])
            if is_int(a) and is_int(b) and not st.prove(st.lnorm(lsub(b, a))):
                # iterated, an empty range is one that ends where it starts
                return Agg('adt', RANGE, 0, (a, ladd(a, self.satsub(st, b, a, tyname.get(b, tyname.get(a, 'usize'))))))
        if d.k == 'agg' and (d.a[0] == 'it' or d.a[0] == 'adt' and d.a[1] in (RANGE, RANGEI, RFROM)):
            return d
        if d.k == 'agg' and d.a[0] == 'adt' and d.a[1] == OPT:
            return self.it(Agg('array', None, 0, d.a[3] if d.a[2] == 1 else ()))
        return self.it(d)

    def m_IntoIterator_into_iter(self, eng, st, fr, fty, args, dty, site, t):
        v = st.norm(args[0])
        if v.k == 'ref':
            x = self.deref(eng, st, v)
            if x.k == 'agg' and x.a[0] in ('it', 'adt'):
                return [(st, v)]        # &mut iterator
            self.update(eng, st, v, eng.settype(eng.fresh('itermut', site), tyof.get(x)))
        return [(st, self.toiter(eng, st, v))]

    def m_slice_iter_mut(self, eng, st, fr, fty, args, dty, site, t):
        ref, cur = self.lref(eng, st, args[0])
        eng.log.append(('note', 'iter_mut'))
        nv = eng.settype(eng.fresh('itermut', site), tyof.get(cur))
        self.update(eng, st, ref, nv)
        return [(st, self.it(nv))]

    def isit(self, v):
        return v.k == 'agg' and (v.a[0] == 'it' or v.a[0] == 'adt' and v.a[1] in (RANGE, RANGEI, RFROM))

    def nxt(self, eng, st, fr, it, site, ety=None):
        """-> [(state, iterator', option)]"""
        it = st.norm(it)
        out = []
        if it.k == 'agg' and it.a[0] == 'adt':
            a, b = st.norm(it.a[3][0]), st.norm(it.a[3][1]) if len(it.a[3]) > 1 else None
            if it.a[1] == RFROM:
                return [(st, Agg('adt', RFROM, 0, (ladd(a, Int(1)),)), Some(a))]
            if it.a[1] == RANGE:
                if a.k == 'char' or not is_int(a):
                    x = eng.fresh('rngel', site)
                    return [(st.copy(), it, Some(x)), (st, it, None_())]
                p = Ge0(st.lnorm(ladd(lsub(b, a), Int(-1))))
                for s in eng.cases(st.copy(), p, True):
                    for x in parts(b)[1]:
                        if is_app(x, 'satsub'):
                            # which side is the larger is known inside the loop
                            d = lsub(x.a[1], x.a[2])
                            if s.prove(s.lnorm(ladd(x, Int(-1)))):
                                s.add_ge(s.lnorm(lsub(d, x)))
                            elif s.prove(s.lnorm(ladd(lsub(x, d), Int(-1)))):
                                s.add_ge(lscale(x, -1))
                    out.append((s, Agg('adt', RANGE, 0, (ladd(a, Int(1)), b)), Some(a)))
                for s in eng.cases(st, p, False):
                    out.append((s, it, None_()))
                return out
            ex = st.norm(it.a[3][2])
            if st.truth(ex) is True:
                return [(st, it, None_())]
            p = Ge0(st.lnorm(ladd(lsub(b, a), Int(-1))))
            for s in eng.cases(st.copy(), p, True):
                out.append((s, Agg('adt', RANGEI, 0, (ladd(a, Int(1)), b, ex)), Some(a)))
            for s in eng.cases(st, p, False):
                q = Eqi(s.lnorm(lsub(a, b)))
                for s2 in eng.cases(s.copy(), q, True):
                    out.append((s2, Agg('adt', RANGEI, 0, (a, b, Bool(True))), Some(a)))
                for s2 in eng.cases(s, q, False):
                    out.append((s2, it, None_()))
            return out
        kind = it.a[1]
        f = it.a[3]
        if kind == 'seq':
            src, pos = st.norm(f[0]), st.norm(f[1])
            p = Ge0(st.lnorm(ladd(lsub(Len(src), pos), Int(-1))))
            for s in eng.cases(st.copy(), p, True):
                x = At(src, pos)
                self.elty(eng, x, src, ety)
                out.append((s, Agg('it', 'seq', 0, (src, ladd(pos, Int(1)))), Some(s.norm(x))))
            for s in eng.cases(st, p, False):
                out.append((s, it, None_()))
            return out
        if kind == 'rev' or kind == 'peekable' or kind == 'skip':
            return [(s, Agg('it', kind, 0, (i2,) + f[1:]), o) for s, i2, o in self.nxt(eng, st, fr, f[0], site, ety)]
        if kind == 'revrange':
            a, b = f[0], f[1]
            p = Ge0(st.lnorm(ladd(lsub(b, a), Int(-1))))
            for s in eng.cases(st.copy(), p, True):
                out.append((s, Agg('it', 'revrange', 0, (a, ladd(b, Int(-1)))), Some(ladd(b, Int(-1)))))
            for s in eng.cases(st, p, False):
                out.append((s, it, None_()))
            return out
        if kind == 'enumerate':
            for s, i2, o in self.nxt(eng, st, fr, f[0], site, None):
                if o.a[2] == 1:
                    out.append((s, Agg('it', kind, 0, (i2, ladd(f[1], Int(1)))), Some(Tup(f[1], o.a[3][0]))))
                else:
                    out.append((s, it, o))
            return out
        if kind == 'map':
            for s, i2, o in self.nxt(eng, st, fr, f[0], site, None):
                if o.a[2] == 1:
                    for s2, v in eng.call_closure(s, fr, f[1], [o.a[3][0]], ('map', site)):
                        out.append((s2, Agg('it', kind, 0, (i2, f[1])), Some(v)))
                else:
                    out.append((s, Agg('it', kind, 0, (i2, f[1])), o))
            return out
        if kind == 'zip':
            for s, i2, o in self.nxt(eng, st, fr, f[0], site, None):
                if o.a[2] == 0:
                    out.append((s, Agg('it', kind, 0, (i2, f[1])), o))
                    continue
                for s2, j2, o2 in self.nxt(eng, s, fr, f[1], ('z', site), None):
                    out.append((s2, Agg('it', kind, 0, (i2, j2)), Some(Tup(o.a[3][0], o2.a[3][0])) if o2.a[2] == 1 else None_()))
            return out
        if kind == 'filter' and eng.concrete_it(f[0]):
            for s, i2, o in self.nxt(eng, st, fr, f[0], site, None):
                if o.a[2] == 0:
                    out.append((s, Agg('it', kind, 0, (i2, f[1])), o))
                    continue
                for s2, b in eng.call_closure(s, fr, f[1], [o.a[3][0]], ('filter', site)):
                    for s3 in eng.cases(s2.copy(), b, True):
                        out.append((s3, Agg('it', kind, 0, (i2, f[1])), o))
                    for s3 in eng.cases(s2, b, False):
                        out += self.nxt(eng, s3, fr, Agg('it', kind, 0, (i2, f[1])), site, ety)
            return out
        if kind in ('filter_map', 'flat_map') and eng.concrete_it(f[0]):
            if len(f) > 2:      # an inner sequence is being read
                for s, j2, o in self.nxt(eng, st, fr, f[2], ('inner', site), None):
                    if o.a[2] == 1:
                        out.append((s, Agg('it', kind, 0, (f[0], f[1], j2)), o))
                    else:
                        out += self.nxt(eng, s, fr, Agg('it', kind, 0, f[:2]), site, ety)
                return out
            for s, i2, o in self.nxt(eng, st, fr, f[0], site, None):
                if o.a[2] == 0:
                    out.append((s, Agg('it', kind, 0, (i2, f[1])), o))
                    continue
                for s2, v in eng.call_closure(s, fr, f[1], [o.a[3][0]], (kind, site)):
                    if kind == 'flat_map':
                        out += self.nxt(eng, s2, fr, Agg('it', kind, 0, (i2, f[1], self.toiter(eng, s2, v))), site, ety)
                        continue
                    for s3 in eng.cases(s2.copy(), Is(v, 1), True):
                        out.append((s3, Agg('it', kind, 0, (i2, f[1])), Some(s3.norm(Pl(s3.norm(v), OPT, 1, 0)))))
                    for s3 in eng.cases(s2, Is(v, 1), False):
                        out += self.nxt(eng, s3, fr, Agg('it', kind, 0, (i2, f[1])), site, ety)
            return out
        if kind == 'filter':
            # an element of the underlying sequence satisfying the predicate, or the end
            seq = self.filtered(eng, st, fr, it, site)
            return self.nxt(eng, st, fr, seq, site, ety)
        return [(st.copy(), it, Some(eng.settype(eng.fresh('itel', site), ety))), (st, it, None_())]

    def elty(self, eng, x, src, ety=None):
        if ety is not None:
            eng.settype(x, ety)
        if is_app(src):
            op = src.a[0]
            if op in ('split', 'lines', 'matches', 'splitn', 'rsplit', 'split_whitespace', 'split_terminator', 'split_inclusive'):
                E.strphis.add(x)
        ts = tyof.get(src)
        if ts is not None and x not in tyof:
            ts = ts.peel() or ts
            if ts.k == 'adt' and ts.key == 'alloc::vec::Vec':
                eng.settype(x, ts.arg(0))
            elif ts.k in ('slice', 'array'):
                eng.settype(x, ts.pointee())

    def filtered(self, eng, st, fr, it, site):
        """filter adaptor as an opaque subsequence"""
        f = it.a[3]
        E_ = Sym('elem', 'filter', eng.tag, fr.id, site)
        for s, x in self.gelem(eng, st.copy(), fr, f[0], site):
            eng.settype(E_, tyof.get(x))
            if eng.seqlike(x):
                E.strphis.add(E_)
            for s2, b in eng.call_closure(s, fr, f[1], [x], ('filter', site)):
                for s3 in eng.cases(s2, b, True):
                    eng.philog(E_, s3, s3.norm(x))
        v = App('collect', E_)
        n = self.ilen(eng, st, f[0])
        if n is not None:
            st.add_ge(lsub(n, Len(v)))
        return self.it(v)

    def ilen(self, eng, st, it):
        """number of remaining elements, if it is a simple expression"""
        it = st.norm(it)
        if it.k == 'agg' and it.a[0] == 'adt':
            a, b = it.a[3][0], it.a[3][1] if len(it.a[3]) > 1 else None
            if it.a[1] == RANGE and is_int(a) and st.prove(st.lnorm(lsub(b, a))):
                return lsub(b, a)
            return None
        if it.k != 'agg' or it.a[0] != 'it':
            return None
        k, f = it.a[1], it.a[3]
        if k == 'seq':
            r = lsub(Len(f[0]), f[1])
            return r if is_const(f[1]) and cval(f[1]) == 0 or st.prove(st.lnorm(r)) else None
        if k in ('map', 'peekable', 'rev', 'enumerate'):
            return self.ilen(eng, st, f[0])
        if k == 'revrange':
            r = lsub(f[1], f[0])
            return r if st.prove(st.lnorm(r)) else None
        if k == 'zip':
            a, b = self.ilen(eng, st, f[0]), self.ilen(eng, st, f[1])
            if a is None or b is None:
                return None
            if a is b:
                return a
            if st.prove(st.lnorm(lsub(b, a))):
                return a
            if st.prove(st.lnorm(lsub(a, b))):
                return b
            r = App('min', a, b)
            tyname.setdefault(r, 'usize')
            return r
        return None

    def gelem(self, eng, st, fr, it, site, idx=None):
        """an arbitrary element of the iterator -> [(state, element)]"""
        it = st.norm(it)
        if it.k == 'agg' and it.a[0] == 'adt':
            a, b = it.a[3][0], it.a[3][1] if len(it.a[3]) > 1 else None
            if not is_int(a):
                return [(st, eng.fresh('rngel', site))]
            x = Sym('ri', a.id, b.id if b is not None else 0)
            tyname.setdefault(x, tyname.get(b, 'usize') if b is not None else 'usize')
            try:
                st.add_ge(lsub(x, a))
                if it.a[1] == RANGE:
                    st.add_ge(ladd(lsub(b, x), Int(-1)))
                elif it.a[1] == RANGEI:
                    st.add_ge(lsub(b, x))
            except Dead:
                return []
            return [(st, x)]
        if it.k != 'agg' or it.a[0] != 'it':
            return [(st, eng.fresh('itel', site))]
        k, f = it.a[1], it.a[3]
        if k == 'seq':
            src = st.norm(f[0])
            if idx is None:
                idx = Sym('gidx')
                tyname.setdefault(idx, 'usize')
            try:
                st.add_ge(st.lnorm(ladd(lsub(Len(src), idx), Int(-1))))
            except Dead:
                return []
            if src.k == 'agg' and src.a[0] == 'array' and not is_const(idx):
                # join of the known elements
                x = App('at', src, idx)
            else:
                x = At(src, idx)
            self.elty(eng, x, src)
            if src.k == 'agg' and src.a[0] == 'array' and src.a[3]:
                f0 = src.a[3][0]
                if f0 in tyof:
                    eng.settype(x, tyof[f0])
                if all(isconst(q) and q.k in ('str', 'char') for q in src.a[3]):
                    st.vs[x] = (True, frozenset(pyconst(q) for q in src.a[3]))
            return [(st, x)]
        if k in ('rev', 'peekable', 'skip', 'revrange'):
            return self.gelem(eng, st, fr, f[0] if k != 'revrange' else Agg('adt', RANGE, 0, f), site, idx)
        if k == 'enumerate':
            i = Sym('gidx')
            tyname.setdefault(i, 'usize')
            return [(s, Tup(i, x)) for s, x in self.gelem(eng, st, fr, f[0], site, idx)]
        if k == 'map':
            out = []
            for s, x in self.gelem(eng, st, fr, f[0], site, idx):
                out += eng.call_closure(s, fr, f[1], [x], ('map', site))
            return out
        if k == 'zip':
            out = []
            for s, x in self.gelem(eng, st, fr, f[0], site, idx):
                for s2, y in self.gelem(eng, s, fr, f[1], ('z', site), idx):
                    out.append((s2, Tup(x, y)))
            return out
        if k == 'filter':
            out = []
            for s, x in self.gelem(eng, st, fr, f[0], site, idx):
                for s2, b in eng.call_closure(s, fr, f[1], [x], ('filter', site)):
                    out += [(s3, x) for s3 in eng.cases(s2, b, True)]
            return out
        return [(st, eng.fresh('itel', site))]

    def charsof(self, it):
        """the text whose characters, from the first one on, the iterator is built over"""
        while it.k == 'agg' and it.a[0] == 'it':
            if it.a[1] == 'seq':
                ok = is_app(it.a[3][0], 'chars') and is_const(it.a[3][1]) and cval(it.a[3][1]) == 0
                return it.a[3][0].a[1] if ok else None
            it = it.a[3][0]
        return None

    def collect(self, eng, st, fr, it, site, kind):
        it = st.norm(it)
        if kind == 'str' and not self.has_ref(it) and it.k == 'agg' and it.a[0] == 'it' and it.a[1] != 'seq' and self.charsof(it) is not None:
            root, acc = ('hof', fr.id, site), ('hofacc', fr.id, site)
            s0 = st.copy()
            s0.mem[root] = it
            s0.mem[acc] = Str('')

            def body(s, x):
                s.mem[acc] = Cat(s.norm(s.mem[acc]), x if eng.seqlike(x) else self.chs(x))
                return [(None, s)]
            r = eng.charloop([s0], self.iterstep(eng, fr, root, site, body), ('H', fr.id, site), fr, None)
            if r is not None:
                for tg, s in r:
                    s.mem.pop(root, None)
                return [(s, s.mem.pop(acc)) for tg, s in r]
        if it.k == 'agg' and it.a[0] == 'it' and it.a[1] in ('flat_map', 'filter_map'):
            it = self.adaptor(eng, st, fr, it.a[1], it.a[3][0], [it, it.a[3][1]], None, site, None)[0][1]
        if self.has_ref(it) or eng.opts.get('content') and it.k == 'agg' and it.a[0] == 'it' and it.a[1] != 'seq':
            # adaptor closures with side effects: run them as a loop
            root = ('hof', fr.id, site)
            acc = ('hofacc', fr.id, site)
            st.mem[root] = it
            st.mem[acc] = Str('') if kind == 'str' else Agg('array', None, 0, ())

            def body(s, x):
                cur = s.norm(s.mem[acc])
                if kind == 'str':
                    s.mem[acc] = Cat(cur, x if x.k != 'char' else self.chs(x))
                else:
                    s.mem[acc] = App('push', cur, x)
                return [(None, s)]
            res = self.iterloop(eng, [st], fr, root, site, body)
            out = []
            for tg, s in res:
                s.mem.pop(root, None)
                out.append((s, s.mem.pop(acc)))
            return out
        if it.k == 'agg' and it.a[0] == 'it' and it.a[1] == 'seq' and kind != 'str' and is_const(it.a[3][1]) and cval(it.a[3][1]) == 0:
            src = st.norm(it.a[3][0])
            if is_app(src) or src.k in ('sym', 'agg'):
                return [(st, src)]
        E_ = Sym('elem', eng.tag, fr.id, site)
        n = self.ilen(eng, st, it)
        s0 = st.copy()
        cnt = 0
        for s, x in self.gelem(eng, s0, fr, it, site):
            x = s.norm(x)
            cnt += 1
            eng.philog(E_, s, x)
            if x in tyof:
                eng.settype(E_, tyof[x])
            if eng.seqlike(x):
                E.strphis.add(E_)
        if kind == 'str':
            v = App('concat', E_, n) if n is not None else App('concat', E_)
            return [(st, v)]
        v = App('collect', E_)
        if n is not None:
            v = App('collect', E_, App('n', n))
        return [(st, v)]

    def iterloop(self, eng, sts, fr, root, site, body):
        return eng.loop(sts, self.iterstep(eng, fr, root, site, body), ('H', fr.id, site), fr, None)

    def iterstep(self, eng, fr, root, site, body):
        """drive iterator stored at root; body(s, x) -> [(exit tag or None, state)]"""
        def step(ss):
            backs, exits = [], []
            for s in ss:
                for s2, i2, o in self.nxt(eng, s, fr, s.mem[root], ('hofn', site)):
                    s2.mem[root] = i2
                    if o.a[2] == 0:
                        exits.append(('end', s2))
                    else:
                        for tg, s3 in body(s2, s2.norm(o.a[3][0])):
                            if tg is None:
                                backs.append(s3)
                            else:
                                exits.append((tg, s3))
            return backs, exits
        return step

    def iter_call(self, eng, st, fr, m, fty, args, dty, site, t):
        ety = dty.arg(0) if dty is not None and dty.k == 'adt' and dty.key == OPT else None
        ref, it = self.lref(eng, st, args[0])
        if not self.isit(it):
            ty = self.targ(fty)
            tt = ty.peel() if ty is not None else None
            if m in ('next', 'peek', 'nth', 'next_back', 'next_if', 'next_if_eq') or (tt is not None and tt.k == 'adt' and tt.key.split('::')[0] in eng.workspace()):
                if m == 'next' and tt is not None and tt.k == 'adt':
                    b = eng.p.impl_method('Iterator', tt.key, 'next')
                    if b is not None:
                        return eng.call_body(st, fr, b, args, dty, site, t)
                if ref is not None:
                    eng.havoc_refs(st, args[0], site)
                v = eng.settype(eng.fresh('itel', site), dty)
                return [(st, v)]
            it = self.it(it) if it.k in ('app', 'sym') else None
            if it is None:
                return None
        if m == 'next':
            out = []
            for s, i2, o in self.nxt(eng, st, fr, it, site, ety):
                self.update(eng, s, ref, i2)
                out.append((s, o))
            return out
        if m == 'peek':
            return [(s, o) for s, i2, o in self.nxt(eng, st, fr, it, site, ety)]
        if m in ('next_if', 'next_if_eq'):
            out = []
            for s, i2, o in self.nxt(eng, st, fr, it, site, ety):
                if o.a[2] == 0:
                    out.append((s, o))
                    continue
                if m == 'next_if_eq':
                    bs = [(s, self.eqv(eng, s, o.a[3][0], self.deref(eng, s, args[1])))]
                else:
                    bs = eng.call_closure(s, fr, args[1], [o.a[3][0]], ('nif', site))
                for s2, b in bs:
                    for s3 in eng.cases(s2.copy(), b, True):
                        self.update(eng, s3, ref, i2)
                        out.append((s3, o))
                    for s3 in eng.cases(s2, b, False):
                        out.append((s3, None_()))
            return out
        if m in ('peekable', 'into_iter', 'by_ref', 'cloned', 'copied', 'fuse'):
            return [(st, args[0] if m == 'by_ref' else it)]
        if m == 'rev':
            if it.a[0] == 'adt' and it.a[1] == RANGE and is_int(it.a[3][0]):
                return [(st, Agg('it', 'revrange', 0, it.a[3]))]
            if it.a[0] == 'it' and it.a[1] == 'seq' and is_const(it.a[3][1]) and cval(it.a[3][1]) == 0:
                src = it.a[3][0]
                if src.k == 'agg':
                    return [(st, self.it(Agg('array', None, 0, tuple(reversed(src.a[3])))))]
                return [(st, self.it(App('revseq', src)))]
            return [(st, Agg('it', 'rev', 0, (it,)))]
        if m in ('map', 'filter') or m in ('flat_map', 'filter_map') and self.charsof(it) is not None:
            return [(st, Agg('it', m, 0, (it, st.norm(args[1]))))]
        if m == 'enumerate':
            return [(st, Agg('it', m, 0, (it, Int(0))))]
        if m == 'zip':
            return [(st, Agg('it', m, 0, (it, self.toiter(eng, st, args[1]))))]
        if m in ('skip', 'take', 'step_by', 'skip_while', 'take_while', 'chain', 'inspect', 'scan', 'flat_map', 'flatten', 'filter_map', 'map_while', 'chunks', 'windows', 'intersperse'):
            return self.adaptor(eng, st, fr, m, it, args, dty, site, t)
        if m == 'count' or m == 'len':
            if it.a[0] == 'it' and it.a[1] == 'filter':
                it = self.filtered(eng, st, fr, it, site)
            n = self.ilen(eng, st, it)
            if n is not None:
                return [(st, n)]
            v = App('count', it)
            tyname.setdefault(v, 'usize')
            return [(st, v)]
        if m == 'collect':
            dt = dty
            s = dt.s if dt is not None else ''
            if s.startswith(('std::string::String', 'std::borrow::Cow')):
                return self.collect(eng, st, fr, it, site, 'str')
            if s.startswith('std::vec::Vec') or s.startswith('std::collections::VecDeque') or s.startswith('std::boxed::Box<['):
                return [(a, eng.settype(v, dty)) for a, v in self.collect(eng, st, fr, it, site, 'vec')]
            out = []
            for a, v in self.collect(eng, st, fr, it, site, 'vec'):
                out.append((a, eng.settype(App('into', v, s), dty)))
            return out
        if m in ('all', 'any', 'position', 'find', 'rposition', 'find_map'):
            return self.search(eng, st, fr, m, it, ref, args, dty, site, t)
        if m == 'last' or m == 'next_back':
            if it.a[0] == 'it' and it.a[1] == 'seq':
                v = App('last', it.a[3][0])
                if it.a[3][0].k == 'agg':
                    fs = it.a[3][0].a[3]
                    return [(st, Some(fs[-1]) if fs else None_())]
                eng.settype(v, dty)
                x = Pl(v, OPT, 1, 0)
                self.elty(eng, x, it.a[3][0], ety)
                if m == 'next_back':
                    self.update(eng, st, ref, self.it(App('subseq', it.a[3][0], Str('back'))))
                return [(st, v)]
            return [(st, eng.settype(App('lastof', it), dty))]
        if m in ('for_each', 'fold', 'try_for_each', 'try_fold', 'sum', 'product', 'min', 'max', 'min_by_key', 'max_by_key', 'nth', 'reduce', 'partition', 'unzip', 'cmp', 'eq'):
            return self.fold(eng, st, fr, m, it, ref, args, dty, site, t)
        return None

    def adaptor(self, eng, st, fr, m, it, args, dty, site, t):
        sp = t.get('s') if t else None
        E_ = Sym('elem', m, eng.tag, fr.id, site)
        if m == 'step_by':
            n = self.deref(eng, st, args[1])
            eng.oblige(fr, st, 'call', st.prove(st.lnorm(ladd(n, Int(-1)))), 'step_by(0) panics', sp)
        if m == 'skip' and it.a[0] == 'it' and it.a[1] == 'seq':
            n = self.deref(eng, st, args[1])
            p = Ge0(st.lnorm(lsub(Len(it.a[3][0]), ladd(it.a[3][1], n))))
            out = []
            for s in eng.cases(st.copy(), p, True):
                out.append((s, self.it(it.a[3][0], ladd(it.a[3][1], n))))
            for s in eng.cases(st, p, False):
                out.append((s, self.it(it.a[3][0], Len(it.a[3][0]))))
            return out
        its = [it]
        if m == 'chain':
            its.append(self.toiter(eng, st, args[1]))
        for i in its:
            for s, x in self.gelem(eng, st.copy(), fr, i, site):
                if m in ('flat_map', 'filter_map', 'map_while'):
                    for s2, v in eng.call_closure(s, fr, args[1], [x], (m, site)):
                        if m == 'flat_map':
                            for s3, y in self.gelem(eng, s2, fr, self.toiter(eng, s2, v), (m, 2, site)):
                                self.elin(eng, s3, E_, y)
                        else:
                            for s3 in eng.cases(s2, Is(v, 1), True):
                                self.elin(eng, s3, E_, Pl(s3.norm(v), OPT, 1, 0))
                elif m == 'flatten':
                    for s3, y in self.gelem(eng, s, fr, self.toiter(eng, s, x), (m, 2, site)):
                        self.elin(eng, s3, E_, y)
                elif m in ('skip_while', 'take_while', 'inspect', 'scan'):
                    for s2, b in eng.call_closure(s.copy(), fr, args[-1], [x], (m, site)):
                        pass
                    if m == 'scan':
                        eng.settype(E_, None)
                    self.elin(eng, s, E_, x)
                else:
                    self.elin(eng, s, E_, x)
        v = App('collect', E_)
        n = self.ilen(eng, st, it)
        if n is not None and m not in ('chain', 'flat_map', 'flatten'):
            st.add_ge(lsub(n, Len(v)))
            if m == 'take':
                k = self.deref(eng, st, args[1])
                st.add_ge(lsub(k, Len(v)))
            if m == 'inspect':
                st.add_ge(lsub(Len(v), n))
        if m == 'chain':
            a, b = n, self.ilen(eng, st, its[1])
            if a is not None and b is not None:
                st.add_ge(lsub(ladd(a, b), Len(v)))
                st.add_ge(lsub(Len(v), ladd(a, b)))
        for a in args[1:]:
            if self.has_ref(a):
                eng.havoc_refs(st, a, site)
        return [(st, self.it(v))]

    def elin(self, eng, s, E_, x):
        x = s.norm(x)
        eng.philog(E_, s, x)
        if x in tyof:
            eng.settype(E_, tyof[x])
        if eng.seqlike(x):
            E.strphis.add(E_)
        if x in tyname:
            tyname.setdefault(E_, tyname[x])

    def crange(self, it):
        """the numbers of a constant range"""
        if it.k == 'agg' and it.a[0] == 'adt' and it.a[1] in (RANGE, RANGEI) and is_int(it.a[3][0]) and is_const(it.a[3][0]) and is_const(it.a[3][1]):
            if it.a[1] == RANGEI and it.a[3][2].k != 'bool':
                return None
            a, b = cval(it.a[3][0]), cval(it.a[3][1]) + (it.a[1] == RANGEI and not it.a[3][2].a)
            if b - a <= 16:
                return list(range(a, b))
        return None

    def search(self, eng, st, fr, m, it, ref, args, dty, site, t):
        f = st.norm(args[1])
        cr = self.crange(it)
        if cr is not None and (ref is None or m in ('all', 'any', 'find', 'find_map')):
            cur, out = [st], []
            for n, i in enumerate(cr):
                nx = []
                for s in cur:
                    for s2, b in eng.call_closure(s, fr, f, [Int(i)], (m, n, site)):
                        p = Is(b, 1) if m == 'find_map' else Not(b) if m == 'all' else b
                        for s3 in eng.cases(s2.copy(), p, True):
                            out.append((s3, Bool(m == 'any') if m in ('all', 'any') else Some(Int(n)) if 'position' in m else Some(Int(i)) if m == 'find' else s3.norm(b)))
                            if ref is not None:
                                self.update(eng, s3, ref, Agg('adt', RANGE, 0, (Int(i + 1), Int(cr[-1] + 1))))
                        nx += eng.cases(s2, p, False)
                cur = eng.merge(nx, ('srch', fr.id, site, n)) if len(nx) > 1 else nx
            for s in cur:
                out.append((s, Bool(m == 'all') if m in ('all', 'any') else None_()))
                if ref is not None:
                    self.update(eng, s, ref, Agg('adt', RANGE, 0, (Int(0), Int(0))))
            return out
        if self.has_ref(f) or self.has_ref(it):
            root = ('hof', fr.id, site)
            st.mem[root] = it

            def body(s, x):
                out = []
                for s2, b in eng.call_closure(s, fr, f, [x], (m, site)):
                    if m == 'all':
                        out += [(None, q) for q in eng.cases(s2.copy(), b, True)] + [('stop', q) for q in eng.cases(s2, b, False)]
                    elif m == 'find_map':
                        out += [('stop', q) for q in eng.cases(s2.copy(), Is(b, 1), True)] + [(None, q) for q in eng.cases(s2, Is(b, 1), False)]
                    else:
                        out += [('stop', q) for q in eng.cases(s2.copy(), b, True)] + [(None, q) for q in eng.cases(s2, b, False)]
                return out
            out = []
            for tg, s in self.iterloop(eng, [st], fr, root, site, body):
                s.mem.pop(root, None)
                if m == 'all':
                    out.append((s, Bool(tg == 'end')))
                elif m == 'any':
                    out.append((s, Bool(tg != 'end')))
                else:
                    out.append((s, None_() if tg == 'end' else Some(eng.fresh('found', site))))
            return out
        preds = []
        for s, x in self.gelem(eng, st.copy(), fr, it, site):
            for s2, b in eng.call_closure(s, fr, f, [x], (m, site)):
                preds.append((s2, s2.norm(b), x))
        tr = {s.truth(b) for s, b, x in preds} if m in ('all', 'any') else {None}
        if tr == {True} and m == 'all' or not preds and m == 'all':
            return [(st, Bool(True))]
        if tr == {False} and m == 'any' or not preds and m == 'any':
            return [(st, Bool(False))]
        src = it.a[3][0] if it.a[0] == 'it' and it.a[1] == 'seq' and is_const(it.a[3][1]) and cval(it.a[3][1]) == 0 else it
        pr = preds[0][1] if len(preds) == 1 else f
        if m in ('all', 'any') and is_app(src, 'chars'):
            cs = eng.charset(st, fr, f)
            if cs is not None:
                if m == 'any':
                    return [(st, StrPred('contains', src.a[1], cs))]
                return [(st, App('all', src, cs if is_app(cs, 'cset') else App('cset', mk('fs', frozenset([cs.a])), Bool(False))))]
        if m == 'any':
            pr = Not(pr) if pr is not f else App('negf', f)
        if m in ('all', 'any'):
            v = App('all', src, pr)
            return [(st, v if m == 'all' else Not(v))]
        v = App({'position': 'position', 'rposition': 'position', 'find': 'findel', 'find_map': 'findmap'}[m], src, pr)
        eng.settype(v, dty)
        pl = Pl(v, OPT, 1, 0)
        if m in ('position', 'rposition'):
            tyname.setdefault(pl, 'usize')
        elif m == 'find' and preds:
            for s, b, x in preds:
                for s2 in eng.cases(s, b, True):
                    self.elin(eng, s2, pl, x)
        elif m == 'find_map':
            for s, b, x in preds:
                for s2 in eng.cases(s, Is(b, 1), True):
                    self.elin(eng, s2, pl, Pl(s2.norm(b), OPT, 1, 0))
        if ref is not None and m in ('position', 'find', 'find_map') and self.isit(it) and it.a[0] == 'it' and it.a[1] == 'seq':
            self.update(eng, st, ref, self.it(it.a[3][0], eng.settype(eng.fresh('itpos', site), None)))
        return [(st, v)]

    def fold(self, eng, st, fr, m, it, ref, args, dty, site, t):
        if m in ('for_each', 'fold', 'try_for_each', 'try_fold'):
            root, acc = ('hof', fr.id, site), ('hofacc', fr.id, site)
            st.mem[root] = it
            st.mem[acc] = st.norm(args[1]) if 'fold' in m else Tup()
            f = args[-1]
            st.mem[('hoff', fr.id, site)] = st.norm(f)

            def body(s, x):
                out = []
                xs = [s.norm(s.mem[acc]), x] if 'fold' in m else [x]
                for s2, v in eng.call_closure(s, fr, f, xs, (m, site)):
                    if m.startswith('try_'):
                        key, good = (OPT, 1) if dty is not None and dty.key == OPT else (RES, 0)
                        for s3 in eng.cases(s2.copy(), Is(v, good), True):
                            if m == 'try_fold':
                                s3.mem[acc] = s3.norm(Pl(s3.norm(v), key, good, 0))
                            out.append((None, s3))
                        for s3 in eng.cases(s2, Is(v, good), False):
                            s3.mem[acc] = s3.norm(v)
                            out.append(('stop', s3))
                    else:
                        if m == 'fold':
                            s2.mem[acc] = s2.norm(v)
                        out.append((None, s2))
                return out
            out = []
            for tg, s in self.iterloop(eng, [st], fr, root, site, body):
                s.mem.pop(root, None)
                s.mem.pop(('hoff', fr.id, site), None)
                v = s.mem.pop(acc)
                if m.startswith('try_') and tg == 'end':
                    v = Some(v) if dty is not None and dty.key == OPT else Ok(v)
                out.append((s, v))
            return out
        for a in args[1:]:
            if a.k == 'agg' and a.a[0] == 'closure':
                for s, x in self.gelem(eng, st.copy(), fr, it, site):
                    b = eng.p.bodies.get(a.a[1])
                    xs = [x] * max(1, (b.argc - 1) if b else 1)
                    eng.call_closure(s, fr, a, xs, (m, site))
        if m == 'nth' and ref is not None and it.a[0] == 'it' and it.a[1] == 'seq':
            n = self.deref(eng, st, args[1])
            src, pos = it.a[3]
            out = []
            p = Ge0(st.lnorm(ladd(lsub(Len(src), ladd(pos, n)), Int(-1))))
            for s in eng.cases(st.copy(), p, True):
                x = At(src, ladd(pos, n))
                self.elty(eng, x, src, dty.arg(0) if dty is not None else None)
                self.update(eng, s, ref, self.it(src, ladd(ladd(pos, n), Int(1))))
                out.append((s, Some(x)))
            for s in eng.cases(st, p, False):
                self.update(eng, s, ref, self.it(src, Len(src)))
                out.append((s, None_()))
            return out
        v = eng.settype(App('fold:' + m, it, *[self.deref(eng, st, a) for a in args[1:]]), dty)
        return [(st, v)]

    # characters
    def char_pred(self, name):
        def f(eng, st, fr, fty, args, dty, site, t):
            c = self.deref(eng, st, args[0])
            if c.k == 'char':
                r = charclass(name, chr(c.a))
                if r is not None:
                    return [(st, Bool(r))]
            if c.k == 'sym' and c.a[0] == 'nonascii' and name.startswith('is_ascii'):
                return [(st, Bool(False))]
            return [(st, App(name, c))]
        return f

    def m_char_len_utf8(self, eng, st, fr, fty, args, dty, site, t):
        c = self.deref(eng, st, args[0])
        if c.k == 'char':
            return [(st, Int(blen(chr(c.a))))]
        return [(st, LenX(ChStr(c)))]


for _n in ('saturating_sub', 'saturating_add', 'wrapping_add', 'checked_sub', 'checked_add', 'abs_diff'):
    for _t in list(UNSIGNED) + list(SIGNED):
        def _f(self, eng, st, fr, fty, args, dty, site, t, _n=_n):
            return self.num(eng, st, fr, _n, args, dty, t)
        setattr(Models, 'm_num_%s' % _n, _f)
        setattr(Models, 'm_%s_%s' % (_t, _n), _f)
