"""Runs the abstract interpreter over the renderer: every function of the recursion cut set is
analysed for arbitrary arguments; everything else is inlined at its call sites."""
import time
import val, dom, purity
from val import *
from dom import *
from engine import Engine
from models import Models


def callgraph(prog, roots):
    seen, ext = purity.reach(prog, roots)
    g = {k: [] for k in seen}
    for k in seen:
        b = prog.bodies[k]
        cs = []
        for bo in [b] + b.promoted:
            for blk in bo.blocks:
                if blk.get('cleanup'):
                    continue
                purity.consts(blk['st'], cs)
                purity.consts(blk['t'], cs)
                for s in blk['st']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure':
                        g[k].append(s[2][1][1])
        for c in cs:
            ty = b.crate.ty(c['ty'])
            if ty.k == 'fndef':
                for kk in purity.callee_keys(ty):
                    if kk in seen:
                        g[k].append(kk)
                        break
                else:
                    for a in ty.args():
                        if hasattr(a, 'peel'):
                            t = a.peel() or a
                            if t.k == 'closure' and t.key in seen:
                                g[k].append(t.key)
    return g


def cutset(prog, roots):
    g = callgraph(prog, roots)
    cut, state = [], {}

    def dfs(k):
        state[k] = 1
        for m in dict.fromkeys(g.get(k, ())):
            if state.get(m) == 1:
                if m not in cut:
                    cut.append(m)
            elif m not in state:
                dfs(m)
        state[k] = 2
    for r in roots:
        if r not in state:
            dfs(r)
    # derived impls (Debug, PartialEq) recurse structurally; they only feed logging / comparison
    cut = [k for k in cut if not any(x in prog.bodies[k].path for x in ('fmt::Debug', 'PartialEq', 'Clone>'))]
    return cut, g


class Run:
    def __init__(self, prog, roots, opts=None, models=None):
        self.prog, self.roots = prog, roots
        self.cut, self.g = cutset(prog, roots)
        self.opts = dict(opts or {})
        self.opts['cut'] = set(self.cut)
        self.eng = Engine(prog, models or Models(), self.opts)

    def unit(self, key):
        eng = self.eng
        b = self.prog.bodies[key]
        st = St()
        args = []
        for i in range(1, b.argc + 1):
            t = b.lty(i)
            if t.k == 'ref' and t.mut:
                root = ('argm', key, i)
                v = Sym('arg', key, i)
                eng.settype(v, t.pointee())
                st.mem[root] = v
                args.append(Ref(root))
            else:
                v = Sym('arg', key, i)
                eng.settype(v, t)
                args.append(v)
        eng.tag = ('unit', key)
        n = len(eng.log)
        rs = eng.run_body(st, b, args, None, ('unit', key))
        for s, v in rs:
            eng.log.append(('ret', key, s, v))
        return eng.log[n:]

    def all(self, verbose=False):
        out = {}
        for k in list(dict.fromkeys(self.cut + list(self.roots))):
            t = time.time()
            out[k] = self.unit(k)
            if verbose:
                print('%-50s %6.1fs  log %d steps %d' % (self.prog.bodies[k].path, time.time() - t, len(out[k]), self.eng.steps))
        return out


if __name__ == '__main__':
    import sys, run
    from engine import run_with_stack

    def main():
        ctx = run.Ctx()
        roots = purity.render_roots(ctx.prog)
        r = Run(ctx.prog, roots, {'maxheads': 10, 'balance': True})
        print('cut', [ctx.prog.bodies[k].path for k in r.cut])
        only = sys.argv[1:]
        for k in list(dict.fromkeys(r.cut + list(roots))):
            p = ctx.prog.bodies[k].path
            if only and not any(p.endswith(o) for o in only):
                continue
            t = time.time()
            log = r.unit(k)
            print('%-50s %6.1fs  log %d steps %d' % (p, time.time() - t, len(log), r.eng.steps))
            obs = [e for e in log if e[0] == 'ob']
            print(' obligations', len(obs), 'failed', len([e for e in obs if not e[2]]))
            bad = {}
            for e in obs:
                if not e[2]:
                    bad.setdefault((e[1], e[4], e[3]), e)
            for (kind, wh, what), e in list(bad.items())[:60]:
                print('   ', kind, wh, what[:300], '|', e[5][:120])
            for e in log:
                if e[0] == 'loop' and not e[1]:
                    print('   LOOP', e[1:])
        print({k: v for k, v in sorted(r.eng.models.unknown.items())})
        print(getattr(r.eng, 'contract_list', None))
    run_with_stack(main)
