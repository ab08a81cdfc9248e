"""Entry point of every check:  python3 analysis/run.py C05 [C03 ...]"""
import json, os, sys, time, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dump
from mir import Program

VERIF = dump.VERIF


class Result:
    def __init__(self):
        self.viol = []       # (key, message)
        self.cov = {}
        self.assume = []
        self.level = 'proof'
        self.obligations = 0

    def bad(self, key, msg):
        if (key, msg) not in self.viol:
            self.viol.append((key, msg))


MODULES = {}


def load_registry():
    import registry
    return registry.CHECKS


def known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    return {e['key']: e for e in json.load(open(p)) if e.get('property') == pid and e.get('status') == 'known'}


def run(pid, ctx):
    t0 = time.time()
    checks = load_registry()
    r = checks[pid](ctx)
    kf = known(pid)
    live = []
    for key, msg in r.viol:
        if key in kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[key]['what']))
        else:
            live.append((key, msg))
    cov = dict(r.cov)
    cov.setdefault('obligations', r.obligations)
    cov.setdefault('discharged', max(0, r.obligations - len(r.viol)))
    cov.setdefault('checker_cmd', 'python3 analysis/run.py ' + pid)
    cov.setdefault('trusted_base', ['rustc nightly MIR construction', 'driver/mirdump.rs', 'analysis/*.py', 'models of std functions in analysis/models.py'])
    ev = {'property': pid, 'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': r.level, 'coverage': cov, 'assumptions': r.assume,
          'wall_s': round(time.time() - t0, 3), 'violations': len(live)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, ensure_ascii=False)
    if live:
        rep = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(rep, 'w') as f:
            for key, msg in live:
                f.write('[%s]\n%s\n\n' % (key, msg))
        shown = {}
        for key, msg in live:
            shown.setdefault(key, ' '.join(msg.split())[:400])
        for key, msg in list(shown.items())[:20]:
            print('  %s: %s' % (' '.join(key.split()), msg))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    print('OK property=%s obligations=%s (%.1fs)' % (pid, cov['obligations'], time.time() - t0))
    return 0


class Ctx:
    """lazily shared artefacts of one run"""

    def __init__(self):
        self.dir, self.hash = dump.ensure()
        self._prog = None
        self.cache = {}

    @property
    def prog(self):
        if self._prog is None:
            self._prog = Program(self.dir)
        return self._prog


def main():
    ctx = Ctx()
    rc = 0
    ids = sys.argv[1:]
    if ids == ['all']:
        ids = sorted(load_registry())
    for pid in ids:
        rc |= run(pid, ctx)
    return rc


if __name__ == '__main__':
    from engine import run_with_stack
    rc = run_with_stack(main)
    sys.stdout.flush()
    os._exit(rc)
