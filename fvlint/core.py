"""Runner: obligations, findings, evidence, exit codes."""
import json, os, sys, time, traceback, importlib
from .ast import AnalysisBroken, VERIF, REPO

CHECKS = {
    # id : (module, function)
}


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                kv = {}
                rest = line[len('finding:'):].strip()
                # finding: property=<id> key=<key> :: <what fails>
                head, _, what = rest.partition(' :: ')
                for tok in head.split(' '):
                    if '=' in tok:
                        k, v = tok.split('=', 1)
                        kv[k] = v
                out.append((kv['property'], kv['key'], what))
    return out


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []            # (ok, key, where, text)
        self.broken = []
        self.info = {}
        self._prog = None
        self.samples = []
        self.rules = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    @property
    def prog(self):
        if self._prog is None:
            from .ast import Program
            import pickle
            pk = os.environ.get('FVLINT_PROG')      # development only: a pickled Program of a scratch copy
            if pk:
                self._prog = pickle.load(open(pk, 'rb'))
            else:
                self._prog = Program()
        return self._prog

    def rule(self, text):
        self.rules.append(text)

    def ob(self, ok, key, where, text):
        """one obligation; key is a stable, line-free identity of the construct"""
        self.obs.append((bool(ok), key.replace(' ', '_'), where, text))
        return ok

    def ob_known(self, diff, wrong, key, finding, where, text):
        """an obligation with a recorded defect: `wrong()` tells whether the code still fails in exactly the recorded way"""
        if diff and finding and not wrong:
            return self.ob(False, finding, where, text)
        return self.ob(not diff, key, where, text)

    def fail_to_analyse(self, what):
        self.broken.append(what)

    def guard(self, what, fn, *a, **k):
        """run an analysis step; an engine limit makes the check 'no answer' without hiding other results"""
        try:
            return fn(*a, **k)
        except AnalysisBroken as e:
            self.broken.append('%s: %s' % (what, e))
        except Exception as e:
            self.broken.append('%s: internal error: %s' % (what, traceback.format_exc()))
        return None

    def count(self, name, n=1):
        self.info[name] = self.info.get(name, 0) + n

    def require(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)


def run(pid, tier, seed):
    from .checks import REGISTRY
    if pid not in REGISTRY:
        print('unknown property', pid)
        return 2
    mod, fname = REGISTRY[pid]
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    sys.setrecursionlimit(20000)
    try:
        m = importlib.import_module('fvlint.checks.' + mod)
        getattr(m, fname)(ctx)
        if not ctx.obs and not ctx.broken:
            raise AnalysisBroken('no obligation was generated: the anchors of this property are gone')
    except AnalysisBroken as e:
        ctx.broken.append(str(e))
    except Exception:
        ctx.broken.append('internal error:\n' + traceback.format_exc())
    known = {(p, k): w for p, k, w in known_findings() if p == pid}
    bad, seen = [], set()
    for ok, key, where, text in ctx.obs:
        if ok:
            continue
        if (pid, key) in known:
            if key not in seen:
                seen.add(key)
                print('KNOWN-FINDING: property=%s %s (%s)' % (pid, known[(pid, key)] or text, where))
            continue
        bad.append({'key': key, 'where': where, 'what': text})
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    nfail = len(bad)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': {'explanation': ' '.join(ctx.rules) or 'static analysis of the resolved syntax tree',
                       'obligations': len(ctx.obs), 'discharged': sum(1 for o in ctx.obs if o[0]),
                       'known_findings_hit': sorted(seen), 'new_violations': bad[:50],
                       'analysed': ctx.info, 'samples': ctx.samples[:12] or [
                           {'obligation': k, 'at': w, 'holds': ok} for ok, k, w, _ in ctx.obs[:12]],
                       'could_not_analyse': ctx.broken[:20],
                       'translation_units': len(ctx._prog.units) if ctx._prog else 0,
                       'functions_in_scope': len(ctx._prog.fns) if ctx._prog else 0},
          'wall_s': round(time.time() - t0, 3)}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d hold, %d known findings, %d new violations, %.1f s' % (
        pid, len(ctx.obs), ev['coverage']['discharged'], len(seen), nfail, time.time() - t0))
    rc = 0
    if bad:
        rp = os.path.join(VERIF, 'evidence', pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump(bad, f, indent=1, default=str)
        for b in bad[:8]:
            print('  %s: %s [%s]' % (b['where'], b['what'][:300], b['key']))
        if len(bad) > 8:
            print('  ... %d more in %s' % (len(bad) - 8, rp))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    if ctx.broken:
        for b in ctx.broken[:20]:
            print('COULD NOT ANALYSE: ' + b)
        if rc == 0:
            rc = 2
    return rc
