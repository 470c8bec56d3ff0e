"""Shared driver of the checks: lowering, bookkeeping of obligations, reports, evidence, known findings."""
import json, os, shutil, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
import llvmir
import absint
from llvmir import AnalysisError, strip_templates

REPO = os.environ.get('DDSA_REPO', '/repo')
DRIVER = os.path.join(HERE, 'harness', 'driver.cpp')


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.obs = {}           # key -> [ok, detail]
        self.viol = {}          # key -> text
        self.functions = set()
        self.stats = {'paths': 0, 'states': 0, 'steps': 0, 'call_sites': 0}
        self.rules = []
        self.assume = []
        self._ir = None
        self._tmp = None
        self.extra = {}

    # -- lowering --
    def ir(self):
        if self._ir is None:
            self._ir, self._tmp = llvmir.compile_ir(DRIVER, REPO)
        return self._ir

    def di(self):
        import ditypes
        if not hasattr(self, '_di'):
            self._di = ditypes.DI(self.ir())
        return self._di

    def module(self, roots, cut=None, opaque=None, std_limit=900):
        m = llvmir.Module(self.ir())
        m.prepare(roots, cut or (lambda s, d: False), opaque, std_limit)
        m.statics = absint.static_values(m)
        return m

    def cleanup(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = self._ir = None

    # -- bookkeeping --
    def rule(self, text):
        self.rules.append(text)

    def ran(self, eng):
        self.functions.add(eng.mod.dname(eng.fn.name)[:160])
        self.stats['states'] += eng.nstates
        self.stats['steps'] += eng.nsteps
        self.stats['call_sites'] += len(eng.calls_seen)

    def ob(self, key, ok, detail='', where='', trace=()):
        """one obligation: rule instance `key`; ok on this path?  An obligation is discharged when it is ok on
        every path that raises it."""
        o = self.obs.get(key)
        if o is None:
            self.obs[key] = [bool(ok), 1]
        else:
            o[0] = o[0] and bool(ok)
            o[1] += 1
        if not ok and key not in self.viol:
            self.viol[key] = (where, detail, list(trace))
        return ok

    def require(self, what, n, least):
        self.extra.setdefault('instance_counts', {})[what] = n
        if n < least:
            raise AnalysisError('%s: %d instances found, at least %d expected (anchor vanished?)' % (what, n, least))

    # -- result --
    def finish(self):
        known = []
        kf = os.path.join(HERE, 'known_findings.json')
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf)).get('known', []) if k['property'] == self.pid]
        bad, shown = [], []
        for key, (where, detail, trace) in sorted(self.viol.items()):
            hit = [k for k in known if k['key'] == key]
            if hit:
                if hit[0] not in shown:
                    shown.append(hit[0])
            else:
                bad.append((key, where, detail, trace))
        for k in shown:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        rep = os.path.join(HERE, 'evidence', '%s.report.txt' % self.pid)
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        with open(rep, 'w') as f:
            for key, where, detail, trace in bad:
                f.write('rule instance: %s\n  at: %s\n  what: %s\n' % (key, where, detail))
                for t in trace:
                    f.write('    path: %s\n' % t)
                f.write('\n')
            if not bad:
                f.write('no violation\n')
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
              'coverage': {
                  'explanation': 'Static analysis of the LLVM IR lowered from /repo/include on this run: every path (loops to a fixed '
                                 'point) of the listed functions was enumerated abstractly and every rule instance (obligation) decided on it.',
                  'rule': ' '.join(self.rules),
                  'obligations': len(self.obs),
                  'discharged': sum(1 for o in self.obs.values() if o[0]),
                  'path_checks': sum(o[1] for o in self.obs.values()),
                  'functions_analysed': len(self.functions),
                  'functions': sorted(self.functions),
                  'abstract_states': self.stats['states'],
                  'instructions_interpreted': self.stats['steps'],
                  'call_sites': self.stats['call_sites'],
                  'samples': sorted(self.obs)[:60]},
              'assumptions': self.assume,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(bad)}
        ev['coverage'].update(self.extra)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for key, where, detail, trace in bad[:12]:
            print('%s\n  at %s\n  %s' % (key, where, detail))
            for t in trace[-14:]:
                print('    %s' % t)
        print('%s: %d obligations, %d discharged, %d functions, %d states, %.1f s' % (
            self.pid, len(self.obs), sum(1 for o in self.obs.values() if o[0]), len(self.functions), self.stats['states'], time.time() - self.t0))
        if bad:
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            return 1
        return 0


def run(pid, fn):
    ctx = Ctx(pid)
    try:
        try:
            fn(ctx)
            if not ctx.obs:
                raise AnalysisError('no obligation was generated')
            rc = 0
        except Exception as e:
            if not isinstance(e, AnalysisError):
                traceback.print_exc()
            print('ANALYSIS-ERROR %s: %s' % (pid, e if isinstance(e, AnalysisError) else 'internal error'))
            rc = 2
        # what was found before the rest could not be analysed stands
        if rc == 0 or ctx.viol:
            rc = ctx.finish() or rc
    finally:
        ctx.cleanup()
    return rc
