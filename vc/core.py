"""The frame of a check: collects obligations, falls back to bounded stand-ins,
replays failures natively, writes the evidence and decides the exit code."""
import json, os, random, signal, subprocess, sys, time, traceback, shutil, tempfile, resource
from term import *
import term as tm
import ir, sym, smt, alg, evalt, harness
import loops
from sym import Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_mods = {}


def work_dir():
    d = os.environ.get('IIR_WORK')
    if not d:
        d = tempfile.mkdtemp(prefix='iirvc.')
        os.environ['IIR_WORK'] = d
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return d


def module(groups):
    """groups: dict name -> text of instantiation units"""
    key = tuple(sorted(groups))
    if key not in _mods:
        w = os.path.join(work_dir(), '_'.join(key)[:80])
        _mods[key] = ir.load(ir.build(w, harness.write(w, groups)))
    return _mods[key]


def dbg(name, pc, *ts):
    n = int(os.environ['IIR_DEBUG'])
    if n < 2:
        n = 700
    print('UNDECIDED', name, '\n  pc', str(pc)[:n], *['\n  %s' % str(t)[:n] for t in ts], flush=True)


class OutOfTime(BaseException):
    pass


class Violated(BaseException):
    pass


class Check:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rnd = random.Random(seed)
        self.t0 = time.time()
        self.rows = []          # obligations
        self.groups = []
        self.cur = None
        self.assumptions = []
        self.contracts = {}     # function -> contract text
        self.inlined = set()
        self.externals = set()
        self.bounds = []
        self.notes = []
        self.native_args = None
        self.mode_bounded = False
        self.vacuity = []
        self.pools = {}
        self.nat = None
        self.inside = False
        self.pending = 0, 0
        self.consts = {}
        self.budget = 3000 if tier == 'thorough' else 400

    thorough = property(lambda s: s.tier == 'thorough')

    # ------------------------------------------------------ obligations
    def add(self, name, status, backend, dt=0.0, detail=None):
        if self.inside and status in ('refuted', 'undecided') and self.failures() > 60:
            raise Unsupported('more than 60 obligations failed')
        if status == 'proved' and self.mode_bounded:
            status = 'bounded'
        self.rows.append({'group': self.cur, 'name': name, 'status': status, 'backend': backend, 'time': round(dt, 3), 'detail': detail})
        return status in ('proved', 'bounded')

    def ok(self, name, cond, detail=None, backend='syntactic'):
        """a condition established by evaluation of the extracted terms themselves"""
        return self.add(name, 'proved' if cond else 'refuted', backend, 0, detail)

    def undecided(self, name, detail):
        return self.add(name, 'undecided', 'none', 0, detail)

    def eq(self, name, pc, a, b, pools=None):
        t = time.time()
        if a is b:
            return self.add(name, 'proved', 'syntactic')
        try:
            if tm.mode() == 'F' and a.sort == 'f':
                r = smt.check(list(pc) + [nt(orr(feq(a, b), an(fisnan(a), fisnan(b))))], 10000) == 'unsat'
            else:
                r = alg.prove_eq(pc, a, b) if a.sort == 'f' else smt.entails(pc, ieq(a, b))
            if not r and a.sort == 'f' and tm.mode() == 'R' and any(c.op == 'feq' for c in pc):
                r = alg.prove_cmp(pc, feq(a, b), timeout=4000)
        except (alg.Undecided, Unsupported) as e:
            r = None
        if r:
            return self.add(name, 'proved', 'algebraic normaliser' if a.sort == 'f' else 'z3', time.time() - t)
        if smt.entails(pc, FALSE):
            return self.add(name, 'proved', 'z3', time.time() - t)
        self.hints(*pc, a, b)
        p = {**self.pools, **(pools or {})}
        if a.sort == 'f':
            w = evalt.refute_eq(pc, a, b, self.rnd, pools=p)
        else:
            w = evalt.refute(pc, ieq(a, b), self.rnd, pools=p)
        if os.environ.get('IIR_DEBUG') and not w:
            dbg(name, pc, a, b)
        return self.add(name, 'refuted' if w else 'undecided', 'evaluation' if w else 'none', time.time() - t, w)

    def holds(self, name, pc, goal, pools=None, **kw):
        t = time.time()
        if goal is TRUE or goal in pc:
            return self.add(name, 'proved', 'syntactic')
        try:
            if tm.mode() == 'F':
                r = smt.check(list(pc) + [nt(goal)], 10000) == 'unsat'
            elif goal is FALSE:
                r = smt.entails(pc, FALSE) or alg.prove_cmp(pc, FALSE, timeout=4000)
            else:
                r = alg.prove(pc, goal, **kw)
        except (alg.Undecided, Unsupported) as e:
            r = False
        if r:
            return self.add(name, 'proved', 'z3', time.time() - t)
        if smt.entails(pc, FALSE) or tm.mode() == 'R' and self.by_cases(pc, goal, **kw):
            return self.add(name, 'proved', 'z3', time.time() - t)
        self.hints(*pc, goal)
        w = evalt.refute(pc, goal, self.rnd, pools={**self.pools, **(pools or {})})
        if os.environ.get('IIR_DEBUG') and not w:
            dbg(name, pc, goal)
        return self.add(name, 'refuted' if w else 'undecided', 'evaluation' if w else 'none', time.time() - t, w)

    def by_cases(self, pc, goal, **kw):
        """resolve the values read from memory which depend on integer conditions, one case at a time"""
        if not any(tm.atoms_of(c, lambda x: x.op == 'ite') for c in list(pc) + [goal]):
            return False
        try:
            for p, (g,) in alg.split_ites(tuple(pc), [goal], every=True):
                if not (g in p or smt.entails(p, g) or (alg.prove_cmp(p, FALSE, timeout=4000) if g is FALSE else alg.prove(p, g, **kw))):
                    return False
        except (alg.Undecided, Unsupported):
            return False
        return True

    def same(self, name, pc, a, b):
        """two values (terms, pointers, ...) are equal"""
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == 'b':
                return self.ok(name, a is b or smt.entails(pc, orr(an(a, b), an(nt(a), nt(b)))))
            return self.eq(name, pc, a, b)
        return self.ok(name, a is b or a == b, detail='%r / %r' % (a, b) if a != b else None)

    def feasible(self, name, pc):
        """vacuity guard: the assumptions are satisfiable"""
        f = smt.feasible(pc)
        self.vacuity.append((name, f))
        if not f:
            self.add('not vacuous: ' + name, 'undecided', 'z3')
        return f

    # ------------------------------------------------------ groups
    ERR = (Unsupported, alg.Undecided, KeyError, ir.BuildError, RecursionError, AssertionError, IndexError, AttributeError,
           TypeError, ValueError, NotImplementedError)

    def attempt(self, f):
        left = self.budget - (time.time() - self.t0)
        if left < 1:
            return 'the time budget of %d s is used up' % self.budget
        if self.failures() > 40:
            return 'not attempted after 40 failed obligations'

        def stop(*a):
            raise OutOfTime()
        try:
            signal.signal(signal.SIGALRM, stop)
            signal.setitimer(signal.ITIMER_REAL, left, 5)
            self.inside = True
            f()
            return None
        except OutOfTime:
            return 'the time budget of %d s is used up' % self.budget
        except Exception as e:
            if os.environ.get('IIR_DEBUG'):
                traceback.print_exc()
            return '%s: %s' % (type(e).__name__, e)
        finally:
            self.inside = False
            signal.setitimer(signal.ITIMER_REAL, 0)

    def failures(self):
        a, b = self.pending
        return sum(r['status'] in ('refuted', 'undecided') for i, r in enumerate(self.rows) if not a <= i < b)

    def group(self, name, main, fallback=None, bound=None, exact=True, retry=None):
        """main() generates obligations. If the verifier cannot handle the code (or, with exact=False, if an
        obligation fails whose assumptions are weaker than what the code relies on) the bounded
        stand-in is used and labelled so."""
        self.cur = name
        n0 = len(self.rows)
        err = self.attempt(main)
        rows = self.rows[n0:]
        if not rows and err is None:
            err = 'no obligation was generated'
        if not exact:
            for r in rows:
                if r['status'] == 'refuted':
                    r['status'] = 'undecided'
        if retry is not None and (err or any(r['status'] == 'undecided' for r in rows)):
            # a proof with a stronger invariant; if it succeeds it takes the place of the first attempt
            n1 = len(self.rows)
            self.pending = n0, n1
            e2 = self.attempt(retry)
            self.pending = 0, 0
            r2 = self.rows[n1:]
            if r2 and not e2 and all(r['status'] == 'proved' for r in r2):
                self.rows[n0:] = r2
                self.cur = None
                return
            self.rows[n1:] = []
            if e2:
                err = '%s; %s' % (err, e2) if err else None
        bad = [r for r in rows if r['status'] == 'undecided']
        ref = [r for r in rows if r['status'] == 'refuted']
        if err:
            self.add('generation of the obligations', 'undecided', 'none', 0, err)
        if bad or ref or err:
            self.native()
        if (bad or err) and not ref and fallback is not None:
            n1 = len(self.rows)
            self.cur = name + ' (bounded stand-in: %s)' % bound
            self.mode_bounded = True
            self.pending = n0, n1   # the failures which the stand-in may replace do not use up its allowance
            err = self.attempt(fallback)
            self.pending = 0, 0
            self.mode_bounded = False
            rows2 = self.rows[n1:]
            if err:
                self.add('generation of the bounded obligations', 'undecided', 'none', 0, err)
            elif rows2 and all(r['status'] == 'bounded' for r in rows2):
                self.bounds.append(self.cur)
                for r in self.rows[n0:n1]:
                    if r['status'] == 'undecided':
                        r['status'] = 'replaced'
        self.cur = None

    def hints(self, *ts):
        """numbers occurring in a failed obligation, tried as inputs by the native replay"""
        seen = set()
        todo = list(ts)
        while todo and len(self.consts) < 60:
            t = todo.pop()
            if not isinstance(t, T) or t.id in seen:
                continue
            seen.add(t.id)
            if t.op == 'fc':
                try:
                    self.consts[repr(float(fval(t)))] = 1
                except Exception:
                    pass
            todo += tm.children(t)

    def native(self):
        """replay on the real code, once; a failing input ends the check"""
        import native
        if self.nat is None:
            self.nat = native.run(self.pid, self.tier, self.seed, work_dir(), list(self.consts))
            if self.nat['failed']:
                raise Violated()

    def use(self, ex):
        """record what an executor relied on"""
        self.inlined |= ex.inlined
        self.externals |= ex.externals

    # ------------------------------------------------------ end
    def finish(self):
        import native
        st = [r['status'] for r in self.rows]
        ref = [r for r in self.rows if r['status'] == 'refuted']
        und = [r for r in self.rows if r['status'] == 'undecided']
        rep = [r for r in self.rows if r['status'] == 'replaced']
        done = [r for r in self.rows if r['status'] == 'proved']
        bnd = [r for r in self.rows if r['status'] == 'bounded']
        viol = None
        if self.nat is None and (ref or und or rep or self.thorough or not self.rows):
            self.nat = native.run(self.pid, self.tier, self.seed, work_dir(), list(self.consts))
        nat = self.nat
        if nat and nat['failed']:
            viol = 'native'
        elif ref:
            viol = 'refuted'
        elif und or not self.rows:
            viol = 'undischarged'
        path = None
        if viol:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.pid + '.txt')
            with open(path, 'w') as f:
                f.write('property %s\n\n' % self.pid)
                if nat and nat['failed']:
                    f.write('failing input on the real code (replay: %s)\n%s\n\n' % (nat.get('cmd', ''), nat['output']))
                for r in ref + und + rep:
                    f.write('obligation not discharged: [%s] %s\n  status %s\n  %s\n' % (r['group'], r['name'], r['status'],
                            json.dumps(r['detail'], default=str, indent=1) if isinstance(r['detail'], dict) else r['detail']))
        level = 'proof' if done and not (und or rep or ref) and len(done) > 0 else 'other'
        cov = {
            'obligations': len(self.rows), 'discharged': len(done),
            'checker_cmd': 'python3-vt /verif/vc/check.py %s --tier %s' % (self.pid, self.tier),
            'trusted_base': TRUSTED,
            'back_ends': count(r['backend'] for r in done + bnd),
            'solver_time_s': round(smt.stats['time'] + alg.stats.get('eq_time', 0) + alg.stats.get('ineq_time', 0), 3),
            'obligation_time_s': round(sum(r['time'] for r in self.rows), 3),
            'functions_under_contract': self.contracts,
            'functions_executed_from_ir': sorted(x for x in self.inlined if 'Iir' in x),
            'external_functions_with_assumed_contracts': sorted(self.externals),
            'bounded_not_proved': len(bnd), 'bounds': self.bounds,
            'undecided': len(und), 'replaced_by_bounded_stand_in': len(rep), 'refuted': len(ref),
            'vacuity_guards': [{'assumptions': n, 'satisfiable': f} for n, f in self.vacuity][:60],
            'samples': [r for r in self.rows[:3]] + [r for r in (ref + und + rep)[:10]],
            'groups': count(r['group'] for r in self.rows),
            'explanation': 'deductive verification of the LLVM IR of /repo as compiled on this run',
        }
        if nat:
            cov['native_replay'] = {k: nat[k] for k in nat if k != 'output'}
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions + ASSUME, 'wall_s': round(time.time() - self.t0, 2), 'violations': 1 if viol else 0}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d proved, %d bounded, %d undecided, %d replaced, %d refuted, %.1f s' %
              (self.pid, len(self.rows), len(done), len(bnd), len(und), len(rep), len(ref), time.time() - self.t0))
        for r in (ref + und + rep)[:12]:
            print('  not discharged (%s): [%s] %s%s' % (r['status'], r['group'], r['name'], ' -- ' + str(r['detail'])[:300] if r['detail'] else ''))
        if viol:
            print('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if viol == 'native' else ' no-failing-input-found'))
            return 1
        if rep:
            print('%s: obligations replaced by bounded stand-ins: %d; neither they nor the native replay found a violation' % (self.pid, len(rep)))
        return 0


def count(xs):
    d = {}
    for x in xs:
        d[str(x)] = d.get(str(x), 0) + 1
    return d


TRUSTED = ['clang 18 front end, sroa/mem2reg/simplifycfg (C++ to LLVM IR)', '/verif/vc/ir.py, sym.py, loops.py (IR reader, symbolic execution, loop induction)',
           '/verif/vc/alg.py (normaliser of real terms)', 'z3 4.x', 'assumed contracts of libm and libstdc++ functions listed under external_functions_with_assumed_contracts']
ASSUME = ['machine arithmetic: floating point is treated as real arithmetic where a property says "in real arithmetic" or "up to rounding"; integer arithmetic is mathematical, overflow is a separate obligation (C12)',
          'the verified text is the LLVM IR which clang 18 -O0 generates from /repo on every run; the shipped library is built by another compiler',
          'pointers to distinct objects of a harness do not alias, except where a property is about copies']
