"""Runs the verification of one property: builds interpreters, explores every path, collects obligations."""
import time, traceback, sys, os
import multiprocessing.connection
import z3
from . import smt, libs
from .values import *
from .interp import Interp, Obligation, DeadPath
from .spec import match, split, eq_obl, tensor_obl


class Run:
    def __init__(self, prop, verbose=False):
        self.prop, self.verbose = prop, verbose
        self.obligations = []      # (case, Obligation)
        self.functions = {}
        self.assumptions = []
        self.contracts_used = {}
        self.cases = []
        self.t0 = time.time()
        self.loops = self.paths = 0

    def assume_note(self, *ts):
        for t in ts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def fail(self, case, name, detail):
        self.obligations.append((case, Obligation(name, False, 'undischarged', '', detail)))

    def case(self, name, body, setup=(), canary=True, modpaths=None):
        """body(I) is run on every feasible path; it records obligations through I.oblige"""
        t = time.time()
        I = Interp()
        libs.standard(I)
        for s in setup:
            s(I)
        n0 = 0
        err = None
        try:
            paths = I.explore(lambda: body(I))
            if not paths:
                self.fail(name, 'some path is feasible', 'vacuous: no feasible path')
            for p in paths:
                if p.kind == 'raise':
                    I.obligations.append(Obligation('no exception escapes', False, 'raise', str(p.value.where),
                                                    '%s under %s' % (p.value, [str(g)[:80] for g in p.guards][:6])))
                elif p.kind not in ('ok', 'return'):
                    I.obligations.append(Obligation('path completes', False, p.kind, '', ''))
        except Unsupported as u:
            err = 'Unsupported: %s' % u
            if self.verbose:
                traceback.print_exc()
            where = I.where()
            self.fail(name, 'code within the verified subset', '%s (at %s)' % (u, where))
        except DeadPath:
            self.fail(name, 'some path is feasible', 'dead')
        except RecursionError:
            self.fail(name, 'code within the verified subset', 'recursion')
        except Exception as e:       # a crash of the verifier never counts as a proof
            if self.verbose:
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.fail(name, 'code within the verified subset', 'verifier: %s: %s at %s:%s' % (type(e).__name__, e, tb.filename, tb.lineno))
        seen = set()
        for o in I.obligations:
            k = (o.name, o.ok, o.detail, o.where)
            if k in seen:
                continue
            seen.add(k)
            self.obligations.append((name, o))
            n0 += 1
        for k, v in I.functions.items():
            self.functions[k] = self.functions.get(k, 0) + v
        for k in getattr(I, 'contract_calls', {}):
            self.contracts_used[k] = self.contracts_used.get(k, 0) + I.contract_calls[k]
        self.loops += I.loops
        self.paths += I.paths
        self.cases.append({'case': name, 'obligations': n0, 'paths': I.paths, 's': round(time.time() - t, 2)})
        if self.verbose:
            print('[%s] %d obligations, %d paths, %.1fs %s' % (name, n0, I.paths, time.time() - t, err or ''))
            for o in I.obligations:
                if not o.ok:
                    print('   FAIL', o.name, o.status, o.where, o.detail[:300])
            if not n0 and not err:
                print('   (no obligations)')
        if not n0 and err is None:
            self.fail(name, 'obligations generated', 'vacuous case')
        return I

    def failed(self):
        return [(c, o) for c, o in self.obligations if not o.ok]

    def report(self):
        by = {}
        for c, o in self.obligations:
            if o.ok:
                by[o.by] = by.get(o.by, 0) + 1
        return {
            'obligations': len(self.obligations),
            'discharged': sum(o.ok for _, o in self.obligations),
            'by_backend': by,
            'functions_under_contract': sorted(self.functions),
            'assumed_contracts': sorted(self.contracts_used),
            'paths': self.paths, 'loops_summarised': self.loops,
            'solver_queries': smt.STATS.queries, 'solver_s': round(smt.STATS.time, 2),
            'solver_calls_by': dict(smt.STATS.by),
            'cases': self.cases,
        }


def expect_raise(I, name, thunk, excs, msg=None):
    """obligation: thunk raises one of the exception classes on every path"""
    try:
        v = thunk()
    except PyRaise as r:
        cls = r.exc.cls
        ok = any(cls.issub(I.exc_classes[e]) for e in excs)
        I.oblige(name, ok, 'raised %s at %s' % (cls.name, r.where))
        return r
    I.oblige(name, False, 'returned %r' % (v,))


def expect_ok(I, name, thunk):
    try:
        v = thunk()
    except PyRaise as r:
        I.oblige(name, False, str(r))
        raise DeadPath()
    I.oblige(name, True)
    return v


# ---------------------------------------------------------------- parallel execution
class Case:
    """one verification case: body(I) executes contracts on the real code; bounded: not counted as proved"""

    def __init__(self, name, body, setup=(), bounded=None, tier='quick', prop=None):
        self.name, self.body, self.setup, self.bounded, self.tier, self.prop = name, body, tuple(setup), bounded, tier, prop


def plain(o):
    return {'name': str(o.name), 'ok': bool(o.ok), 'by': str(o.by), 'status': str(o.status), 'where': str(o.where),
            'detail': str(o.detail)[:2000], 'model': model_str(getattr(o, 'model', None))}


def model_str(m):
    if m is None:
        return None
    try:
        return {str(d.name()): str(m[d])[:200] for d in m.decls() if d.arity() == 0}
    except Exception:
        return str(m)[:2000]


def worker(prop, case):
    R = Run(prop)
    R.case(case.name, case.body, setup=case.setup)
    rep = R.report()
    rep['list'] = [plain(o) for _, o in R.obligations]
    rep['assumptions'] = R.assumptions
    rep['lemmas'] = sorted(smt.LEMMAS_USED)
    return rep


def run_cases(prop, cases, jobs=8, timeout=420, mem_gb=6, verbose=False, total=840):
    """every case in its own forked process; a case that dies or runs out of time is a failed obligation"""
    import multiprocessing as mp, resource
    ctx = mp.get_context('fork')
    res = [None] * len(cases)
    pending = list(range(len(cases)))
    live = {}
    t00 = time.time()

    def go(i, conn):
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        sys.setrecursionlimit(20000)
        try:
            r = worker(prop, cases[i])
        except BaseException as e:
            r = {'died': '%s: %s' % (type(e).__name__, e)}
        conn.send(r)
        conn.close()
        os._exit(0)

    while pending or live:
        while pending and len(live) < jobs:
            i = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=go, args=(i, b))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        mp.connection.wait([c for _, c, _ in live.values()], timeout=1)
        for i, (p, c, t0) in list(live.items()):
            done = None
            if c.poll():
                try:
                    done = c.recv()
                except (EOFError, OSError):
                    done = {'died': 'worker ended without a result'}
            elif time.time() - t0 > timeout or time.time() - t00 > total:
                done = {'died': 'time limit of %ds' % timeout}
            elif not p.is_alive() and not c.poll():
                done = {'died': 'worker ended with %s' % p.exitcode}
            if done is not None:
                if p.is_alive():
                    p.join(0.5)
                    if p.is_alive():
                        p.kill()
                p.join()
                c.close()
                del live[i]
                res[i] = done
                if verbose:
                    print('[%s] %s %.1fs' % (cases[i].name, 'died: ' + done['died'] if 'died' in done else
                          '%d/%d' % (sum(o['ok'] for o in done['list']), len(done['list'])), time.time() - t0), flush=True)
                    for o in done.get('list', []):
                        if not o['ok']:
                            print('    FAIL', o['name'], '|', o['status'], '|', o['where'], '|', o['detail'][:300], flush=True)
    return res


def merge(prop, cases, res):
    tot = {'obligations': 0, 'discharged': 0, 'by_backend': {}, 'functions_under_contract': {}, 'assumed_contracts': {}, 'paths': 0,
           'loops_summarised': 0, 'solver_queries': 0, 'solver_s': 0.0, 'solver_calls_by': {}, 'cases': [], 'assumptions': [],
           'bounded_obligations': 0, 'bounded_cases': []}
    failed = []
    names = []
    for c, r in zip(cases, res):
        if 'died' in r:
            r = {'list': [{'name': 'case completes', 'ok': False, 'by': '', 'status': 'died', 'where': '', 'detail': r['died'], 'model': None}]}
        l = r['list']
        if c.bounded:
            tot['bounded_obligations'] += len(l)
            tot['bounded_cases'].append({'case': c.name, 'bound': c.bounded, 'obligations': len(l)})
        else:
            tot['obligations'] += len(l)
            tot['discharged'] += sum(o['ok'] for o in l)
        for o in l:
            if not o['ok']:
                failed.append(dict(o, case=c.name))
            else:
                tot['by_backend'][o['by']] = tot['by_backend'].get(o['by'], 0) + 1
            names.append('%s: %s' % (c.name, o['name']))
        for k in ('paths', 'loops_summarised', 'solver_queries', 'solver_s'):
            tot[k] += r.get(k, 0)
        for k, v in r.get('solver_calls_by', {}).items():
            tot['solver_calls_by'][k] = tot['solver_calls_by'].get(k, 0) + v
        for k in r.get('functions_under_contract', []):
            tot['functions_under_contract'][k] = tot['functions_under_contract'].get(k, 0) + 1
        for k in r.get('assumed_contracts', []):
            tot['assumed_contracts'][k] = tot['assumed_contracts'].get(k, 0) + 1
        for a in r.get('assumptions', []):
            if a not in tot['assumptions']:
                tot['assumptions'].append(a)
        tot['cases'] += r.get('cases', [])
    tot['solver_s'] = round(tot['solver_s'], 2)
    tot['functions_under_contract'] = sorted(tot['functions_under_contract'])
    tot['assumed_contracts'] = sorted(tot['assumed_contracts'])
    return tot, failed, names
