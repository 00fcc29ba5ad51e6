"""Runner: one property check.  python -m vf.run C02 [--tier quick]"""
import argparse
import importlib
import json
import logging
import os
import random
import sys
import time
import traceback
import warnings

from .z3env import z3
from . import ir, cxx, vcgen, solve, real
from .ir import Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VF_EVIDENCE', os.path.join(VERIF, 'evidence'))


class Failure(Exception):
    def __init__(self, key, what, data=None, code=None):
        Exception.__init__(self, what)
        self.key, self.what, self.data, self.code = key, what, data, code


class Oracle(object):
    """Bounded run-time evaluation of the contracts on the real code: replay search, and stand-in for plumbing out of reach."""

    def __init__(self, tier, seed, budget, build=False):
        import numpy as np
        self.np = np
        self.tier, self.seed = tier, seed
        self.rng = np.random.default_rng(seed)
        self.deadline = time.time() + budget
        self.build = build
        self.evals = 0
        self.nontrivial = 0
        self.fails = []
        self.parts = {}
        self.samples = []
        self.scratch = real.scratch_dir()
        self.part = None

    def mod(self, name):
        return real.mod(name, self.build)

    def time_left(self):
        return self.deadline - time.time()

    def more(self):
        return time.time() < self.deadline

    def count(self, part, nontrivial=True, sample=None):
        self.evals += 1
        self.parts[part] = self.parts.get(part, 0) + 1
        if nontrivial:
            self.nontrivial += 1
        if sample is not None and len(self.samples) < 3:
            self.samples.append(str(sample)[:300])

    def fail(self, key, what, data=None):
        """one failing input; stops this part"""
        raise Failure(key, what, data)

    def check(self, cond, key, what, data=None):
        if not cond:
            raise Failure(key, what, data)


def lower(source):
    kind = source[0]
    if kind == 'py':
        return ir.lower_python(real.text(source[1]), source[2], source[1])
    if kind == 'cxx':
        return cxx.lower_cxx(real.path(source[1]), source[2])
    if kind == 'pyx':
        return ir.lower_pyx(real.text(source[1]), source[2], source[1])
    raise ValueError(kind)


def helper_src_for(source):
    if source[0] == 'py':
        txt = real.text(source[1])
        return lambda name: ir.lower_python(txt, name.lstrip('.').split('.')[-1], source[1])
    if source[0] == 'cxx':
        return lambda name: cxx.lower_cxx(real.path(source[1]), name)
    return None


def baseline_roles(contract):
    return contract.roles


def run_vc(mod, report):
    contracts = mod.CONTRACTS() if callable(getattr(mod, 'CONTRACTS', [])) else getattr(mod, 'CONTRACTS', [])
    lib = {}
    for c in contracts:
        for n in [c.name] + list(getattr(c, 'aliases', ())):
            lib[n] = c
    obls, covers = [], []
    fns = {}
    for c in contracts:
        try:
            fns[c.name] = lower(c.source)
            c.fnparams, c.fndefaults = fns[c.name].params, fns[c.name].defaults
        except Unsupported as ex:
            fns[c.name] = ex
    for c in contracts:
        entry = dict(function='%s:%s' % (c.source[1], c.source[2]), engine='vcgen', contract=c.name)
        try:
            fn = fns[c.name]
            if isinstance(fn, Exception):
                raise fn
            rm, names = vcgen.unrole(fn, c.roles)
            entry['renamed'] = rm or None
            g = vcgen.Gen(c, fn, {k: v for k, v in lib.items() if v is not c or getattr(c, 'recursive', False)}, rm)
            g.helper_src = helper_src_for(c.source)
            os_ = g.verify()
            for o in os_:
                o.contract = c.name
                o.heuristic = bool(rm)
            if not os_:
                raise Unsupported('no obligations')
            obls += os_
            covers += [(c.name, l, p) for l, p in g.cover]
            entry['obligations'] = len(os_)
            entry['calls'] = sorted(g.calls_used)
        except Unsupported as ex:
            entry['limit'] = str(ex)
            report['limits'].append('%s: %s' % (c.name, ex))
        report['functions'].append(entry)
    return obls, covers


_SYM = []


def _sym_entry(i):
    """one E1 contract in a worker process: obligations as SMT-LIB text"""
    from . import symx
    name, target, f = _SYM[i]
    symx.COVERS[:] = []
    try:
        os_ = f()
        if not os_:
            raise Unsupported('no obligations')
        out = []
        for o in os_:
            out.append((o.name, o.kind, o.func, o.line, o.status, o.backend, o.smt2() if o.status is None else ''))
        cov = []
        for n, l, p in symx.COVERS:
            cov.append((n, l, solve.Obl('cover', p, z3.BoolVal(False)).smt2()))
        return i, out, cov, None
    except Unsupported as ex:
        return i, [], [], str(ex)
    except Exception as ex:
        return i, [], [], 'engine: %s' % traceback.format_exc()[-600:]


SYM_LIMIT = dict(quick=270, thorough=5000)     # seconds; what is not executed by then is a reported limit


def run_sym(mod, report):
    """E1 obligations: mod.SYM is a list of (name, target, callable -> list of Obl); the symbolic executions run in parallel"""
    import multiprocessing
    obls, covers = [], []
    _SYM[:] = getattr(mod, 'SYM', [])
    if not _SYM:
        return obls, covers
    end = time.time() + SYM_LIMIT[os.environ.get('VERIF_TIER_NOW', 'quick')]
    with multiprocessing.get_context('fork').Pool(min(8, len(_SYM)), maxtasksperchild=4) as pool:
        jobs = [pool.apply_async(_sym_entry, (i,)) for i in range(len(_SYM))]
        res = []
        for i, j in enumerate(jobs):
            try:
                res.append(j.get(max(0.05, end - time.time())))
            except multiprocessing.TimeoutError:
                res.append((i, [], [], 'symbolic execution stopped at the time limit'))
        pool.terminate()
    for i, out, cov, err in res:
        name, target, f = _SYM[i]
        entry = dict(function=target, engine='symexec', contract=name)
        if err is not None:
            entry['limit'] = err
            report['limits'].append('%s: %s' % (name, err))
        for nm, kind, func, line, status, backend, smt in out:
            o = solve.Obl(nm, [], z3.BoolVal(False), kind=kind, line=line, func=func, smt=smt)
            o.status, o.backend, o.contract, o.heuristic = status, backend, name, False
            obls.append(o)
        entry['obligations'] = len(out)
        covers += cov
        report['functions'].append(entry)
    return obls, covers


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def jdef(o):
    try:
        import numpy as np
        if isinstance(o, np.ndarray):
            return dict(array=o.tolist(), dtype=str(o.dtype))
        if isinstance(o, np.generic):
            return o.item()
    except Exception:
        pass
    return str(o)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-oracle', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    os.environ['VERIF_TIER_NOW'] = tier
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    random.seed(a.seed)
    t0 = time.time()
    mod = importlib.import_module('contracts.' + a.prop)
    report = dict(functions=[], limits=[])
    errors = []
    obls, covers = [], []
    try:
        o1, covers = run_vc(mod, report)
        o2, c2 = run_sym(mod, report)
        obls = o1 + o2
        covers = covers + c2
    except (Exception, Unsupported) as ex:               # engine error: undecided, the bounded stand-in decides
        errors.append('engine error: %s' % traceback.format_exc()[-1500:])
        report['limits'].append('engine error: %r' % (ex,))
    t1 = time.time()
    # must-fail sanity goals: no precondition / path may be contradictory
    cov = []
    for n, l, p in covers:
        cov.append(solve.Obl('%s: reachable: %s' % (n, l), [] if isinstance(p, str) else p, z3.BoolVal(False), 'cover', smt=p if isinstance(p, str) else None))
        cov[-1].contract = n
    solve.solve_all(obls, budget=1.0 if tier == 'quick' else 3.0, limit=250 if tier == 'quick' else 2000)
    solve.solve_all(cov, budget=1.0, stages=[('z3-5.3.2', lambda f, t: ['z3-new', '-T:%d' % t, f], 2)])
    byl = {}
    for o in cov:
        byl.setdefault((o.contract, o.name), []).append(o.status == 'proved')
    vacuous = [k[1] for k, v in byl.items() if all(v)]
    solver_s = time.time() - t1
    proved = [o for o in obls if o.status == 'proved']
    failed = [o for o in obls if o.status != 'proved']
    if a.v:
        for o in obls:
            if o.status != 'proved' or a.v and o.time > 3:
                print('  [%s] %s (%s, %.1fs) %s' % (o.status, o.name, o.backend, o.time, o.model))
        for l in report['limits']:
            print('  limit:', l)
        for e in errors:
            print(e)
        for v in vacuous:
            print('  vacuous:', v)
    for v in vacuous:
        report['limits'].append('vacuous: ' + v)
    # ---- run-time contract search on the real code
    orc_fns = getattr(mod, 'ORACLE', [])
    budget = getattr(mod, 'BUDGET', 25) * (1 if tier == 'quick' else 8)
    fails = []
    if failed or report['limits']:
        budget = budget * 2
    orc = Oracle(tier, a.seed, 10 ** 9, getattr(mod, 'BUILD', False))
    if not a.no_oracle:
        for name, f in orc_fns:
            orc.part = name
            orc.deadline = time.time() + float(budget) / max(1, len(orc_fns))
            try:
                f(orc)
            except Failure as ex:
                fails.append(dict(part=name, key=ex.key, what=ex.what, data=ex.data))
            except (Exception, Unsupported) as ex:
                fails.append(dict(part=name, key='exception', what='%s: unexpected %s: %s' % (name, type(ex).__name__, ex),
                                  data=traceback.format_exc()[-2000:]))
    kf = [k for k in known() if k['property'] == a.prop and k.get('status') == 'open']
    out_known, out_viol = [], []
    for f in fails:
        m = [k for k in kf if k.get('key') == f['key']]
        if m:
            out_known.append((m[0], f))
        else:
            out_viol.append(f)
    kf_obl = {o for k in kf for o in k.get('obligations', [])}
    new_failed = [o for o in failed if o.name not in kf_obl]
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    violations = []
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(a.prop + '_'):
            os.remove(os.path.join(rdir, f))

    def fobl(o):
        return dict(obligation=o.name, contract=getattr(o, 'contract', None), line=o.line, kind=o.kind, status=o.status, solver=o.model, smt2=o.smt2()[:20000])
    if out_viol:
        for k, f in enumerate(out_viol[:5]):
            p = os.path.join(rdir, '%s_%d.json' % (a.prop, k))
            with open(p, 'w') as fh:
                json.dump(dict(property=a.prop, part=f['part'], what=f['what'], key=f['key'], input=f['data'], seed=a.seed, tier=tier,
                               replay='python: contracts/%s.py, oracle part "%s"; the input is given in "input"' % (a.prop, f['part']),
                               failed_obligations=[fobl(o) for o in new_failed[:5]]), fh, indent=1, default=jdef)
            violations.append(p)
            print('  %s' % f['what'][:400])
            print('VIOLATION property=%s replay=%s' % (a.prop, p))
    elif new_failed:
        hard = [o for o in new_failed if not getattr(o, 'heuristic', False)]
        if hard:
            p = os.path.join(rdir, '%s_obligation.json' % a.prop)
            with open(p, 'w') as fh:
                json.dump(dict(property=a.prop, failed_obligations=[fobl(o) for o in hard[:8]], searched=orc.parts), fh, indent=1, default=jdef)
            violations.append(p)
            for o in hard[:4]:
                print('  obligation not discharged: %s (%s)' % (o.name, o.status))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (a.prop, p))
        else:
            report['limits'].append('locals renamed: obligations under the guessed matching not discharged')
    backends = {}
    for o in proved:
        backends[o.backend] = backends.get(o.backend, 0) + 1
    kinds = {}
    for o in proved:
        kinds[o.kind] = kinds.get(o.kind, 0) + 1
    level = getattr(mod, 'LEVEL', 'proof')
    cover = dict(
        obligations=len(obls), discharged=len(proved),
        checker_cmd='bash check.sh %s --tier %s  (solvers: z3-new, cvc5, z3 on SMT-LIB files; own polynomial normal-form prover)' % (a.prop, tier),
        trusted_base=list(getattr(mod, 'TRUSTED', [])) + BASE_TRUST,
        back_ends=backends, obligation_kinds=kinds, solver_seconds=round(solver_s, 2),
        functions_under_contract=report['functions'], frontend_limits=report['limits'],
        reachability_goals=len(cov), vacuous=vacuous,
        evaluations=orc.evals, distinct_nontrivial=orc.nontrivial,
        rule='bounded run-time evaluation of the same contracts on the real code (replay search and stand-in for file-level plumbing; '
             'not counted as proved): small-scope enumeration and seeded random inputs; non-trivial = the inputs exercise the guarded case',
        bounded_parts=orc.parts, samples=orc.samples,
        bounded_functions=list(getattr(mod, 'BOUNDED', [])), errors=errors)
    if level == 'other':
        cover['explanation'] = getattr(mod, 'EXPLANATION', '')
    ev = dict(property=a.prop, tier=tier, seed=a.seed, level=level, coverage=cover, assumptions=list(getattr(mod, 'ASSUME', [])) + BASE_ASSUME,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(EVID, a.prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=jdef)
    print('%s: %d obligations, %d discharged, %d limits, %d contract evaluations, %d violations, %.1f s'
          % (a.prop, len(obls), len(proved), len(report['limits']), orc.evals, len(violations), time.time() - t0))
    sys.stdout.flush()
    os._exit(1 if violations else 0)


BASE_TRUST = ['the lowering in vf/ir.py, vf/cxx.py (clang 18 JSON AST) and the condition generator vf/vcgen.py / symbolic executor vf/symx.py',
              'z3 5.3.2, z3 4.8.12, cvc5 1.1.2', 'numpy / numba / Cython / g++ implement the language constructs as modelled']
BASE_ASSUME = ['floating point is modelled as real numbers plus a not-a-number flag; rounding is not modelled',
               'Python / numba integers are mathematical unless a machine type is declared in the contract']

if __name__ == '__main__':
    main()
