"""Discharging obligations: SMT-LIB files to a portfolio of solvers, in parallel, as subprocesses with time and memory limits."""
import os
import re
import resource
import shutil
import subprocess
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from .z3env import z3

SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix='vf_')
        import atexit
        atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))
    return SCRATCH


class Obl(object):
    """One proof obligation: hyps |- goal."""

    def __init__(self, name, hyps, goal, kind='vc', line=None, func=None, smt=None):
        self.name, self.hyps, self.goal, self.kind, self.line, self.func = name, list(hyps), goal, kind, line, func
        self.status = None      # proved / failed / unknown
        self.backend = None
        self.time = 0.0
        self.model = ''
        self.smt = smt

    def smt2(self):
        if self.smt is not None:
            return self.smt
        s = z3.Solver()
        for h in self.hyps:
            s.add(h)
        s.add(z3.Not(self.goal))
        txt = s.to_smt2()
        return '(set-logic ALL)\n' + txt.replace('(set-info :status unknown)', '')


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _run(cmd, timeout):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 5, preexec_fn=_limits)
        out = p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        out = 'timeout'
    return out, time.time() - t


def _verdict(out):
    for l in out.splitlines():
        l = l.strip()
        if l in ('sat', 'unsat', 'unknown', 'timeout'):
            return l
        if l.startswith('(error') or 'rror' in l:
            return 'error'
    return 'unknown'


STAGES = [
    ('z3-5.3.2', lambda f, t: ['z3-new', '-T:%d' % t, f], 2),
    ('cvc5-1.1.2', lambda f, t: ['cvc5', '--tlimit=%d' % (t * 1000), f], 6),
    ('z3-5.3.2/nombqi', lambda f, t: ['z3-new', '-T:%d' % t, 'smt.mbqi=false', 'smt.relevancy=0', f], 6),
    ('z3-4.8.12', lambda f, t: ['z3', '-T:%d' % t, f], 10),
    ('cvc5-1.1.2/full-sat', lambda f, t: ['cvc5', '--tlimit=%d' % (t * 1000), '--full-saturate-quant', f], 10),
    ('z3-5.3.2/long', lambda f, t: ['z3-new', '-T:%d' % t, 'smt.arith.solver=2', f], 20),
]

_cnt = [0]
_lock = threading.Lock()


def solve_one(o, budget=1.0, stages=None):
    if o.status is not None:
        return o
    g = z3.simplify(o.goal) if o.smt is None else None
    if g is not None and z3.is_true(g):
        o.status, o.backend = 'proved', 'simplifier'
        return o
    return o


_nfail = [0]
MAXFAIL = 16


def _solve_file(o, path, budget, stages, deadline=None):
    last = ''
    for k, (name, mk, t) in enumerate(stages or STAGES):
        if stages is None and k >= 1 and _nfail[0] >= MAXFAIL:
            last = 'not attempted further: %d other obligations already failed; %s' % (_nfail[0], last)
            break
        if deadline is not None and time.time() > deadline:
            last = 'time limit of the check; ' + last
            break
        out, dt = _run(mk(path, max(1, int(t * budget))), t * budget)
        o.time += dt
        v = _verdict(out)
        if v == 'unsat':
            o.status, o.backend = 'proved', name
            return
        last = '%s: %s' % (name, out.strip()[:300])
        if v == 'sat':
            o.status, o.backend = 'refuted', name
            o.model = last
            _nfail[0] += stages is None
            return
    o.status, o.backend, o.model = 'unknown', None, last
    _nfail[0] += stages is None


def solve_all(obls, budget=1.0, jobs=8, stages=None, limit=400):
    """Decide all obligations; identical ones are decided once."""
    todo = []
    seen = {}
    deadline = time.time() + limit
    _nfail[0] = 0
    for o in obls:
        solve_one(o)
        if o.status is not None:
            continue
        txt = o.smt2()
        if txt in seen:
            seen[txt].append(o)
            continue
        seen[txt] = []
        with _lock:
            _cnt[0] += 1
            path = os.path.join(scratch(), 'o%d.smt2' % _cnt[0])
        with open(path, 'w') as f:
            f.write(txt)
        o._path, o._txt = path, txt
        todo.append(o)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda o: _solve_file(o, o._path, budget, stages, deadline), todo))
    again = [o for o in todo if o.status == 'unknown']
    if stages is None and 0 < len(again) <= 6 and not any(o.status == 'refuted' for o in todo):
        # a slow machine must not look like a failed proof: the few undecided ones once more, with more time
        _nfail[0] = 0
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda o: _solve_file(o, o._path, budget * 2.5, stages, deadline), again))
    for o in todo:
        for d in seen[o._txt]:
            d.status, d.backend, d.model, d.time = o.status, o.backend, o.model, 0.0
        del o._txt
    return obls
