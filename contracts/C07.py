"""C07: selection of the rows of an event range."""
from contracts.common import *

EV = dict(event_number='int', **{'*': 'int'})
p, q, k = z3.Ints('p q k')


def select(start, stop, sort):
    name = 'get_data_in_event_range[%s, %s, %s]' % ('start' if start else 'None', 'stop' if stop else 'None', 'sorted' if sort else 'unsorted')
    K = fun('rank', I, I)                       # number of rows of the range before a row
    A, Z = z3.Ints('first_in_range first_after_range')

    def ev(c):
        return c.arr0('array', 'event_number')

    def inr(c, t):
        return And_(*([c.old('event_start') <= ev(c)[t]] if start else []), *([ev(c)[t] < c.old('event_stop')] if stop else []))

    def facts(c):
        e = ev(c)
        out = [K(0) == 0, forall([k], Imp(And_(0 <= k, k < e.n), K(k + 1) == K(k) + If_(inr(c, k), 1, 0)), [K(k)])]
        if sort:        # definition of the two row numbers; they exist because the rows are sorted
            for B, on, v in ((A, start, c.old('event_start')), (Z, stop, c.old('event_stop'))):
                if on:
                    out += [And_(0 <= B, B <= e.n), forall([k], Imp(And_(0 <= k, k < B), e[k] < v), [e[k]]), forall([k], Imp(And_(B <= k, k < e.n), e[k] >= v), [e[k]])]
                else:
                    out.append(B == (0 if B is A else e.n))
        return out

    def lemmas(c):
        if not sort and (start or stop):
            e = ev(c)
            ms = z3.Const('ms', z3.ArraySort(I, B))
            return [by_induction('a mask of the range has the rank as count', lambda t: forall([ms], Imp(forall([p], Imp(And_(0 <= p, p < t), ms[p] == inr(c, p))), nset(ms, t) == K(t)), [nset(ms, t)]),
                                 z3.IntVal(0), e.n)] 
        if not start and not stop:
            return [by_induction('all rows are in the range', lambda t: K(t) == t, z3.IntVal(0), ev(c).n, pats=lambda t: [K(t)])]
        return [by_induction('rank in a sorted table', lambda t: K(t) == If_(Or_(t <= A, Z <= A), 0, If_(t <= Z, t - A, Z - A)), z3.IntVal(0), ev(c).n, pats=lambda t: [K(t)])]

    def ens(c):
        e, n = ev(c), ev(c).n
        out = [('number of rows', c.arr(c.result, 'event_number').n == K(n))]
        for f in ('event_number', '*'):
            s, r = c.arr0('array', f), c.arr(c.result, f)
            out.append(('%s of every row of the range, in order' % f, forall([p], Imp(And_(0 <= p, p < n, inr(c, p)), And_(K(p) < r.n, r[K(p)] == s[p])))))
        return out
    none = T('const', v=None)
    ps = dict(array=Arr(EV, 1), event_start=Int() if start else none, event_stop=Int() if stop else none, assume_sorted=T('const', v=sort))
    return Contract(name, ('py', AU, 'get_data_in_event_range'), ps, requires=lambda c: [('sorted by event', is_sorted(ev(c), ev(c).n))] if sort else [], ensures=ens, facts=lambda c: facts(c) + ([] if sort else nset_facts()),
                    lemmas=lemmas, nloops=0)


def CONTRACTS():
    return [select(a, b, s) for a in (True, False) for b in (True, False) for s in (True, False)]


TRUSTED = ['numpy: any / argmin / argmax / boolean-mask and slice indexing as modelled', 'numexpr evaluates the expression string like numpy']
ASSUME = ['rows sorted by event number when assume_sorted is set']
BUDGET = 14


def oracle(o):
    import itertools
    np = o.np
    au = o.mod('tools.analysis_utils')
    dt = [('event_number', 'i8'), ('frame', 'u1'), ('x', 'f4')]

    def one(evs, a, b, sort, dtype=dt):
        arr = np.zeros(len(evs), dtype)
        arr['event_number'] = evs
        arr['frame'] = np.arange(len(evs)) % 251
        arr['x'] = np.arange(len(evs)) * 1.5
        a0 = arr.copy()
        o.count('get_data_in_event_range', nontrivial=len(evs) > 0, sample=(list(evs), a, b, sort))
        call = 'get_data_in_event_range(events %s, %s, %s, assume_sorted=%s)' % (list(evs), a, b, sort)
        data = dict(events=list(evs), start=a, stop=b, assume_sorted=sort)
        try:
            r = au.get_data_in_event_range(arr, a, b, sort)
        except Exception as ex:
            o.fail('exception', '%s raises %s: %s' % (call, type(ex).__name__, ex), data)
        keep = [k for k, e in enumerate(evs) if (a is None or e >= a) and (b is None or e < b)]
        o.check(r.dtype == arr.dtype and r.shape[0] == len(keep) and (r == arr[keep]).all(), 'rows',
                '%s gives the rows %s, expected %s' % (call, (r['frame'].tolist() if r.dtype.names else r.tolist()), keep), data)
        o.check((arr == a0).all(), 'input changed', call + ' changes its input', data)
    bounds = [None] + list(range(-1, 5))
    for n in range(0, 5):
        for e in itertools.product(range(0, 4), repeat=n):
            srt = list(e) == sorted(e)
            for a in bounds:
                for b in bounds:
                    if srt:
                        one(e, a, b, True)
                    if n < 4 or (a, b) != (None, None) and o.rng.random() < 0.1:
                        one(e, a, b, False)
    while o.more():
        n, hi = int(o.rng.integers(0, 40)), int(o.rng.choice([3, 30, 2 ** 33]))
        off = int(o.rng.choice([0, 0, 2 ** 31 - 2, 2 ** 40]))
        e = o.rng.integers(0, hi, n) + off
        a, b = [None if o.rng.random() < 0.2 else int(o.rng.integers(-1, hi + 2)) + off for _ in range(2)]
        srt = bool(o.rng.random() < 0.5)
        one(np.sort(e).tolist() if srt else e.tolist(), a, b, srt)


ORACLE = [('get_data_in_event_range', oracle)]
