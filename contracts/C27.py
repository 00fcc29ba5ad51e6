"""C27 Shuffling simulated hits permutes hits within their event only."""
from contracts.common import *

SD = 'beam_telescope_analysis/tools/simulate_data.py'
p, q, k = z3.Ints('p q k')


def shuffle():
    lo, hi = fun('lo', I, I), fun('hi', I, I)      # the rows of the event of row p

    def E(c):
        return c.arr0('event_number')

    def N(c):
        return E(c).n

    def req(c):
        e, t, n = E(c), c.arr0('n_tracks_per_event'), N(c)
        r = And_(0 <= p, p < n)
        return [('sorted by event', is_sorted(e, n)), ('one entry per hit', And_(t.n == n, c.arr0('hits').n == n)),
                ('number of hits of the event', forall([p], Imp(r, t[p] == hi(p) - lo(p)), [t[p]]))]

    def facts(c):
        e, n = E(c), N(c)
        r = And_(0 <= p, p < n)
        return [forall([p], Imp(r, And_(0 <= lo(p), lo(p) <= p, p < hi(p), hi(p) <= n)), [lo(p)]),
                forall([p], Imp(r, And_(p < hi(p), hi(p) <= n)), [hi(p)]),
                forall([p, q], Imp(And_(r, 0 <= q, q < n), (e[p] == e[q]) == And_(lo(p) <= q, q < hi(p))), [z3.MultiPattern(lo(p), e[q])])]

    def lemmas(c):
        e, n = E(c), N(c)
        rr = And_(0 <= p, p <= q, q < n)
        one = And_(0 <= p, p < n)
        return [plain('ends of an event', forall([p], Imp(one, And_(e[lo(p)] == e[p], e[hi(p) - 1] == e[p])), [lo(p)]), forall([p], Imp(one, And_(e[lo(p)] == e[p], e[hi(p) - 1] == e[p])))),
                plain('one range per event', forall([p, q], Imp(And_(rr, e[p] == e[q]), And_(lo(p) == lo(q), hi(p) == hi(q))), [z3.MultiPattern(lo(p), lo(q))])),
                plain('next event', forall([p, q], Imp(And_(rr, e[p] < e[q]), hi(p) <= lo(q)), [z3.MultiPattern(lo(p), lo(q))])),
                plain('behind an event the next one starts', forall([p], Imp(And_(one, hi(p) < n), And_(lo(hi(p)) == hi(p), e[hi(p)] > e[p])), [hi(p)]))]

    def done(c, ind, a):
        """entries before a are permuted within their events, entries from a on are in place"""
        e, n = E(c), N(c)
        b = And_(0 <= p, p < a)
        return [('rows behind are in place', forall([p], Imp(And_(a <= p, p < n), ind[p] == p), [ind[p]])),
                ('rows stay in their event', forall([p], Imp(b, And_(lo(p) <= ind[p], ind[p] < hi(p))), [ind[p]])),
                ('no row twice', forall([p, q], Imp(And_(b, 0 <= q, q < a, ind[p] == ind[q]), p == q), [z3.MultiPattern(ind[p], ind[q])]))]

    def outer(c):
        i, n, ind = c['index'], N(c), c.arr('indices')
        return [('range', And_(0 <= i, i <= n)), ('at the start of an event', Imp(i < n, lo(i) == i)), ('length', ind.n == n)] + done(c, ind, i)

    def inner(c):
        i, n, ind = c['index'], N(c), c.arr('indices')
        return [('range', And_(0 <= i, i < n, c.entry('index') <= i)), ('length', ind.n == n)] + done(c, ind, hi(i))

    def ens(c):
        n, e = N(c), E(c)
        ind, h, r = c.arr('indices'), c.arr0('hits'), AV(c.st.heap[(c.result.base, c.result.field)], c.result)
        rng = And_(0 <= p, p < n)
        return [('as many hits as before', r.n == n),
                ('every row is the hit of a row of its event', forall([p, k], Imp(rng, And_(0 <= ind[p], ind[p] < n, e[ind[p]] == e[p], r[(p, k)] == h[(ind[p], k)])))),
                ('no hit is used twice', forall([p, q], Imp(And_(rng, 0 <= q, q < n, ind[p] == ind[q]), p == q)))]
    return Contract('shuffle_event_hits', ('py', SD, 'shuffle_event_hits'),
                    dict(event_number=Arr('int'), n_tracks_per_event=Arr('int'), hits=Arr('flt', 2), seed=Int()),
                    requires=req, ensures=ens, facts=facts, lemmas=lemmas, nloops=2, inv={0: outer, 1: inner}, modifies=[],
                    variant={0: lambda c: N(c) - c['index'], 1: lambda c: N(c) - c['index']}, roles=['index', 'indices'])


def CONTRACTS():
    return [shuffle()]


TRUSTED = ['numpy / numba random shuffle of a 1-d array section rearranges the entries of that section and nothing else (dependency contract)',
           'numba compiles the function with Python semantics', 'an injective map of the finite set of rows of one event into itself is a permutation of it']
ASSUME = ['hits are sorted by event number and n_tracks_per_event holds the number of hits of the event of each row (SimulateData._create_data builds both with np.repeat)']
BOUNDED = ['SimulateData._create_data (numpy set-up of these arrays around shuffle_event_hits): bounded runs with the digitisation replaced by the identity']
BUDGET = 20
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: loop invariants on shuffle_event_hits, verification conditions from the current source, z3 / cvc5'
LEVEL_NOTE = 'all event structures, all seeds, any number of hits'
EXPLANATION = 'At exit every entry of the index array lies in the row range of its event and no entry occurs twice; the result rows are the hits at these entries.'


def o_direct(o):
    np = o.np
    m = o.mod('tools.simulate_data')
    fs = [m.shuffle_event_hits, getattr(m.shuffle_event_hits, 'py_func', None)]
    mixed = 0
    while o.more():
        sizes = o.rng.choice([0, 1, 1, 2, 3, 5, 9], int(o.rng.integers(0, 9)))
        ev = np.repeat(np.cumsum(o.rng.integers(1, 4, len(sizes))) - 2, sizes).astype(np.int64)
        nt = np.repeat(sizes, sizes).astype(np.int32)
        n = len(ev)
        h = np.column_stack([np.arange(n) * 1.0, o.rng.integers(0, 3, n) * 1.0, np.zeros(n)]).reshape(n, 3)
        seed = int(o.rng.integers(0, 2 ** 31))
        state = np.random.get_state()
        f = fs[int(o.rng.integers(0, 2))] or fs[0]
        a, b, c = ev.copy(), nt.copy(), h.copy()
        r = f(a, b, c, seed)
        np.random.set_state(state)
        data = dict(event_number=ev, n_tracks_per_event=nt, seed=seed, result=r)
        o.count('shuffle_event_hits', bool((sizes > 1).any()), data)
        ok = r.shape == h.shape
        if ok and n:
            src = r[:, 0].astype(int)
            ok = sorted(src) == list(range(n)) and (ev[src] == ev).all() and (h[src] == r).all()
        o.check(bool(ok), 'shuffle', 'shuffled hits of events %s: rows come from rows %s' % (ev.tolist(), r[:, 0].tolist() if r.size else []), data)
        o.check((a == ev).all() and (b == nt).all() and (c == h).all(), 'inputs', 'input arrays are changed', data)


def o_create(o):
    np = o.np
    m = o.mod('tools.simulate_data')
    while o.more():
        seed = int(o.rng.integers(0, 2 ** 31))
        n_ev, start = int(o.rng.integers(1, 12)), int(o.rng.integers(0, 100))
        tpe, sg = int(o.rng.integers(0, 5)), int(o.rng.integers(0, 3))
        out = []
        for shuffle_on in (False, True):
            s = m.SimulateData(seed)
            s.n_duts = 2
            s._digitize_hits = lambda e, h: (e.copy(), [x.copy() for x in h])
            s.tracks_per_event, s.tracks_per_event_sigma, s.digitization_shuffle_hits = tpe, sg, shuffle_on
            np.random.seed(seed)
            out.append(s._create_data(start, n_ev))
        (e0, h0), (e1, h1) = out
        data = dict(seed=seed, n_events=n_ev, start=start, tracks_per_event=tpe, sigma=sg, event_number=e0)
        o.count('_create_data', len(e0) > 0, data)
        ok = len(e0) == len(e1) and (np.asarray(e0) == e1).all()
        for a, b in zip(h0, h1):
            ok = ok and a.shape == b.shape
            for e in np.unique(e0) if ok else ():
                x, y = a[e0 == e], b[e0 == e]
                ok = ok and (x[np.lexsort(x.T)] == y[np.lexsort(y.T)]).all()
        o.check(bool(ok), 'create', 'shuffling changes the hits of an event', data)


ORACLE = [('direct', o_direct), ('create', o_create)]
