"""C01: chunked, event-aligned reading."""
from contracts.common import *

EV = dict(event_number='int', **{'*': 'int'})
p, q, k = z3.Ints('p q k')
none = T('const', v=None)


def aligned(start, stop, si, so, speed=False):
    """start, stop: event range given?  si, so: row range given?"""
    S, Z, Bg = z3.Ints('first_row first_row_after last_event_begin')
    name = 'data_aligned_at_events[%s]' % ', '.join([x for x, y in (('start event', start), ('stop event', stop), ('start row', si), ('stop row', so), ('speedup', speed)) if y] or ['whole table'])

    def ev(c):
        return c.arr0('table', 'event_number')

    def lo(c):
        return c.old('start_index') if si else z3.IntVal(0)

    def L(c):
        return c.old('stop_index') if so else ev(c).n

    def Emin(c):
        n = ev(c).n
        m = z3.If(Z < n, Z, n) if stop else n
        if so:
            m = If_(L(c) == n, m, z3.If(Z < Bg, Z, Bg) if stop else Bg)
        return m

    def E(c):
        """row after the last row to be returned"""
        return If_(Or_(S >= L(c), Emin(c) < S), S, Emin(c))

    def facts(c):
        """definitions: the rows exist because the table is sorted"""
        e, n, l0, l1 = ev(c), ev(c).n, lo(c), L(c)
        out = []
        if start:
            out += [Imp(l0 <= l1, And_(l0 <= S, S <= l1)), forall([k], Imp(And_(l0 <= k, k < S), e[k] < c.old('start_event_number')), [e[k]]),
                    forall([k], Imp(And_(S <= k, k < l1, l0 <= l1), e[k] >= c.old('start_event_number')), [e[k]])]
        else:
            out.append(S == l0)
        if stop:
            out += [0 <= Z, Z <= n, forall([k], Imp(And_(0 <= k, k < Z), e[k] < c.old('stop_event_number')), [e[k]]), forall([k], Imp(And_(Z <= k, k < n), e[k] >= c.old('stop_event_number')), [e[k]])]
        if so:
            out += [Imp(l1 > 0, And_(0 <= Bg, Bg < l1, e[Bg] == e[l1 - 1])), forall([k], Imp(And_(0 <= k, k < Bg, l1 > 0), e[k] < e[l1 - 1]), [e[k]])]
        return out

    def req(c):
        n = ev(c).n
        return [('table sorted by event', is_sorted(ev(c), n)), ('chunk size', c.old('chunk_size') >= 1)] + \
            ([('start row', And_(c.old('start_index') >= 0, c.old('start_index') <= n))] if si else []) + ([('stop row', And_(c.old('stop_index') >= 0, c.old('stop_index') <= n))] if so else [])

    def onyield(g, st, v, s):
        c = Ctx(g, st, g.st0)
        Y = st.ghost['Y']
        if not (isinstance(v, TupV) and len(v.elts) == 2 and isinstance(v.elts[0], ArrV) and g.isint(v.elts[1])):
            raise Unsupported('yielded value')
        b, idx = v.elts
        ln, e = s.line, ev(c)
        m = b.dims[0]
        g.oblige(st, 'block is not empty (line %s)' % ln, m > 0, ln, 'yield')
        g.oblige(st, 'block is not longer than the chunk size (line %s)' % ln, m <= c.old('chunk_size'), ln, 'yield')
        g.oblige(st, 'block is inside the requested rows (line %s)' % ln, And_(Y >= S, Y + m <= E(c)), ln, 'yield')
        for f in ('event_number', '*'):
            g.oblige(st, 'block continues where the last one ended: column %s (line %s)' % (f, ln), forall([p], Imp(And_(0 <= p, p < m), c.arr(b, f)[p] == c.arr0('table', f)[Y + p])), ln, 'yield')
        g.oblige(st, 'reported index is the row after the block (line %s)' % ln, idx == Y + m, ln, 'yield')
        g.oblige(st, 'block ends with an event (line %s)' % ln, Imp(Y + m < e.n, e[Y + m - 1] < e[Y + m]), ln, 'yield')
        st.ghost['Y'] = Y + m

    def bad(c):
        e, w = ev(c), c.old('chunk_size')
        out = [L(c) < lo(c), z3.Exists([p], And_(lo(c) <= p, p + w <= L(c), e[p] == e[p + w - 1]))]
        if start:
            out.append(And_(c.old('fail_on_missing_events'), Not_(z3.Exists([p], And_(lo(c) <= p, p < L(c), e[p] == c.old('start_event_number'))))))
            if stop:
                out.append(c.old('stop_event_number') < c.old('start_event_number'))
        return Or_(*out)

    def rows(c):
        if not speed:
            return ('rows', And_(lo(c) <= L(c), c['stop_index'] == L(c)))
        known = And_(c['stop_index'] == If_(Z < S, S, Z), c['stop_index'] < L(c), c['table_max_rows'] == c['stop_index']) if stop else False
        return ('rows', And_(lo(c) <= L(c), lo(c) <= c['start_index'], c['start_index'] <= S, Or_(And_(c['stop_index'] == L(c), c['table_max_rows'] == ev(c).n), known)))

    def search(c):
        cur, e = c['current_start_index'], ev(c)
        return [('range', lo(c) <= cur), ('rows so far are before the start event', forall([k], Imp(And_(lo(c) <= k, k < cur, k < c['stop_index']), e[k] < c.old('start_event_number')), [e[k]])), ('nothing returned yet', c.ghost('Y') == S),
                rows(c)]

    def data(c):
        cur, e = c['current_start_index'], ev(c)
        L1 = c['stop_index']
        return [('read position', Imp(S < L1, cur == c.ghost('Y'))), ('after the row range', Imp(S >= L1, And_(cur >= L1, c.ghost('Y') == S))), ('range', And_(S <= c.ghost('Y'), c.ghost('Y') <= E(c))),
                rows(c)]
    ps = dict(table=Arr(EV, 1, readonly=True), start_event_number=Int() if start else none, stop_event_number=Int() if stop else none, start_index=Int() if si else none,
              stop_index=Int() if so else none, chunk_size=Int(), try_speedup=T('const', v=speed), first_event_aligned=T('const', v=True), fail_on_missing_events=BOOL)
    return Contract(name, ('py', AU, 'data_aligned_at_events'), ps, requires=req, facts=facts, ghost=lambda c: dict(Y=S), on_yield=onyield,
                    ensures=lambda c: [('all requested rows were returned', c.ghost('Y') == E(c))], raises={'ValueError': bad}, inv={0: search, 2: data},
                    variant={0: lambda c: If_(c['stop_index'] > c['current_start_index'], c['stop_index'] - c['current_start_index'], 0), 2: lambda c: c['stop_index'] - c['current_start_index']}, nloops=3)


def CONTRACTS():
    b = (True, False)
    return [aligned(x, y, z, w) for x in b for y in b for z in b for w in b] + [aligned(x, y, z, w, True) for x in b for y in b for z in b for w in b if x or y]


TRUSTED = ['pytables: nrows, read(start, stop), get_where_list and colindexed as modelled', 'numpy: searchsorted and slices as modelled', 'a generator runs to its end (a consumer that stops early sees a prefix)']
ASSUME = ['table sorted by event number', 'chunk_size >= 1 and row bounds inside the table', 'first_event_aligned is set and start_index is where an event starts (first_event_aligned=False: bounded check only)']
BOUNDED = ['data_aligned_at_events with first_event_aligned=False']
BUDGET = 30


def oracle(o):
    import itertools
    import tables as tb
    np = o.np
    au = o.mod('tools.analysis_utils')
    state = dict(n=0)
    h5 = tb.open_file('c01.h5', 'w', driver='H5FD_CORE', driver_core_backing_store=0)

    def table(evs, index):
        state['n'] += 1
        a = np.zeros(len(evs), [('event_number', 'i8'), ('row', 'i4'), ('q', 'f4')])
        a['event_number'] = evs
        a['row'] = np.arange(len(evs))
        a['q'] = np.arange(len(evs)) * 0.5
        t = h5.create_table(h5.root, 'T%d' % state['n'], a)
        if index:
            t.cols.event_number.create_index()
        return t

    def one(t, evs, start=None, stop=None, si=None, so=None, chunk=1000, speed=False, fail=True, aligned=True):
        kw = dict(start_event_number=start, stop_event_number=stop, start_index=si, stop_index=so, chunk_size=chunk, try_speedup=speed, first_event_aligned=aligned, fail_on_missing_events=fail)
        n, e = len(evs), list(evs)
        l0, l1 = si or 0, n if so is None else so
        call = 'data_aligned_at_events(events %s, %s)' % (e, ', '.join('%s=%s' % x for x in kw.items() if x[1] is not None))
        data = dict(events=e, arguments=kw)
        blocks, err = [], None
        try:
            for b, i in au.data_aligned_at_events(t, **kw):
                blocks.append((b.copy(), int(i)))
                if len(blocks) > n + 2:
                    break
        except ValueError as ex:
            err = ex
        except Exception as ex:
            o.fail('exception', '%s raises %s: %s' % (call, type(ex).__name__, ex), data)
        o.count('data_aligned_at_events', nontrivial=len(blocks) > 1, sample=call)
        want = [r for r in range(l0, l1) if (start is None or e[r] >= start) and (stop is None or e[r] < stop)]
        if so is not None and so < n and l0 < l1 and (stop is None or e[l1 - 1] < stop):
            want = [r for r in want if e[r] != e[l1 - 1]]          # the last event may be cut by the row range
        if not aligned and l0 > 0 and start is None:
            want = [r for r in want if e[r] != e[l0]]
        may = l1 < l0 or (start is not None and stop is not None and stop < start) or any(e[r] == e[r + chunk - 1] for r in range(l0, l1 - chunk + 1))
        may = may or fail and start is not None and start not in e[l0:l1]
        got = []
        for b, i in blocks:
            r = b['row'].tolist()
            o.check(len(r) > 0, 'empty block', call + ' gives an empty block', data)
            o.check(len(r) <= chunk, 'block too long', '%s gives a block of %d rows' % (call, len(r)), data)
            o.check(r == list(range(r[0], r[0] + len(r))) and b['event_number'].tolist() == [e[k] for k in r] and b['q'].tolist() == [0.5 * k for k in r], 'rows', '%s gives the rows %s' % (call, r), data)
            o.check(i == r[-1] + 1, 'index', '%s reports index %d for the rows %s' % (call, i, r), data)
            o.check(i == n or e[i] != e[i - 1], 'event divided', '%s divides event %s' % (call, e[i - 1]), data)
            got += r
        o.check(got == want[:len(got)], 'rows', '%s gives the rows %s, expected %s' % (call, got, want), data)
        if err is not None:
            o.check(may, 'spurious error', '%s raises %s' % (call, err), data)
            return
        o.check(got == want, 'incomplete', '%s gives the rows %s, expected %s' % (call, got, want), data)
        o.check(not (l1 < l0), 'invalid range', call + ': no error', data)
    lists = [list(x) for n in range(0, 6) for x in itertools.combinations_with_replacement(range(1, 4), n)]
    for e in lists:
        t, ti = table(e, False), table(e, True)
        for chunk in (1, 2, 3, 6):
            one(t, e, chunk=chunk)
            for start in (None, 0, 1, 2, 3, 4):
                for stop in (None, 1, 2, 3, 4):
                    for fail in (False, True):
                        one(t, e, start, stop, chunk=chunk, fail=fail)
                        if len(e) < 5 or o.rng.random() < 0.2:
                            one(ti, e, start, stop, chunk=chunk, fail=fail, speed=True)
        for si in range(0, len(e) + 1):
            if 0 < si < len(e) and e[si - 1] == e[si]:
                continue
            for so in [None] + list(range(si, len(e) + 1)):
                one(t, e, si=si, so=so, chunk=3)
                one(t, e, start=2, si=si, so=so, chunk=3, fail=False)
                one(t, e, stop=3, si=si, so=so, chunk=4, fail=False)
                one(ti, e, start=2, stop=3, si=si, so=so, chunk=4, fail=False, speed=True)
        for si in range(1, len(e)):
            one(t, e, si=si, chunk=4, aligned=False)
        h5.remove_node(t)
        h5.remove_node(ti)
        if not o.more():
            break
    while o.more():
        n, hi = int(o.rng.integers(0, 60)), int(o.rng.choice([3, 12, 60]))
        off = int(o.rng.choice([0, 2 ** 31 - 3, 2 ** 33]))
        e = (np.sort(o.rng.integers(0, hi, n)) + off).tolist()
        index = bool(o.rng.random() < 0.5)
        t = table(e, index)
        for _ in range(20):
            start, stop = [None if o.rng.random() < 0.3 else int(o.rng.integers(0, hi + 1)) + off for _ in range(2)]
            si = None
            if o.rng.random() < 0.5 and n:
                si = int(o.rng.integers(0, n + 1))
                while 0 < si < n and e[si - 1] == e[si]:
                    si -= 1
            one(t, e, start, stop, si, None, chunk=int(o.rng.integers(1, 30)), fail=bool(o.rng.random() < 0.3), speed=index)
        h5.remove_node(t)
    h5.close()


ORACLE = [('data_aligned_at_events', oracle)]
