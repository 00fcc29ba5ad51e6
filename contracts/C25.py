"""C25 Combining and reducing event files keeps events whole and distinct."""
import collections
import os
import types

import numpy as np

from vf import symx
from vf.symx import z3, S, SB, A, NP, Tab, Dom, Loader, explore, call, Raised, PathEnd
from contracts.C24 import Opened, AnyName, same
from contracts.C21 import tracks
from contracts.C30 import Strict
from contracts import files

F = 'beam_telescope_analysis/tools/data_selection.py'
M = 'beam_telescope_analysis.tools.data_selection'


def num(x):
    return symx.lnum(x.num() if isinstance(x, symx.SymDim) else x).t


# ---------------------------------------------------------------- combine_files

class Range(object):
    def __init__(self, *a):
        a = [num(x) for x in a]
        self.start, self.stop = (z3.IntVal(0), a[0]) if len(a) == 1 else a[:2]
        self.step = a[2] if len(a) == 3 else z3.IntVal(1)


class Column(Strict):
    def __init__(self, chunk):
        self.chunk, self.new = chunk, None

    def __iadd__(self, v):
        self.chunk.shift = self.chunk.shift + num(v)
        return self

    def __add__(self, v):
        r = Column(self.chunk)
        r.new = self.chunk.shift + num(v)
        return r

    __radd__ = __add__

    def __getitem__(self, k):
        return self.chunk[k]['event_number']

    def max(self):
        return self.chunk[-1]['event_number']

    def min(self):
        return self.chunk[0]['event_number']


class Chunk(Strict):
    """rows a to b of a table of a file, event numbers shifted"""

    def __init__(self, table, a, b):
        self.table, self.a, self.b, self.shift = table, a, b, z3.IntVal(0)

    def event(self, i):
        return self.table.event(i) + self.shift

    def __getitem__(self, k):
        if k == 'event_number' and self.table.events:
            return Column(self)
        if isinstance(k, slice) and k == slice(None):
            return self
        if k in (0, -1) and not isinstance(k, bool):
            c = self.table.w.c
            if c.decide(self.b <= self.a):
                raise IndexError('index %d is out of bounds for axis 0 with size 0' % k)
            return {'event_number': S(self.event(self.b - 1 if k == -1 else self.a), k='i')} if self.table.events else {}
        raise symx.Unsupported('rows of a chunk')

    def __setitem__(self, k, v):
        if k != 'event_number' or not isinstance(v, Column) or v.chunk is not self:
            raise symx.Unsupported('assignment to a chunk')
        if v.new is not None:
            self.shift = v.new

    shape = property(lambda self: (S(self.b - self.a, k='i'),))
    size = property(lambda self: self.shape[0])

    def __len__(self):
        raise symx.Unsupported('len of a chunk')


class InTable(Strict):
    def __init__(self, w, f, name, events):
        self.w, self.f, self.name, self.events = w, f, name, events
        self.title = 'title of %s' % name
        self.n = z3.Int('rows_%s_%d' % (name, f))
        w.c.fact(self.n >= 0)
        self.fn = z3.Function('event_%s_%d' % (name, f), z3.IntSort(), z3.IntSort())
        # an arbitrary row; the table is sorted
        self.g = z3.Int('row_%s_%d' % (name, f))
        w.c.fact(z3.Implies(self.n > 0, z3.And(0 <= self.g, self.g < self.n, self.fn(self.g) <= self.fn(self.n - 1), self.fn(0) >= 0, self.fn(self.g) >= self.fn(0))))
        self.dtype = types.SimpleNamespace(names=(('event_number',) if events else ()) + ('a',), table=name)
        self.description = self.dtype

    def event(self, i):
        return self.fn(i)

    nrows = property(lambda self: S(self.n, k='i'))
    shape = property(lambda self: (self.nrows,))

    def read(self, start=None, stop=None, step=None):
        if step is not None:
            raise symx.Unsupported('read with step')
        c = self.w.c
        a = num(start) if start is not None else z3.IntVal(0)
        b = num(stop) if stop is not None else self.n
        c.goal('rows are read from valid positions', z3.And(a >= 0, b >= 0))
        a, b = [z3.If(x > self.n, self.n, x) for x in (a, b)]
        return Chunk(self, a, z3.If(b < a, a, b))

    def __getitem__(self, k):
        if not isinstance(k, slice):
            raise symx.Unsupported('rows of a table')
        return self.read(k.start, k.stop, k.step)


class CombinedTable(Strict):
    def __init__(self, w, name, description, title):
        self.w, self.name, self.description, self.title = w, name, description, title

    def append(self, x):
        w, c = self.w, self.w.c
        if not isinstance(x, Chunk):
            raise symx.Unsupported('rows of something else')
        c.goal('rows go to the table of the same name', x.table.name == self.name)
        key = x.table.f, x.table.name
        c.goal('rows of the file at hand', key == w.now)
        if key != w.now:
            raise PathEnd()
        c.goal('rows in order, none twice, none missing', z3.Or(x.a == w.done[key], x.b <= x.a))
        w.done[key] = z3.simplify(z3.If(x.b > x.a, x.b, w.done[key]))
        if x.table.events:
            c.goal('shift of the event numbers', z3.Implies(x.b > x.a, x.shift == w.offset(key)))

    def flush(self):
        pass


class Combine(object):
    """invariant of the loop over the rows of a table: the rows before the position are copied"""

    def __init__(self, w):
        self.w, self.cut = w, set()

    def iterate(self, k, it, loc):
        if not isinstance(it, Range):
            for x in it:
                self.w.begin(x)
                yield x
            return
        self.cut.add(k)
        w, c = self.w, self.w.c
        key = w.now
        n = w.tables[key].n
        if not c.decide(it.start < it.stop):
            self.cut.discard(k)
            return
        self.first = c.decide(c.fresh('first', z3.BoolSort()))
        r = c.fresh('position', z3.IntSort())
        if self.first:
            c.goal('nothing is copied before', w.done[key] == it.start)
            r = it.start
        else:
            c.fact(z3.And(r > it.start, r < it.stop, r < n))
            w.done[key] = r
        c.goal('positive chunks', it.step > 0)
        yield S(r, k='i')
        c.goal('the rows up to the next position are copied', w.done[key] == z3.If(r + it.step > n, n, r + it.step))
        if not c.decide(r + it.step >= it.stop):
            raise PathEnd()
        self.cut.discard(k)

    def havoc(self, k, names, loc):
        if k not in self.cut or self.first:
            return names
        out = {}
        for n, v in names.items():
            if isinstance(v, dict) and self.w.now[1] in v:
                x = v[self.w.now[1]]
                v = dict(v) if type(v) is dict else v
                if isinstance(x, (S, int)) and not isinstance(x, bool):
                    v[self.w.now[1]] = S(self.w.c.fresh('last', z3.IntSort()), k='i')
                elif x is not None and not isinstance(x, list):
                    continue
                out[n] = v
        return out


class World(object):
    def __init__(self, c, n_files, names, given, without=()):
        self.c, self.given, self.now = c, given, None
        self.tables = collections.OrderedDict()
        self.done = {}
        for f in range(n_files):
            for nm, ev in names:
                if (f, nm) not in without:
                    self.tables[f, nm] = InTable(self, f, nm, ev)
                    self.done[f, nm] = z3.IntVal(0)

    def begin(self, x):
        if isinstance(x, InTable):
            self.now = x.f, x.name

    def last(self, key):
        """event number of the last row written before"""
        t = z3.IntVal(-1)
        for g, nm in self.tables:
            if nm == key[1] and g < key[0]:
                p = self.tables[g, nm]
                t = z3.If(p.n > 0, p.event(p.n - 1) + self.offset((g, nm)), t)
        return t

    def offset(self, key):
        if self.given is not None and self.given[key[0]] is not None:
            return num(self.given[key[0]])
        return self.last(key) + 1


def combine(n_files, tables_, names=None, given=None, without=()):
    def run(c):
        import tables
        off = [None if g is None else c.int('given_%d' % i) for i, g in enumerate(given)] if given else None
        w = World(c, n_files, tables_, off, without)
        m = Loader(cut={'combine_files': Combine(w)}).module(M)
        m.range = lambda *a: Range(*a) if any(isinstance(x, (S, symx.SymDim)) for x in a) else range(*a)
        out = {}
        chunk = c.int('chunk_size')
        c.assume(chunk >= 1)

        def create_table(where, name, description=None, title='', filters=None, **k):
            if name in out:
                raise tables.NodeError(name)
            out[name] = CombinedTable(w, name, description, title)
            return out[name]

        def open_file(filename, mode='r', **k):
            if filename == 'out':
                c.goal('the output file is new', mode == 'w')
                return Opened(types.SimpleNamespace(root='root', create_table=create_table))
            f = int(filename[2:])

            def list_nodes(where, classname=None):
                if classname != 'Table':
                    raise symx.Unsupported('all nodes')
                return [t for (g, nm), t in w.tables.items() if g == f]
            return Opened(types.SimpleNamespace(root='root', list_nodes=list_nodes))
        m.tb = types.SimpleNamespace(open_file=open_file, NodeError=tables.NodeError, NoSuchNodeError=tables.NoSuchNodeError, Filters=lambda **k: None)
        r = call(m.combine_files, input_files=['in%d' % f for f in range(n_files)], output_file='out', names=names, event_number_offsets=off, chunk_size=chunk)
        if isinstance(r, Raised):
            c.goal('no error (%s)' % r.ex, False)
            return
        wanted = [nm for nm, ev in tables_ if names is None or nm in ([names] if isinstance(names, str) else names)]
        wanted = [nm for nm in wanted if any(k[1] == nm for k in w.tables)]
        c.goal('returns the file', r[0] == 'out')
        c.goal('the tables', set(out) == set(wanted) and set(r[1]) == set(wanted))
        for key, t in w.tables.items():
            if key[1] not in wanted:
                continue
            tag = 'file %d, %s: ' % key
            c.goal(tag + 'all rows are copied', w.done[key] == t.n)
            o = out.get(key[1])
            c.goal(tag + 'type of the rows', getattr(o.description, 'table', None) == key[1])
            if not t.events:
                c.goal(tag + 'no offsets', r[1].get(key[1]) is None)
                continue
            got = r[1].get(key[1])
            order = [k for k in w.tables if k[1] == key[1]]
            i = order.index(key)
            okay = isinstance(got, list) and len(got) == len(order)
            c.goal(tag + 'offsets of all files', okay)
            if okay:
                c.goal(tag + 'offset', z3.Implies(t.n > 0, num(got[i]) == w.offset(key)))
            if off is None:
                for q in order[:i]:
                    p = w.tables[q]
                    c.goal(tag + 'events are different from those of file %d' % q[0], z3.Implies(z3.And(p.n > 0, t.n > 0), t.event(t.g) + w.offset(key) > p.event(p.g) + w.offset(q)))
    return explore('combine_files, %d files, %s%s%s' % (n_files, ' '.join(n for n, e in tables_), ', names %s' % (names,) if names else '', ', offsets given' if given else ''), F, run)


# ---------------------------------------------------------------- limits on the number of events

class Events(Strict):
    """the different event numbers of rows"""

    def __init__(self, w, col):
        self.w, self.col = w, col
        self.key = str(col.d[0].t.get_id()), str(col.gen[0].guard)
        if self.key not in w.counts:
            w.counts[self.key] = w.c.fresh('events', z3.IntSort())
            w.c.fact(w.counts[self.key] >= 0)
        self.n = w.counts[self.key]

    shape = property(lambda self: (S(self.n, k='i'),))
    size = property(lambda self: self.shape[0])


class Selected(Strict):
    def __init__(self, w, events, k):
        self.events, self.k = events, k
        self.fn = z3.Function('chosen_%d' % w.number(), z3.IntSort(), z3.BoolSort())

    shape = property(lambda self: (S(self.k, k='i'),))
    size = property(lambda self: self.shape[0])


class Random(Strict):
    def __init__(self, w):
        self.w = w

    def seed(self, seed=None):
        pass

    def choice(self, a, size=None, replace=True):
        w, c = self.w, self.w.c
        if not isinstance(a, Events) or size is None:
            raise symx.Unsupported('choice')
        c.goal('every event is chosen at most once', replace is False)
        k = num(size)
        c.goal('the number of events is possible', z3.And(k >= 0, k <= a.n))
        c.fact(z3.And(k >= 0, k <= a.n))
        w.chosen.append(Selected(w, a, k))
        return w.chosen[-1]


class Numpy(object):
    def __init__(self, w):
        self.w, self.random = w, Random(w)

    def unique(self, a):
        if not isinstance(a, A) or a.ndim != 1 or a.gen[0] is None:
            raise symx.Unsupported('unique')
        return Events(self.w, a)

    def in1d(self, a, b):
        if not isinstance(b, Selected) or not isinstance(a, A) or a.ndim != 1 or a.gen[0] is None:
            raise symx.Unsupported('in1d')
        return A(np.array([SB(b.fn(a.d[0].t))], dtype=object), a.gen, 'b')

    isin = in1d

    def __getattr__(self, k):
        return getattr(NP, k)


class Aligned(object):
    def __init__(self, node):
        self.node = node


class Limit(object):
    """invariant of the loop over the chunks: the variables that hold the numbers of stored events and rows and the position do so after every pass"""

    def __init__(self, w):
        self.w, self.cut = w, False

    def iterate(self, k, it, loc):
        w, c = self.w, self.w.c
        if not isinstance(it, Aligned):
            for x in it:
                yield x
            return
        node = it.node
        self.cut, self.k = True, k
        w.chosen, w.rows, w.counts = [], [], {}
        w.maxi = num(w.max_events)
        n = num(node.shape[0])
        if not c.decide(n > 0):
            self.cut = False
            return
        # the first chunk
        self.stage, self.loc = 'first', loc
        i = c.fresh('index', z3.IntSort())
        c.fact(z3.And(i > 0, i <= n))
        self.before, self.index = (z3.IntVal(0), z3.IntVal(0)), i
        t = node.make('first')
        c.fact(num(t.dom_length) == i)
        yield t.tab.copy(), S(i, k='i')
        self.check(t, 'first chunk: ', i)
        if c.decide(i == n):
            w.single = True
            self.cut = False
            return
        # any other chunk
        self.stage = 'any'
        K, L, j = [c.fresh(x, z3.IntSort()) for x in ('stored', 'position', 'next')]
        c.fact(z3.And(K >= 0, K <= w.maxi, L > 0, L < j, j <= n))
        self.ghost = dict(events=K, position=L)
        self.last, self.index = dict(events=w.chosen[-1].k if w.chosen else None, position=i), j
        w.chosen, w.rows = [], []
        t = node.make('any')
        c.fact(num(t.dom_length) == j - L)
        self.before = (K, L)
        yield t.tab.copy(), S(j, k='i')
        self.check(t, 'any chunk: ', j)
        if self.final is None:
            raise symx.Unsupported('loop without state')
        if not c.decide(j == n):
            raise PathEnd()
        self.cut = False

    def check(self, t, tag, index):
        w, c = self.w, self.w.c
        c.goal(tag + 'events are chosen once', len(w.chosen) == 1)
        c.goal(tag + 'rows are added once', len(w.rows) == 1 and isinstance(w.rows[0], Tab) and w.rows[0].dom.base == t.tab.dom.base)
        if len(w.chosen) != 1 or len(w.rows) != 1 or not isinstance(w.rows[0], Tab) or w.rows[0].dom.base != t.tab.dom.base:
            raise PathEnd()
        sel, got = w.chosen[0], w.rows[0]
        ev = t.tab.cols['event_number'].d[0].t
        want = z3.And(t.passed, sel.fn(ev))
        c.goal(tag + 'exactly the rows of the chosen events', got.dom.guard == want)
        c.goal(tag + 'chosen from the events of the rows', sel.events.col.d[0].t.eq(ev))
        c.goal(tag + 'chosen from all these events', sel.events.col.gen[0].guard == t.passed)
        c.goal(tag + 'columns', list(got.cols) == list(t.tab.cols))
        for k in t.tab.cols:
            if k in got.cols:
                same(c, tag + 'column %s unchanged' % k, got.cols[k].d[0], t.tab.cols[k].d[0], got.dom.guard)
        c.goal(tag + 'not more than the limit', self.before[0] + sel.k <= w.maxi)
        if self.stage == 'first':
            c.goal(tag + 'one chunk: the limit, or all events', z3.Implies(index == num(t.total), sel.k == z3.If(sel.events.n < w.maxi, sel.events.n, w.maxi)))
        else:
            c.goal(tag + 'the last chunk fills up to the limit', z3.Implies(index == num(t.total), z3.Or(sel.k == sel.events.n, self.before[0] + sel.k == w.maxi)))
            # state of the loop
            loc = self.frame.f_locals
            for n, g in self.final.items():
                new = self.before[0] + sel.k if g == 'events' else index
                v = loc.get(n)
                if n not in w.free and (not isinstance(v, (S, int)) or isinstance(v, bool) or c.check([num(v) != new]) != z3.unsat):
                    w.free.add(n)           # holds the value after the first chunk only: any value from now on
                    w.again.append(n)

    def havoc(self, k, names, loc):
        import sys
        if not self.cut or k != self.k:
            return names
        self.frame = sys._getframe(2)
        if self.stage == 'first':
            return names
        c = self.w.c
        out, self.final = {}, {}
        for n, v in names.items():
            if not isinstance(v, (S, int)) or isinstance(v, bool):
                continue
            for g in ('events', 'position'):
                if n not in self.w.free and self.last[g] is not None and c.check([num(v) != self.last[g]]) == z3.unsat:
                    out[n] = S(self.ghost[g], k='i')
                    self.final[n] = g
                    break
            else:
                out[n] = S(c.fresh('value', z3.IntSort()), k='i')
        return out


class LWorld(object):
    def __init__(self, c):
        self.c, self.k, self.single = c, 0, False
        self.counts, self.chosen, self.rows = {}, [], []
        self.max_events = c.int('max_events')

    def number(self):
        self.k += 1
        return self.k


class LTable(Strict):
    def __init__(self, w, name, passed=None):
        self.w, self.name, self.title, self.passed = w, name, 'title of ' + name, passed
        self.shape = (w.c.int('rows_' + name),)
        w.c.fact(num(self.shape[0]) >= 0)
        self.nrows = self.shape[0]
        self.dtype = tracks(w.c, name + '_dtype_', name + '_dtype').dtype

    def make(self, which):
        b = '%s_%s' % (self.name, which)
        t = tracks(self.w.c, b + '_', b)
        n = symx.SymDim(t.dom)
        return types.SimpleNamespace(tab=t, dom_length=n, passed=self.passed(t) if self.passed else z3.BoolVal(True), total=self.shape[0])


class Names_(Strict):
    def __init__(self, **k):
        self.__dict__.update(k)


def limited(fn, names, kw, passed=None):
    free = set()
    while True:
        again = []
        r = limited_once(fn, names, kw, passed, free, again)
        if not again:
            return r


def limited_once(fn, names, kw, passed, free, again):
    def run(c):
        import tables
        c.machine_ints = False
        w = LWorld(c)
        w.free, w.again = free, again
        c.assume(w.max_events >= 1)
        m = Loader(cut={fn: Limit(w)}).module(M)
        m.np = Numpy(w)
        nodes = collections.OrderedDict((n, LTable(w, n, passed)) for n in names)
        out = {}

        def rounded(x, *a):
            if a or not isinstance(x, S):
                return round(x, *a)
            n = c.fresh('rounded', z3.IntSort())
            c.goal('the number of events is not negative', symx.lnum(x).r >= 0)
            c.fact(z3.Implies(symx.lnum(x).r >= 0, n >= 0))
            return S(n, k='i')
        m.round = rounded

        def create_table(where, name, description=None, title='', filters=None, **k):
            if name in out:
                raise tables.NodeError(name)
            out[name] = description
            return Names_(append=w_append, flush=lambda: None)

        def w_append(x):
            w.rows.append(x)

        class Root(object):
            def __iter__(self):
                return iter(nodes.values())
        inp = types.SimpleNamespace(root=Root(), get_node=lambda where, name=None, **k: nodes[name if name is not None else where.strip('/')])

        def open_file(filename, mode='r', **k):
            c.goal('files', (filename, mode) in (('in', 'r'), ('out', 'w')))
            return Opened(inp if mode == 'r' else types.SimpleNamespace(root='root', create_table=create_table))
        m.tb = types.SimpleNamespace(open_file=open_file, NodeError=tables.NodeError, NoSuchNodeError=tables.NoSuchNodeError, Filters=lambda **k: None, group=tables.group)

        def aligned(table, start_index=None, stop_index=None, chunk_size=10000000, try_speedup=False, first_event_aligned=True, fail_on_missing_events=True):
            c.goal('all rows of the table', start_index is None and stop_index is None)
            return Aligned(table)
        m.analysis_utils = types.SimpleNamespace(data_aligned_at_events=aligned)
        m.Telescope = lambda f: [types.SimpleNamespace(name='DUT%d' % d) for d in range(5)]
        m.tqdm = lambda *a, **k: AnyName()
        r = call(getattr(m, fn), max_events=w.max_events, **kw)
        if isinstance(r, Raised):
            c.goal('no error (%s)' % r.ex, False)
            return
        c.goal('returns the file', r == 'out')
        c.goal('the tables', set(out) == set(names) and all(out[n] == nodes[n].dtype for n in names))
    return explore('%s, %s' % (fn, ' '.join(names)), F, run)


def hit_of_0(t):
    from contracts.C24 import bit
    return bit(t.cols['hit_flag'].d[0], 0)


H, O = ('Hits', True), ('Other', False)
SYM = [('combine 3 files', F + ':combine_files', lambda: combine(3, [H])), ('combine two tables', F + ':combine_files', lambda: combine(2, [H, O])),
       ('combine table missing', F + ':combine_files', lambda: combine(3, [H], without=((1, 'Hits'),))),
       ('combine named', F + ':combine_files', lambda: combine(2, [H, ('Tracks', True)], names='Tracks')), ('combine names', F + ':combine_files', lambda: combine(2, [H, O, ('Tracks', True)], names=['Tracks', 'Other'])),
       ('combine given offsets', F + ':combine_files', lambda: combine(3, [H], given=[1, None, 1])),
       ('reduce_events', F + ':reduce_events', lambda: limited('reduce_events', ['Hits'], dict(input_file='in', output_file='out'))),
       ('select_tracks', F + ':select_tracks', lambda: limited('select_tracks', ['Tracks_DUT0'], dict(telescope_configuration='t', input_tracks_file='in', select_duts=[0], output_tracks_file='out'))),
       ('select_tracks of hits', F + ':select_tracks', lambda: limited('select_tracks', ['Tracks_DUT1'], dict(telescope_configuration='t', input_tracks_file='in', select_duts=[1], output_tracks_file='out', select_hit_duts=[[0]]), hit_of_0))]


def CONTRACTS():
    return []


# ---------------------------------------------------------------- bounded

def rows_of(rng, n_events, most=4):
    ev = files.multi_events(rng, n_events, most)
    h = np.zeros(len(ev), files.HIT_DT)
    h['event_number'] = ev
    h['column'] = np.arange(len(ev))
    h['charge'] = rng.integers(0, 50, len(ev))
    return h


OTHER = np.dtype([('a', '<i4'), ('b', '<f8')])


def oracle_combine(o):
    m = o.mod('tools.data_selection')
    d = files.Dir(o, 'combine')
    rng = o.rng
    while o.more():
        p = d.new()
        nf = int(rng.integers(1, 4))
        ins, data = [], []
        for f in range(nf):
            t = collections.OrderedDict()
            for nm in ('Hits', 'Tracks_DUT0'):
                if rng.random() < 0.8:
                    t[nm] = rows_of(rng, int(rng.choice([0, 1, 3, 12])))
            if rng.random() < 0.4 or not t:
                x = np.zeros(int(rng.integers(0, 6)), OTHER)
                x['a'] = rng.integers(0, 100, len(x))
                t['Other'] = x
            data.append(t)
            ins.append(files.table_file(os.path.join(p, 'in%d.h5' % f), **t))
        names = [None, 'Hits', ['Hits', 'Other']][int(rng.integers(0, 3))]
        given = None if rng.random() < 0.6 else [None if rng.random() < 0.4 else int(rng.integers(0, 200)) for _ in range(nf)]
        chunk = int(rng.choice([1, 2, 3, 7, 1000]))
        info = dict(files=[{k: [list(map(float, r)) for r in v] for k, v in t.items()} for t in data], names=names, offsets=given, chunk_size=chunk)
        try:
            with files.quiet():
                out, app = m.combine_files(list(ins), output_file=os.path.join(p, 'out.h5'), names=names, event_number_offsets=given, chunk_size=chunk)
        except Exception as e:
            o.fail('combine raises', 'combine_files raises %r' % e, info)
            continue
        got = files.read_nodes(out)
        got = {k: v for k, v in got.items() if k != 'arguments' and v.dtype.names and k in ('Hits', 'Tracks_DUT0', 'Other')}
        want, offs, last = collections.OrderedDict(), {}, {}
        for f, t in enumerate(data):
            for k, v in t.items():
                if names is not None and k not in ([names] if isinstance(names, str) else names):
                    continue
                v = v.copy()
                if 'event_number' in v.dtype.names:
                    a = given[f] if given is not None and given[f] is not None else last.get(k, -1) + 1
                    v['event_number'] += a
                    offs.setdefault(k, []).append((a, len(v)))
                    if len(v):
                        last[k] = int(v['event_number'][-1])
                want.setdefault(k, []).append(v)
        o.count('combine_files', nf > 1, str(info)[:300])
        if not o.check(set(got) == set(want), 'tables', 'combine_files: tables %s instead of %s' % (sorted(got), sorted(want)), info):
            continue
        for k in want:
            w = np.concatenate(want[k])
            o.check(got[k].shape == w.shape and got[k].dtype == w.dtype and all(np.array_equal(got[k][c], w[c]) for c in w.dtype.names), 'rows', 'combine_files: rows of %s: %s instead of %s' % (k, got[k][:20], w[:20]), info)
            if k in offs:
                o.check(k in app and len(app[k]) == len(offs[k]) and all(a == b[0] for a, b in zip(app[k], offs[k]) if b[1]), 'offsets', 'combine_files: offsets of %s: %s' % (k, app.get(k)), info)


def whole(o, key, what, rows, got, limit, single, info):
    ev = np.unique(rows['event_number'])
    kept = np.unique(got['event_number'])
    want = rows[np.isin(rows['event_number'], kept)]
    o.check(got.shape == want.shape and all(np.array_equal(got[c], want[c]) for c in rows.dtype.names), key + ' rows', '%s: rows are missing, changed or in another order: events %s from %s' % (what, got['event_number'].tolist(), rows['event_number'].tolist()), info)
    o.check(len(kept) <= limit, key + ' limit', '%s: %d events instead of at most %d' % (what, len(kept), limit), info)
    if single:
        o.check(len(kept) == min(limit, len(ev)), key + ' number', '%s: %d of %d events instead of %d' % (what, len(kept), len(ev), min(limit, len(ev))), info)


def oracle_limit(o):
    m = o.mod('tools.data_selection')
    d = files.Dir(o, 'limit')
    rng = o.rng
    while o.more():
        p = d.new()
        limit = int(rng.choice([1, 2, 3, 10, 50]))
        chunk = int(rng.choice([6, 8, 15, 1000]))
        if rng.random() < 0.6:
            t = {k: rows_of(rng, int(rng.choice([0, 1, 5, 40]))) for k in ('Hits', 'Tracks_DUT0')[:int(rng.integers(1, 3))]}
            src = files.table_file(os.path.join(p, 'in.h5'), **t)
            info = dict(events={k: v['event_number'].tolist() for k, v in t.items()}, max_events=limit, chunk_size=chunk)
            try:
                with files.quiet():
                    out = m.reduce_events(src, limit, output_file=os.path.join(p, 'out.h5'), chunk_size=chunk)
            except Exception as e:
                o.fail('reduce raises', 'reduce_events raises %r' % e, info)
                continue
            got = files.read_nodes(out)
            for k, v in t.items():
                o.count('reduce_events', len(v) > chunk, str(info)[:300])
                if o.check(k in got, 'reduce table', 'reduce_events: no table %s' % k, info):
                    whole(o, 'reduce', 'reduce_events', v, got[k], limit, len(v) <= chunk, info)
        else:
            from contracts import tracks as tr
            h = rows_of(rng, int(rng.choice([1, 5, 40])))
            t = np.zeros(len(h), [('event_number', '<i8'), ('hit_flag', '<u4'), ('quality_flag', '<u4'), ('isolated_track_flag', '<u4'), ('isolated_hit_flag', '<u4'), ('track_chi2', '<f8')])
            t['event_number'] = h['event_number']
            t['hit_flag'] = rng.integers(0, 4, len(t))
            t['track_chi2'] = np.arange(len(t))
            src = files.table_file(os.path.join(p, 'in.h5'), Tracks_DUT0=t)
            tel = files.telescope_file(p, [files.dut_conf(), files.dut_conf(z=1000.)])
            sel = [[1]] if rng.random() < 0.5 else None
            info = dict(events=t['event_number'].tolist(), hit_flag=t['hit_flag'].tolist(), max_events=limit, chunk_size=chunk, select_hit_duts=sel)
            try:
                with files.quiet():
                    out = m.select_tracks(tel, src, [0], output_tracks_file=os.path.join(p, 'out.h5'), max_events=limit, select_hit_duts=sel, chunk_size=chunk)
            except Exception as e:
                o.fail('select raises', 'select_tracks raises %r' % e, info)
                continue
            o.count('select_tracks', sel is not None, str(info)[:300])
            v = t if sel is None else t[(t['hit_flag'] & 2) > 0]
            whole(o, 'select', 'select_tracks', v, files.read_nodes(out)['Tracks_DUT0'], limit, len(t) <= chunk, info)


ORACLE = [('combine_files', oracle_combine), ('limits', oracle_limit)]
BUDGET = 16
TRUSTED = ['PyTables returns the rows asked for and stores the rows appended', 'np.random.choice without replacement returns the given number of different entries, np.unique the different values, np.in1d whether a value is among the given ones',
           'data_aligned_at_events returns chunks of whole events with the position of the next one (C01)']
ASSUME = ['event numbers are sorted and not negative (the order that all tables of the telescope analysis have)', 'real arithmetic in the estimate of the number of events, rounding of a number that is not negative is not negative', 'event numbers stay below 2^63']
BOUNDED = ['files with up to 40 events on the real functions: combine_files, reduce_events, select_tracks with max_events']
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: loop invariants over the chunks (inferred for the state of the loop, then proved), symbolic execution of the current source on one generic chunk, obligations discharged by z3'
LEVEL_NOTE = 'proved for all lengths, chunk sizes and limits in the enumerated configurations of files and tables'
EXPLANATION = ('combine_files: the rows before the position are copied, in order, with the shift of the file; the shift exceeds every event number of the files before. reduce_events and select_tracks: the rows added for a chunk are exactly those of '
               'the chosen events, and the number of chosen events never exceeds the limit; a single chunk gives exactly the limit or all events.')
