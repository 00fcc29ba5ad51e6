"""C30 Parallel chunk processing gives the sequential result."""
import collections
import os

import numpy as np

from vf import symx
from vf.symx import z3, S, SB, A, NP, Loader, explore, call, Raised, PathEnd
from contracts.C24 import Opened
from contracts.C19 import Names
from contracts import files

F = 'beam_telescope_analysis/tools/smc.py'
M = 'beam_telescope_analysis.tools.smc'


class Stop(BaseException):
    pass


class Chunk(object):
    """chunk of the table; two chunks are the same only if they are the same object"""

    def __init__(self, what):
        self.what = what

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise symx.Unsupported('chunk: %s' % k)


class Strict(object):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise symx.Unsupported('%s: %s' % (type(self).__name__, k))


class ArrayLike(Strict):
    pass


class Rec(ArrayLike):
    """rows returned by the function for one chunk"""

    def __init__(self, j):
        self.j = j
        self.dtype = Names(names=('a', 'b'), node=j)
        self.shape = ('rows',)

    def copy(self):
        r = Rec(self.j)
        r.origin = self.__dict__.get('origin', self)
        return r


class H(ArrayLike):
    """histogram: shape and the content of one arbitrary cell"""

    def __init__(self, w, shape, cell, dtype):
        self.w, self._shape, self.cell, self.dtype = w, list(shape), cell, dtype

    shape = property(lambda self: tuple(S(x) for x in self._shape))
    ndim = property(lambda self: len(self._shape))

    def inside(self):
        return z3.And(*[z3.And(x >= 0, x < n) for x, n in zip(self.w.cell, self._shape)])

    def total(self):
        """content, 0 outside"""
        return z3.If(self.inside(), self.cell, z3.IntVal(0))

    def copy(self):
        return H(self.w, self._shape, self.cell, self.dtype)

    def resize(self, *a, **k):
        n = a[0] if len(a) == 1 else a
        n = shape_terms(n)
        if self.ndim != 1 or len(n) != 1:
            # the entries are refilled in the order of memory: unknown content unless the shape stays
            same = z3.And(*[u == v for u, v in zip(n, self._shape)])
            self.cell = z3.If(same, self.cell, self.w.c.fresh('scrambled', z3.IntSort()))
        else:
            self.cell = self.total()
        self._shape = list(n)

    def view(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if k == (Ellipsis,):
            k = (slice(None),) * self.ndim
        if len(k) != self.ndim or not all(isinstance(x, slice) and x.step in (None, 1) and (x.start is None or isinstance(x.start, int) and x.start == 0) for x in k):
            raise symx.Unsupported('part of a histogram')
        out = []
        for x, n in zip(k, self._shape):
            if x.stop is None:
                out.append(n)
                continue
            t = symx.lnum(x.stop).t
            if self.w.c.check([t < 0]) != z3.unsat:
                raise symx.Unsupported('part of a histogram')
            out.append(z3.If(t < n, t, n))
        return View(self, out)

    def __getitem__(self, k):
        return self.view(k)

    def __setitem__(self, k, v):
        a = self.view(k)
        if isinstance(v, View) and v.h is self and all(z3.simplify(x).eq(z3.simplify(y)) for x, y in zip(v.size, a.size)):
            return
        a.put(v)

    def __iadd__(self, o):
        View(self, list(self._shape)).add(o)
        return self

    def __add__(self, o):
        r = self.copy()
        r += o
        return r

    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)

    __hash__ = None


class View(ArrayLike):
    def __init__(self, h, size):
        self.h, self.size = h, size

    shape = property(lambda self: tuple(S(x) for x in self.size))

    def inside(self):
        return z3.And(*[z3.And(x >= 0, x < n) for x, n in zip(self.h.w.cell, self.size)])

    def fits(self, v):
        if isinstance(v, View):
            v = H(self.h.w, v.size, v.h.cell, v.h.dtype)
        if not isinstance(v, H) or len(v._shape) != len(self.size):
            raise symx.Unsupported('content of a histogram')
        self.h.w.c.goal('shapes fit', z3.And(*[x == y for x, y in zip(v._shape, self.size)]))
        return v

    def put(self, v):
        v = self.fits(v)
        self.h.cell = z3.If(self.inside(), v.cell, self.h.cell)

    def add(self, v):
        v = self.fits(v)
        self.h.cell = z3.If(self.inside(), self.h.cell + v.cell, self.h.cell)

    def __iadd__(self, v):
        self.add(v)
        return self

    __hash__ = None


def shape_terms(shape):
    if isinstance(shape, A):
        return [symx.lnum(x).t for x in shape.d]
    return [symx.lnum(x).t for x in (shape if isinstance(shape, (tuple, list)) else (shape,))]


class Numpy(object):
    """numpy with histograms of unknown shape"""

    def __init__(self, w):
        self.w = w
    ndarray = ArrayLike

    def zeros(self, shape, dtype=None):
        return H(self.w, shape_terms(shape), z3.IntVal(0), dtype)

    def zeros_like(self, a, dtype=None):
        if not isinstance(a, H):
            raise symx.Unsupported('zeros_like')
        return H(self.w, a._shape, z3.IntVal(0), dtype or a.dtype)

    def array_equal(self, a, b):
        if isinstance(a, (tuple, A)) and isinstance(b, (tuple, A)):
            u, v = shape_terms(a), shape_terms(b)
            return SB(z3.And(*[x == y for x, y in zip(u, v)]) if len(u) == len(v) else z3.BoolVal(False))
        raise symx.Unsupported('array_equal')

    def __getattr__(self, k):
        return getattr(NP, k)


class Event(Strict):
    def __init__(self, w):
        self.w = w
        w.events.append(self)

    def clear(self):
        self.w.c.goal('events are cleared before the threads start', not self.w.started)

    def set(self):
        w = self.w
        w.trace.append(('set', self))
        if w.thread == 'writer':
            w.opened = self
            w.c.goal('the output file is announced when it is open', any(f.isopen for f in w.outs))

    def is_set(self):
        if self is not self.w.opened:
            return False            # no thread fails
        if self.w.mode == 'wire':
            return True
        r = self.w.choose('opened')
        if r and self.w.thread == 'reader':
            self.w.usable = True
        return r

    isSet = is_set

    def wait(self, timeout=None):
        if timeout is None:
            self.w.usable = True
            return True
        return self.is_set()


class Queue(object):
    """first in, first out between two threads; the next entry may not be there yet"""

    def __init__(self, w, *a, **k):
        if a or k:
            raise symx.Unsupported('queue with options')
        self.w = w
        w.queues.append(self)

    def append(self, x):
        self.w.trace.append(('append', self, x))
        self.w.limit()

    def popleft(self):
        w = self.w
        w.limit()
        return w.pop(self)

    def __len__(self):
        return 10 ** 6 if self.w.choose('queue filled') else 0

    def __bool__(self):
        return len(self) > 0

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise symx.Unsupported('queue: %s' % k)


class TimeoutError_(Exception):
    pass


class Future(Strict):
    def __init__(self, w, value):
        self.w, self.value = w, value

    def get(self, timeout=None):
        self.w.limit()
        if timeout is not None and self.w.choose('result not yet there'):
            raise TimeoutError_()
        self.w.trace.append(('got', self))
        if self.w.pending_result is self:
            self.w.pending_result = None
        return self.value

    def ready(self):
        return not self.w.choose('result not yet there')


class Pool(Strict):
    def __init__(self, w, n):
        self.w, self.n = w, n
        self.closed = self.joined = False
        w.pools.append(self)

    def apply_async(self, func, args=(), kwds={}):
        self.w.c.goal('the pool is open', not self.closed)
        return Future(self.w, func(*args, **kwds))

    def close(self):
        self.w.c.goal('the pool closes after the threads', self.w.joined == len(self.w.started))
        self.closed = True

    def join(self):
        self.joined = True


class Thread(Strict):
    def __init__(self, w, target=None, name=None, args=(), kwargs={}, daemon=None):
        self.w, self.target, self.args, self.kwargs, self.done = w, target, args, kwargs, False

    def start(self):
        self.w.c.goal('threads run together', not self.w.joined)
        self.w.started.append(self)

    def join(self, timeout=None):
        w = self.w
        if not w.ran:
            w.ran = True
            w.run_threads()
        if not self.done:
            self.done = True
            w.joined += 1

    def is_alive(self):
        return not self.done


class OutTable(Strict):
    def __init__(self, w, desc):
        self.w, self.desc, self.rows = w, desc, []

    def append(self, r):
        self.rows.append(r.__dict__.get('origin', r))
        self.w.trace.append(('rows', self, self.rows[-1]))

    def flush(self):
        pass


class OutArray(Strict):
    def __init__(self, w, shape, obj=None):
        self.w, self.shape, self.value = w, shape, obj

    def __setitem__(self, k, v):
        if k not in (slice(None), Ellipsis):
            raise symx.Unsupported('part of a stored array')
        self.value = v


class File(object):
    """output file (and the input file, if it is the same)"""

    def __init__(self, w, nodes):
        self.w, self.nodes, self.isopen, self.closed = w, nodes, True, 0
        self.root = 'root'

    def use(self):
        if not self.isopen:
            self.w.c.goal('file is open', False)
        if self.w.thread == 'reader' and self.w.mode == 'full':
            self.w.c.goal('the reader waits for the output file', self.w.usable)

    def get_node(self, where, name=None):
        self.use()
        import tables
        name = name if name is not None else where.strip('/')
        if name not in self.nodes:
            raise tables.NoSuchNodeError(name)
        return self.nodes[name]

    def create_table(self, where, name, description=None, title='', filters=None, **k):
        self.use()
        return self.create(name, OutTable(self.w, dict(k, description=description, title=title, filters=filters)))

    def create_carray(self, where, name, atom=None, shape=None, title='', filters=None, obj=None, **k):
        self.use()
        return self.create(name, OutArray(self.w, shape, obj))

    create_array = create_carray

    def create(self, name, node):
        import tables
        if name in self.nodes:
            raise tables.NodeError(name)
        self.nodes[name] = node
        return node

    def remove_node(self, where, name=None, recursive=False):
        self.use()
        import tables
        if name not in self.nodes:
            raise tables.NoSuchNodeError(name)
        del self.nodes[name]

    def rename_node(self, where, newname, name=None, overwrite=False):
        self.use()
        import tables
        if newname in self.nodes and not overwrite:
            raise tables.NodeError(newname)
        self.nodes[newname] = self.nodes.pop(name)

    def flush(self):
        pass

    def close(self):
        self.isopen = False
        self.closed += 1
        self.w.trace.append(('close', self))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise symx.Unsupported('file: %s' % k)


class InFile(object):
    def __init__(self, w):
        self.w, self.closed, self.root = w, 0, 'root'

    def list_nodes(self, where, classname=None):
        return [n for n in self.w.in_nodes.values() if classname in (None, 'Table')]

    def get_node(self, where, name=None):
        import tables
        name = name if name is not None else where.strip('/')
        if name not in self.w.in_nodes:
            raise tables.NoSuchNodeError(name)
        return self.w.in_nodes[name]

    def close(self):
        self.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise symx.Unsupported('file: %s' % k)


class Chunks(object):
    """chunks of the table in order: from an arbitrary one on there is another one or not"""

    def __init__(self, w):
        self.w, self.used = w, 0

    def __iter__(self):
        return self

    def __next__(self):
        w = self.w
        w.limit()
        if w.mode == 'wire':
            raise StopIteration
        if self.used:
            # a loop over the chunks: the next pass starts in the same state
            w.one_chunk('loop over the chunks: ')
            raise PathEnd()
        if not w.choose('another chunk'):
            w.trace.append(('end',))
            raise StopIteration
        self.used += 1
        x = Chunk('chunk')
        w.trace.append(('yield', x))
        return x, w.c.int('index')


class TableNode(object):
    def __init__(self, w, name, empty):
        self.w, self.name, self.title, self.filters = w, name, 'title of ' + name, 'filters of ' + name
        self.empty = empty
        self.nrows = 0 if empty else w.n_rows
        self.shape = (self.nrows,)

    def __getitem__(self, k):
        if not self.empty or k not in (slice(None), slice(None, 0), slice(0, 0)):
            raise symx.Unsupported('part of the table')
        x = Chunk('empty')
        self.w.trace.append(('yield', x))
        return x

    def read(self, *a):
        return self[:]


class Waits(object):
    """invariant of the loops of reader and worker: entries taken so far were handed on, in order; every pass hands on the entry it takes"""

    def __init__(self, w, thread):
        self.w, self.t = w, thread

    def entry(self, k, loc):
        pass

    def passes(self, k):
        n = len(self.w.trace)
        yield 1
        while self.w.mode == 'full' and self.w.empty and self.t == 'reader' and n < len(self.w.trace) < 20:
            n = len(self.w.trace)
            yield 1

    def havoc(self, k, names, loc):
        w = self.w
        if w.mode != 'full' or w.thread != self.t:
            return names
        self.start = getattr(self, 'start', {})
        self.start[k] = len(w.trace)
        if w.pending() or w.empty:
            return names
        # what was assigned in an earlier pass is not known
        return {n: v for n, v in names.items() if v is None or isinstance(v, bool)}

    def back(self, k, loc):
        w = self.w
        if w.mode != 'full':
            raise Stop()
        new = w.trace[self.start[k]:]
        if not new:
            return
        if self.t == 'reader':
            w.one_chunk('next pass: ')
        else:
            w.one_result('next pass: ')


class Writes(object):
    """invariant of the loop of the writer: after k results all tables hold their rows in order and all histograms their sum"""

    def __init__(self, w):
        self.w, self.n = w, 0

    def entry(self, k, loc):
        pass

    def passes(self, k):
        self.n = 0
        self.stage = 'first'
        while self.n < 12:
            self.n += 1
            yield 1
        raise symx.Unsupported('passes of the writer')

    def state(self, loc):
        out = {}
        for n, v in loc.items():
            if n.startswith('__vf') or isinstance(v, symx.Undefined):
                continue
            if isinstance(v, list):
                if any(isinstance(x, symx.Undefined) for x in v):
                    continue
                out[n] = ('list',) + tuple((id(x), x.cell.get_id(), tuple(t.get_id() for t in x._shape)) if isinstance(x, H) else id(x) for x in v)
            elif v is None or isinstance(v, bool):
                out[n] = v
        return out

    def havoc(self, k, names, loc):
        w = self.w
        if w.mode != 'full' or w.thread != 'writer' or k:
            if k:
                raise symx.Unsupported('another loop of the writer')
            return names
        c = w.c
        if self.n > 1:
            # end of the pass before
            new = [e for e in w.trace[self.mark:] if e[0] in ('popped', 'got', 'rows')]
            if not new:
                same = self.state(loc) == self.at
                c.goal('%s: a pass without a result changes nothing' % self.stage, same)
                raise PathEnd()
            done = w.processed
            if w.pending_result is not None:
                # taken, but not there yet: the next passes only wait for it
                if [e[0] for e in new] != ['popped']:
                    c.goal('%s: the result is waited for' % self.stage, False)
                    raise PathEnd()
                self.mark, self.at = len(w.trace), self.state(loc)
                return names
            w.written('%s: ' % self.stage, loc)
            if self.stage == 'any':
                flags = {n: v for n, v in loc.items() if v is None or isinstance(v, bool)}
                keep = {n: v for n, v in self.flags.items()}
                c.goal('any: state of the loop as before', all(flags.get(n, 'other') == v for n, v in keep.items()))
                raise PathEnd()
            # an arbitrary number of results later
            self.stage = 'any'
            w.generic(loc)
            out = {}
            for n, v in names.items():
                if v is None or isinstance(v, (bool, list)) or isinstance(v, (OutTable, File)):
                    out[n] = v
                elif isinstance(v, tuple) and v and all(isinstance(x, ArrayLike) for x in v):
                    out[n] = w.last_items()
            self.flags = {n: v for n, v in out.items() if v is None or isinstance(v, bool)}
            full = dict(loc)
            full.update({n: out.get(n, symx.Undefined(n)) for n in names})
            self.mark, self.at = len(w.trace), self.state(full)
            return out
        self.mark, self.at = len(w.trace), self.state(loc)
        return names

    def back(self, k, loc):
        raise Stop() if self.w.mode != 'full' else symx.Unsupported('passes of the writer')


class World(object):
    def __init__(self, c, which, kinds, n_cores, same, empty, mode):
        self.c, self.which, self.kinds, self.n_cores, self.same, self.empty, self.file_mode = c, which, kinds, n_cores, same, empty, mode
        self.events, self.queues, self.pools, self.started, self.outs, self.ins = [], [], [], [], [], []
        self.trace, self.mode, self.thread = [], 'init', 'main'
        self.joined, self.ran, self.ops, self.opened, self.usable = 0, False, 0, None, False
        self.pending_result, self.processed = None, 0
        self.n_rows = c.int('n_rows')
        c.assume(self.n_rows >= 1)
        self.cell = [z3.Int('cell_%d' % i) for i in range(2)]
        c.fact(z3.And(*[x >= 0 for x in self.cell]))
        self.in_nodes = collections.OrderedDict([('Hits', TableNode(self, 'Hits', empty))])
        self.calls = []

    def limit(self):
        self.ops += 1
        if self.ops > 60:
            raise symx.Unsupported('a loop that is not cut')

    def choose(self, what):
        if self.mode == 'wire':
            return False
        return self.c.decide(self.c.fresh(what.replace(' ', '_'), z3.BoolSort()))

    def items(self):
        """what the function returns for one chunk"""
        out = []
        for j, k in enumerate(self.kinds):
            if k == 't':
                out.append(Rec(j))
                continue
            sh = [self.c.fresh('shape', z3.IntSort()) for _ in range(int(k))]
            self.c.fact(z3.And(*[n >= 0 for n in sh]))
            out.append(H(self, sh, self.c.fresh('content', z3.IntSort()), Names(names=None, node=j)))
        return tuple(out)

    def last_items(self):
        return self.items()

    def func(self, data, **kw):
        if not isinstance(data, Chunk):
            raise symx.Unsupported('function of something else than a chunk')
        it = self.items()
        self.calls.append((data, kw, it))
        return it if len(it) > 1 else it[0]

    # ---- queues
    def pop(self, q):
        if self.mode == 'wire':
            self.wiring[self.thread + ' takes'] = q
            if self.thread == 'writer':
                raise Stop()
            return None
        self.c.goal('%s takes from its queue' % self.thread, q is self.wiring[self.thread + ' takes'])
        if self.choose('queue empty'):
            raise IndexError('pop from an empty deque')
        # there is at least one chunk (a table with rows has one: C01; for an empty table the reader gives one)
        if (self.thread == 'worker' or self.processed) and self.choose('end of the queue'):
            self.trace.append(('popped', None))
            return None
        if self.thread == 'worker':
            x = Chunk('chunk')
            self.trace.append(('popped', x))
            return x
        it = self.items()
        self.current = it
        value = it if len(it) > 1 else it[0]
        r = value if self.n_cores == 1 else Future(self, value)
        self.trace.append(('popped', r))
        self.fetched = r
        if self.n_cores != 1:
            self.pending_result = r
        return r

    def pending(self):
        """taken, but not handed on"""
        n = 0
        for e in self.trace:
            n += {'yield': 1, 'append': -1}.get(e[0], 0)
            n += e[0] == 'popped' and e[1] is not None
        return n > 0

    def one_chunk(self, tag):
        tr = [e for e in self.trace if e[0] in ('yield', 'append', 'end')]
        self.c.goal(tag + 'the chunk is handed on once', [e[0] for e in tr] == ['yield', 'append'] and tr[1][1] is self.wiring['reader gives'] and tr[1][2] is tr[0][1])

    def one_result(self, tag):
        tr = [e for e in self.trace if e[0] in ('popped', 'append')]
        okay = [e[0] for e in tr] == ['popped', 'append'] and len(self.calls) == 1
        self.c.goal(tag + 'one result for one chunk', okay and tr[1][1] is self.wiring['worker gives'])
        if not okay:
            return
        data, kw, it = self.calls[0]
        r = tr[1][2]
        if self.n_cores != 1:
            self.c.goal(tag + 'result of the pool', isinstance(r, Future))
            r = r.value if isinstance(r, Future) else None
        self.c.goal(tag + 'result of the function for this chunk', data is tr[0][1] and r is not None and (r is it or len(it) == 1 and r is it[0]))
        self.c.goal(tag + 'arguments of the function', kw == {'extra': 7})

    # ---- writer
    def written(self, tag, loc):
        """after one more result"""
        c = self.c
        rows = [e for e in self.trace if e[0] == 'rows']
        want = [(j, it) for j, it in enumerate(self.current) if isinstance(it, Rec)]
        c.goal(tag + 'rows of the result are added once to every table', len(rows) == len(want) and all(e[2] is it for e, (j, it) in zip(sorted(rows, key=lambda e: e[2].j), want)))
        c.goal(tag + 'every table of its own', len(set(id(e[1]) for e in rows)) == len(rows))
        if tag.startswith('first'):
            self.tables = {e[2].j: e[1] for e in rows}
        else:
            c.goal(tag + 'the same tables', all(self.tables.get(e[2].j) is e[1] for e in rows))
        hs = [x for v in loc.values() if isinstance(v, list) for x in v if isinstance(x, H)]
        n = [k for k in self.kinds if k != 't']
        if len(hs) != len(n):
            raise symx.Unsupported('histograms kept in another way')
        its = [it for it in self.current if isinstance(it, H)]
        if tag.startswith('first'):
            self.before = [None] * len(n)
        for j, (h, it, old) in enumerate(zip(hs, its, self.before)):
            if len(h._shape) != len(it._shape):
                c.goal('%shistogram %d: dimensions' % (tag, j), False)
                continue
            size = [x for x in it._shape] if old is None else [z3.If(x > y, x, y) for x, y in zip(it._shape, old._shape)]
            c.goal('%shistogram %d: shape' % (tag, j), z3.And(*[x == y for x, y in zip(h._shape, size)]))
            c.goal('%shistogram %d: sum of all results' % (tag, j), h.total() == (it.total() if old is None else old.total() + it.total()))
        self.hists = hs
        self.processed += 1

    def generic(self, loc):
        """histograms after any number of results"""
        self.trace = []
        self.before = []
        for h in self.hists:
            h._shape = [self.c.fresh('shape_k', z3.IntSort()) for _ in h._shape]
            self.c.fact(z3.And(*[n >= 0 for n in h._shape]))
            h.cell = self.c.fresh('content_k', z3.IntSort())
            self.before.append(h.copy())
        for t in self.tables.values():
            t.rows = ['rows of all results so far']

    # ---- threads
    def run_threads(self):
        c = self.c
        c.goal('three threads', len(self.started) == 3)
        bodies = {}
        for t in self.started:
            names = [x.__name__ for x in [t.target] + list(t.args) if callable(x) and hasattr(x, '__name__')]
            for key, nm in (('reader', '_reader'), ('worker', '_async_worker'), ('writer', '_writer')):
                if nm in names:
                    bodies[key] = t
        if len(bodies) != 3:
            raise symx.Unsupported('threads of other functions')
        self.wiring = {}
        self.mode = 'wire'
        for key in ('writer', 'reader', 'worker'):
            self.thread, self.trace = key, []
            t = bodies[key]
            try:
                t.target(*t.args, **t.kwargs)
            except Stop:
                pass
            given = [e[1] for e in self.trace if e[0] == 'append']
            if given:
                self.wiring[key + ' gives'] = given[-1]
        need = ('reader gives', 'worker takes', 'worker gives', 'writer takes')
        c.goal('the queues connect the threads', all(k in self.wiring for k in need) and self.wiring['reader gives'] is self.wiring['worker takes'] and
               self.wiring['worker gives'] is self.wiring['writer takes'] and self.wiring['reader gives'] is not self.wiring['worker gives'])
        if not all(k in self.wiring for k in need):
            raise PathEnd()
        self.mode, self.thread, self.trace, self.usable, self.ops = 'full', self.which, [], False, 0
        self.calls = []
        if self.which == 'writer':
            for f in self.outs:
                f.isopen = False
            del self.outs[:]
        t = bodies[self.which]
        t.target(*t.args, **t.kwargs)
        getattr(self, 'after_' + self.which)()
        self.mode, self.thread = 'main', 'main'

    def after_reader(self):
        c = self.c
        tr = [e for e in self.trace if e[0] in ('yield', 'append', 'end')]
        want = ['yield', 'append', 'append'] if self.empty else ['end', 'append']
        c.goal('reader: after the last chunk the end is marked', [e[0] for e in tr] == want and tr[-1][2] is None)
        if self.empty and [e[0] for e in tr] == want:
            c.goal('reader: an empty table is one empty chunk', tr[0][1] is tr[1][2])
        if not self.same:
            c.goal('reader: input file is closed', len(self.ins) >= 1 and all(f.closed == 1 for f in self.ins))
        else:
            c.goal('reader: the file stays open for the writer', not any(e[0] == 'close' for e in self.trace))

    def after_worker(self):
        tr = [e for e in self.trace if e[0] in ('popped', 'append')]
        self.c.goal('worker: the end is handed on', [e[0] for e in tr] == ['popped', 'append'] and tr[0][1] is None and tr[1][2] is None and not self.calls)

    def after_writer(self):
        c = self.c
        c.goal('writer: it ends with the end of the results', [e[1] for e in self.trace if e[0] == 'popped'][-1:] == [None])
        c.goal('writer: one output file, closed at the end', len(self.outs) == 1 and self.outs[0].closed == 1 and self.trace[-1][0] == 'close')
        if self.processed == 0:
            return
        f = self.outs[0]
        j = 0
        for i, k in enumerate(self.kinds):
            node = f.nodes.get(self.names[i])
            if k == 't':
                c.goal('writer: table %d' % i, isinstance(node, OutTable) and node is self.tables.get(i))
                if isinstance(node, OutTable):
                    c.goal('writer: table %d holds all rows' % i, node.rows == ['rows of all results so far'])
                    d = node.desc
                    c.goal('writer: table %d: format of the result, filters of the input' % i, getattr(d['description'], 'node', None) == i and d['filters'] == 'filters of Hits')
            else:
                okay = isinstance(node, OutArray) and isinstance(node.value, H)
                c.goal('writer: histogram %d' % i, okay)
                if okay:
                    h = node.value
                    b = self.before[j]
                    c.goal('writer: histogram %d: shape' % i, z3.And(*[x == y for x, y in zip(h._shape, b._shape)]))
                    c.goal('writer: histogram %d: shape of the node' % i, z3.And(*[x == y for x, y in zip(shape_terms(node.shape), b._shape)]))
                    c.goal('writer: histogram %d: sum' % i, h.total() == b.total())
                j += 1
        left = set(f.nodes) - set(self.names)
        c.goal('writer: other nodes stay', left == set(self.others))


def smc(which, kinds, n_cores, same, empty=False, names=None, mode=None):
    def run(c):
        import tables
        mode_ = mode or ('r+' if same else 'w')
        w = World(c, which, kinds, n_cores, same, empty, mode_)
        m = Loader(cut={'_reader': Waits(w, 'reader'), '_async_worker': Waits(w, 'worker'), '_writer': Writes(w)}, load={'smc'}).module(M)
        w.names = names or ['Out%d' % i for i in range(len(kinds))]
        old = collections.OrderedDict() if mode_ == 'w' else collections.OrderedDict((k, Names(name=k)) for k in ['Kept', w.names[0]] if k != 'Hits')
        w.others = [k for k in old if k not in w.names] + (['Hits'] if same and 'Hits' not in w.names else [])

        def open_file(filename, mode='r', **k):
            if k:
                raise symx.Unsupported('options of open_file')
            if w.thread != 'writer':
                if filename != 'in.h5' or mode != 'r':
                    raise symx.Unsupported('file opened by the %s' % w.thread)
                if same and w.thread != 'main':
                    c.goal('the file is open already', False)
                f = InFile(w)
                if w.thread == 'reader' and w.mode == 'full':
                    w.ins.append(f)
                return f
            c.goal('output file', filename == ('in.h5' if same else 'out.h5') and mode == mode_)
            nodes = collections.OrderedDict(old)
            if same:
                nodes['Hits'] = w.in_nodes['Hits']
            w.outs.append(File(w, nodes))
            return w.outs[-1]
        m.tb = Names(open_file=open_file, NodeError=tables.NodeError, NoSuchNodeError=tables.NoSuchNodeError, Atom=Names(from_dtype=lambda d: d))
        m.np = Numpy(w)
        m.Pool = lambda n=None: Pool(w, n)
        m.cpu_count = lambda: 3
        m.TimeoutError = TimeoutError_
        m.Thread = lambda **k: Thread(w, **k)
        m.Event = lambda: Event(w)
        m.deque = lambda *a, **k: Queue(w, *a, **k)
        m.dill = Names(dumps=lambda x: ('payload', x), loads=lambda x: x[1])

        def aligned(table, start_index=None, stop_index=None, chunk_size=10000000, try_speedup=False, first_event_aligned=True, fail_on_missing_events=True):
            c.goal('chunks of the table', table is w.in_nodes['Hits'] and start_index is None and stop_index is None and chunk_size == 1234)
            return Chunks(w)
        m.analysis_utils = Names(data_aligned_at_events=aligned)
        desc = [dict(name=k) for k in w.names] if names is None or len(kinds) > 1 else None
        r = call(m.SMC, input_filename='in.h5', output_filename='in.h5' if same else 'out.h5', func=w.func, func_kwargs={'extra': 7}, node_desc=desc[0] if desc and len(desc) == 1 else desc,
                 table='Hits' if kinds != ('t',) else None, align_at='event_number', n_cores=n_cores, mode=mode_, chunk_size=1234)
        if isinstance(r, Raised):
            c.goal('no error (%s)' % r.ex, False)
            return
        c.goal('all threads have ended', len(w.started) == 3 and w.joined == 3 and w.ran)
        c.goal('the pool is closed', len(w.pools) == 1 and w.pools[0].closed and w.pools[0].joined)
    return explore('%s, results %s, %s%s%s' % (which, ' '.join(kinds), 'one process' if n_cores == 1 else 'several processes', ', same file' if same else '', ', empty table' if empty else ''), F, run)


def pickled():
    """apply_async runs the function with its arguments, in another process"""
    def run(c):
        m = Loader(load={'smc'}).module(M)
        m.dill = Names(dumps=lambda x: ('payload', x), loads=lambda x: x[1])
        got = []

        class P(object):
            def apply_async(self, func, args=(), kwds={}):
                got.append('asked')
                return ('future', func(*args, **kwds))
        for args in (None, ('a', 5)):
            del got[:]
            r = call(m.apply_async, P(), 'data', lambda *a, **k: (a, k), args=args, func_kwargs={'p': 3})
            if isinstance(r, Raised):
                c.goal('no error (%s)' % r.ex, False)
                return
            c.goal('result of the function', r == ('future', (('data',) + (args or ()), {'p': 3})) and got == ['asked'])
    return explore('apply_async', F, run)


CASES = [('reader', ('t',), 3, False), ('reader', ('1',), 1, True), ('reader', ('t',), 3, False, True), ('reader', ('t',), 2, True, True),
         ('worker', ('t',), 3, False), ('worker', ('t', '1'), 1, False), ('worker', ('2',), 2, True),
         ('writer', ('t',), 3, False), ('writer', ('t',), 1, False, False, ['Hits']), ('writer', ('1',), 3, False), ('writer', ('2',), 3, False), ('writer', ('t', 't'), 2, False), ('writer', ('t', '2', '1'), 3, False),
         ('writer', ('1', 't'), 1, True), ('writer', ('t',), 3, True, False, ['Hits']), ('writer', ('2',), 1, False, False, None, 'a')]
SYM = [('%s %d' % (a[0], i), F + ':SMC', lambda a=a: smc(*a)) for i, a in enumerate(CASES)] + [('apply_async', F + ':apply_async', pickled)]


def CONTRACTS():
    return []


def work(data, kinds=(), scale=1, slow=0):
    """rows and histograms of one chunk, after a time that depends on the data"""
    import time as t
    import numpy as np
    if slow and data.shape[0]:
        t.sleep(slow * (int(data['event_number'][0]) % 3))
    if scale < 0 and data.shape[0] and data['event_number'][-1] >= -scale:
        raise ValueError('broken chunk')
    out = []
    for k in kinds:
        if k == 't':
            sel = data[data['charge'] > 2]
            r = np.zeros(sel.shape[0], [('event_number', 'i8'), ('value', 'f8')])
            r['event_number'] = sel['event_number']
            r['value'] = sel['charge'] * scale
            out.append(r)
        elif k == 'r':
            out.append(data.copy())
        elif k == '1':
            out.append(np.bincount(data['column'].astype(np.int64)) * scale)
        elif k == '2':
            h = np.zeros((int(data['column'].max()) + 1, int(data['row'].max()) + 1) if data.shape[0] else (1, 1), np.int64)
            np.add.at(h, (data['column'], data['row']), scale)
            out.append(h)
    return tuple(out) if len(out) > 1 else out[0]


def limited(f, seconds=60):
    """result, or error, of a call that must end"""
    import threading
    got = []

    def run():
        try:
            got.append(('ok', f()))
        except Exception as e:
            got.append(('error', e))
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(seconds)
    return got[0] if got else ('hangs', None)


def padded(h, shape):
    r = np.zeros(shape, h.dtype)
    r[tuple(slice(n) for n in h.shape)] = h
    return r


def oracle_smc(o):
    import logging
    import tables as tb
    import functools
    m = o.mod('tools.smc')
    logging.disable(logging.CRITICAL)
    d = files.Dir(o, 'smc')
    rng = o.rng
    k = 0
    plans = [(('t',), 3), (('2',), 3), (('t', '2', '1'), 2), (('r',), 1), (('1',), 2), (('2', 't'), 1), (('t',), 'empty'), (('2', 't'), 'empty'), (('t',), 'error'), (('r',), 'same'), (('2',), 'same'), (('2', 't'), 'error')]
    while o.more() or k < len(plans):
        kinds, how = plans[k % len(plans)]
        k += 1
        p = d.new()
        ev = files.multi_events(rng, int(rng.integers(1, 60)), 4) if how != 'empty' else np.zeros(0, np.int64)
        if not len(ev) and how != 'empty':
            ev = np.array([3], np.int64)
        hits = np.zeros(len(ev), files.HIT_DT)
        hits['event_number'] = ev
        hits['column'] = rng.integers(0, 4, len(ev)) + ev // 8
        hits['row'] = rng.integers(0, 3, len(ev)) + (60 - ev) // 5
        hits['charge'] = rng.integers(0, 9, len(ev))
        src = files.table_file(os.path.join(p, 'in.h5'), Hits=hits)
        out = os.path.join(p, 'out.h5') if how != 'same' else src
        size = int(rng.choice([6, 7, 9, 20, 1000]))
        n_cores = how if isinstance(how, int) else int(rng.integers(1, 4))
        scale = 3 if how != 'error' else -int(ev[len(ev) // 2]) - 1
        names = ['Out%d' % i for i in range(len(kinds))]
        if how == 'same' and kinds == ('r',):
            names = ['Hits']
        kw = dict(kinds=kinds, scale=scale, slow=float(rng.choice([0, 0.02])))
        what = 'results %s, %d rows, chunks of %d, %d processes, %s' % (' '.join(kinds), len(ev), size, n_cores, how)
        with files.quiet():
            st, r = limited(lambda: m.SMC(input_filename=src, output_filename=out, func=work, func_kwargs=kw, node_desc=[dict(name=n) for n in names], table='Hits', align_at='event_number', n_cores=n_cores,
                                          mode='r+' if how == 'same' else 'w', chunk_size=size) and None)
        broken = how == 'error' and len(ev) and ev[-1] >= -scale
        o.count('SMC', len(ev) > size, what)
        if st == 'hangs':
            o.fail('hangs', 'SMC does not end: ' + what, dict(what=what))
            return
        if broken:
            o.check(st == 'error', 'error', 'error of a process is not reported: ' + what, dict(what=what))
            continue
        if not o.check(st == 'ok', 'raises', 'SMC raises %r: %s' % (r, what), dict(what=what, events=ev.tolist())):
            continue
        want = work(hits, **kw)
        want = want if isinstance(want, tuple) else (want,)
        got = files.read_nodes(out)
        for n, w in zip(names, want):
            if not o.check(n in got, 'node', 'output node is missing: ' + what, dict(what=what, node=n)):
                continue
            g = got[n]
            data = dict(what=what, node=n, events=ev.tolist(), got=str(g)[:400], expected=str(w)[:400])
            if w.dtype.names:
                o.check(g.shape == w.shape and g.dtype.names == w.dtype.names and all(np.array_equal(g[c], w[c]) for c in w.dtype.names), 'rows', 'rows differ from those of the whole table: ' + what, data)
            else:
                o.check(g.shape == w.shape and np.array_equal(g, w), 'histogram', 'histogram differs from that of the whole table: ' + what, data)
        if how == 'same' and names != ['Hits']:
            o.check(np.array_equal(got.get('Hits'), hits), 'input', 'input table changed: ' + what, dict(what=what))


ORACLE = [('SMC', oracle_smc)]
BUDGET = 30
TRUSTED = ['collections.deque is first in, first out for one thread that appends and one that takes', 'multiprocessing.Pool and dill run the function with the given arguments and return its result, Thread.join waits for the end of the thread',
           'PyTables stores what is appended', 'data_aligned_at_events returns the table in chunks that end with an event, at least one for a table with rows (C01)',
           'one file may be read by the reader while the writer appends to it (same-file mode)']
ASSUME = ['no thread and no call of the function fails (errors: bounded check)', 'every waiting loop ends (fair scheduling); termination is not proved', 'the function depends only on its chunk, contents of histograms are integers (no rounding of sums)']
BOUNDED = ['SMC with 1 to 3 real processes, tables up to 240 rows, chunk sizes 6 to 1000, functions of random duration, errors in the function, empty tables, same file']
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: rely-guarantee contracts of reader, worker and writer over the queues between them, loop invariants, symbolic execution of the current source, obligations discharged by z3'
LEVEL_NOTE = 'proved for every interleaving of the threads and all chunks: each thread is verified against its queues, on which the next entry may or may not be there at every step'
EXPLANATION = ('The reader is proved to hand on every chunk once and in order and then the end, the worker to hand on one result of the function per chunk in the same order, the writer to add the rows of every result to every table once and in '
               'order and to keep histograms of the largest shape with the sum of all results. Every try to take an entry may find none yet, every result may not be there yet, so all schedules are covered.')
