"""C28 Hit coordinate conversion changes coordinates only and is reversible."""
import collections
import os

import numpy as np

from vf import symx
from vf.symx import z3, S, A, Tab, Dom, Loader, explore, call, Raised
from contracts.C24 import Opened, OutTable, AnyName, same, apply
from contracts.C19 import Names, Node, Group
from contracts import files

F = 'beam_telescope_analysis/hit_analysis.py'
M = 'beam_telescope_analysis.hit_analysis'


class Dut(object):
    """contracts of the index conversions (C09): the centre of a pixel, and back with an error of floating point arithmetic below half a pixel"""

    def __init__(self, c, name):
        self.c, self.name, self.centres = c, name, {}

    def column(self, v):
        if not isinstance(v, A) or v.ndim != 1 or v.gen[0] is None:
            raise symx.Unsupported('conversion of something else than columns')
        return v

    def index_to_local_position(self, column, row):
        column, row = self.column(column), self.column(row)
        r = apply(self.name + '_centre', [column, row], column.gen[0], 2)
        x, y = r[:, 0], r[:, 1]
        self.centres[tuple(symx.cells(x)[0].get_id() for x in (x, y))] = column.copy(), row.copy(), x, y
        return x, y, symx.NP.zeros_like(x)

    def local_position_to_index(self, x, y, z=None):
        x, y = self.column(x), self.column(y)
        if z is not None and not (isinstance(z, (int, float)) and z == 0):
            raise symx.Unsupported('height over the sensor')
        index = apply(self.name + '_index', [x, y], x.gen[0], 2)
        known = self.centres.get(tuple(symx.cells(v)[0].get_id() for v in (x, y)))
        if known is not None:
            for i in range(2):
                v = index.d[0, i].r - symx.lnum(known[i].d[0]).r
                self.c.fact(z3.And(v > z3.RealVal('-1/2'), v < z3.RealVal('1/2')))
        return index[:, 0], index[:, 1]


EXTRA = [('frame', '<u2'), ('charge', '<f4')]


class File(object):
    def __init__(self, hits=None, others=()):
        self.tables = collections.OrderedDict()
        self.hits = hits

    @property
    def root(self):
        return Root(self)

    def get_node(self, where, name=None):
        path = name if name is not None else where
        if str(path).strip('/') != 'Hits' or self.hits is None:
            raise symx.Unsupported('node %s' % path)
        return self.hits

    def create_table(self, where, name, description=None, title='', filters=None, **k):
        import tables
        if name in self.tables:
            raise tables.NodeError(name)
        self.tables[name] = OutTable(description)
        return self.tables[name]


class Root(object):
    def __init__(self, f):
        self.f = f

    Hits = property(lambda self: self.f.get_node('Hits'))

    def __iter__(self):
        return iter([Group(), self.f.hits])


def space(c, m, disk, outs):
    """the functions the conversion relies on, as their contracts"""
    import tables

    def open_file(filename, mode='r', **k):
        if mode == 'r':
            return Opened(disk[filename])
        outs[filename] = File()
        return Opened(outs[filename])
    m.tb = Names(open_file=open_file, NodeError=tables.NodeError, NoSuchNodeError=tables.NoSuchNodeError, Filters=lambda **k: None, Group=Group, Table=Node, group=Names(Group=Group), table=Names(Table=Node))

    def aligned(table, start_index=None, stop_index=None, chunk_size=10000000, try_speedup=False, first_event_aligned=True, fail_on_missing_events=True):
        if start_index is not None or stop_index is not None:
            raise symx.Unsupported('part of the table')
        for i, t in enumerate(table.chunks):
            yield t.copy(), c.int('position_%d' % i)
    m.analysis_utils = Names(data_aligned_at_events=aligned)
    m.tqdm = lambda *a, **k: AnyName()


def hits(c, tag, chunks, columns, first, extra):
    """node with chunks of generic hits"""
    out = []
    for k in range(chunks):
        base = '%s%d' % (tag, k)
        cols = collections.OrderedDict()
        for nm in columns:
            kind = 'f' if nm in ('x', 'y', 'z', 'charge', 'weight') else 'i'
            cols[nm] = c.arr('%s_%s' % (base, nm), ('n',), row=base, kind=kind)
            if nm in ('column', 'row'):
                v = symx.lnum(cols[nm].d[0]).t
                c.fact(z3.And(v >= 1, v <= 65535))
        out.append(Tab(cols, Dom(base)))
    types = dict(event_number='<i8', frame='<u2', column='<u2', row='<u2', charge='<f4', x='<f8', y='<f8', z='<f8', weight='<f8', cluster_ID='<i2')
    return Node(name='Hits', _v_name='Hits', shape=(c.int(tag + '_rows'),), dtype=np.dtype([(nm, types[nm]) for nm in columns]), title='Hits', chunks=out), types


def one(columns, chunks, given, there_and_back):
    def run(c):
        m = Loader().module(M)
        dut = Dut(c, 'DUT0')
        node, types = hits(c, 'hits', chunks, columns, True, None)
        disk, outs = {'dir/in.h5': File(node)}, {}
        space(c, m, disk, outs)
        before = [t.copy() for t in node.chunks]

        def step(src, dst, to_local, tag, old, dtype):
            r = call(m.convert_coordinates, dut=dut, input_hit_file=src, output_hit_file=dst if given else None, index_to_local=to_local)
            if isinstance(r, Raised):
                c.goal(tag + 'no error (%s)' % r.ex, False)
                return None
            c.goal(tag + 'the output file is returned', isinstance(r, str) and r in outs and (r == dst or not given) and r != src)
            if not (isinstance(r, str) and r in outs):
                return None
            got = outs[r]
            okay = list(got.tables) == ['Hits'] and len(got.tables['Hits'].rows) == len(old) and all(isinstance(t, Tab) for t in got.tables['Hits'].rows)
            c.goal(tag + 'table of hits with every chunk', okay)
            if not okay:
                return None
            want = collections.OrderedDict()
            for nm in dtype.names:
                if to_local and nm in ('column', 'row'):
                    want['x' if nm == 'column' else 'y'] = np.dtype('<f8')
                elif not to_local and nm in ('x', 'y'):
                    want['column' if nm == 'x' else 'row'] = np.dtype('<u2')
                elif to_local or nm != 'z':
                    want[nm] = dtype[nm]
            desc = got.tables['Hits'].description
            desc = desc if isinstance(desc, np.dtype) else np.dtype(desc.descr if isinstance(desc, symx.TabDtype) else desc)
            c.goal(tag + 'columns', list(desc.names) == list(want) and all(desc[k] == want[k] if k not in ('column', 'row') else desc[k].kind in 'ui' and desc[k].itemsize >= 2 for k in want))
            for j, (o, t) in enumerate(zip(old, got.tables['Hits'].rows)):
                c.goal('%schunk %d: rows in order' % (tag, j), t.dom.base == o.dom.base and list(t.cols) == list(want))
                if list(t.cols) != list(want):
                    return None
                c.goal('%schunk %d: every row' % (tag, j), t.dom.guard)
                for k in want:
                    if k in o.cols and not (to_local and k in 'xy'):
                        same(c, '%schunk %d: %s unchanged' % (tag, j, k), t.cols[k].d[0], o.cols[k].d[0])
                if to_local:
                    p = apply('DUT0_centre', [o.cols['column'], o.cols['row']], o.dom, 2)
                    for k, v in zip('xy', (p[:, 0], p[:, 1])):
                        same(c, '%schunk %d: %s is the centre of the pixel' % (tag, j, k), t.cols[k].d[0], v.d[0])
                else:
                    p = apply('DUT0_index', [o.cols['x'], o.cols['y']], o.dom, 2)
                    for k, v in zip(('column', 'row'), (p[:, 0], p[:, 1])):
                        # the nearest index
                        u, w = symx.lnum(t.cols[k].d[0]), symx.lnum(v.d[0])
                        c.goal('%schunk %d: %s is the nearest index' % (tag, j, k), z3.And(w.r - u.r <= z3.RealVal('1/2'), u.r - w.r <= z3.RealVal('1/2')))
            return r, [t.copy() for t in got.tables['Hits'].rows], desc
        a = step('dir/in.h5', 'dir/there.h5', 'column' in columns, '', before, node.dtype)
        if a is None or not there_and_back:
            return
        disk[a[0]] = File(Node(name='Hits', _v_name='Hits', shape=node.shape, dtype=a[2], title='Hits', chunks=a[1]))
        b = step(a[0], 'dir/back.h5', False, 'back: ', a[1], a[2])
        if b is None:
            return
        for j, (o, t) in enumerate(zip(before, b[1])):
            for k in o.cols:
                same(c, 'chunk %d: %s restored' % (j, k), t.cols[k].d[0], o.cols[k].d[0])
    return explore('convert_coordinates, %s, %d chunks%s' % (' '.join(columns), chunks, ', file given' if given else ''), F, run)


def wrapper(n, select, outputs, to_local):
    """convert: every file with the detector selected at its place"""
    def run(c):
        m = Loader().module(M)
        duts = [Names(name='DUT%d' % i) for i in range(n)]

        class Telescope(object):
            def __init__(self, f):
                c.goal('the given telescope', f == 'telescope')

            def __len__(self):
                return n

            def __getitem__(self, i):
                if isinstance(i, bool) or not isinstance(i, int) or not 0 <= i < n:
                    raise KeyError(i)
                return duts[i]

            def __iter__(self):
                return iter(duts)

            dut = property(lambda self: dict(enumerate(duts)))
        m.Telescope = Telescope
        asked = []

        def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_local=True, chunk_size=1000000):
            asked.append((dut, input_hit_file, output_hit_file, index_to_local, chunk_size))
            return 'output %s' % input_hit_file
        m.convert_coordinates = convert_coordinates
        sel = list(range(n)) if select is None else select
        inp = ['in%d' % i for i in range(len(sel))]
        out = ['out%d' % i for i in range(len(sel))] if outputs else None
        r = call(m.convert, telescope_configuration='telescope', input_hit_files=list(inp), output_hit_files=out and list(out), select_duts=select and list(select), index_to_local=to_local, chunk_size=77)
        if any(not 0 <= i < n for i in sel):
            c.goal('unknown detectors are refused', isinstance(r, Raised) and isinstance(r.ex, ValueError) and not asked)
            return
        if isinstance(r, Raised):
            c.goal('no error (%s)' % r.ex, False)
            return
        c.goal('every file with its detector', [(a[0], a[1]) for a in asked] == [(duts[i], f) for i, f in zip(sel, inp)])
        c.goal('options', all(a[2] == (out[k] if out else None) and a[3] == to_local and a[4] == 77 for k, a in enumerate(asked)))
        c.goal('output files', r == ['output %s' % f for f in inp])
    return explore('convert, %d DUTs, %s' % (n, select), F, run)


CASES = [(('event_number', 'frame', 'column', 'row', 'charge'), 2, True, True), (('event_number', 'frame', 'row', 'charge', 'column', 'cluster_ID', 'weight'), 1, False, True),
         (('event_number', 'column', 'row'), 1, False, True), (('event_number', 'x', 'y', 'z', 'charge', 'frame'), 2, False, False), (('event_number', 'y', 'x', 'weight'), 1, True, False)]
WRAP = [(2, None, False, True), (3, [2, 0], True, True), (3, [1], False, False), (2, [0, 2], False, True), (12, [11, 1, 10], True, False), (2, [-1], False, True)]
SYM = [('convert_coordinates %d' % i, F + ':convert_coordinates', lambda a=a: one(*a)) for i, a in enumerate(CASES)] + \
      [('convert %d' % i, F + ':convert', lambda a=a: wrapper(*a)) for i, a in enumerate(WRAP)]


def CONTRACTS():
    return []


def sensor(rng, typ):
    small = typ == 'RectangularPixelDut'
    return files.dut_conf(typ=typ, x=float(rng.uniform(-500, 500)), g=float(rng.uniform(-0.2, 0.2)), **(dict(cs=float(rng.choice([18.4, 50.0, 50.1, 250.0])), rs=float(rng.choice([18.4, 33.3, 50.0])),
                          nc=int(rng.integers(1, 600)), nr=int(rng.integers(1, 600))) if small else {}))


def oracle_convert(o):
    """real files: centres of the pixels by an own formula, everything else unchanged, and back again"""
    rng = o.rng
    ha = o.mod('hit_analysis')
    import tqdm
    ha.tqdm = lambda *a, **k: tqdm.tqdm(*a, **dict(k, disable=True))
    box = files.Dir(o, 'convert')
    while o.more():
        n = int(rng.integers(1, 4))
        conf = [sensor(rng, str(rng.choice(['RectangularPixelDut', 'FEI4', 'Mimosa26', 'PSI46']))) for _ in range(n)]
        d0 = box.new()
        tel = files.telescope_file(d0, conf)
        with files.quiet():
            duts = list(o.mod('telescope.telescope').Telescope(tel))
        sel = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
        use = sel if rng.random() < 0.7 else None
        if use is None:
            sel = list(range(n))
        tabs, inp = [], []
        for k, d in enumerate(sel):
            ev = files.multi_events(rng, int(rng.integers(1, 12)), 5)
            extra = [('cluster_ID', '<i2')] if rng.random() < 0.3 else []
            a = np.zeros(len(ev), files.HIT_DT.descr + extra)
            a['event_number'] = ev
            a['frame'], a['charge'] = rng.integers(0, 65536, len(ev)), rng.random(len(ev))
            a['column'], a['row'] = rng.integers(1, duts[d].n_columns + 1, len(ev)), rng.integers(1, duts[d].n_rows + 1, len(ev))
            if len(a) and rng.random() < 0.3:
                a['column'][0], a['row'][-1] = duts[d].n_columns, duts[d].n_rows
            tabs.append(a)
            inp.append(os.path.join(d0, 'in%d.h5' % k))
            files.table_file(inp[-1], Hits=a)
        names = rng.random() < 0.6
        there = [os.path.join(d0, 'there%d.h5' % k) for k in range(len(sel))]
        back = [os.path.join(d0, 'back%d.h5' % k) for k in range(len(sel))]
        size = int(rng.choice([1000, 7]))
        text = 'convert of %s, DUTs %s, chunks of %d, %s' % (conf, use, size, 'files given' if names else 'own file names')
        info = dict(tables=tabs, arguments=text)
        try:
            with files.quiet():
                r1 = ha.convert(telescope_configuration=tel, input_hit_files=inp, output_hit_files=there if names else None, select_duts=use, index_to_local=True, chunk_size=size)
                r2 = ha.convert(telescope_configuration=tel, input_hit_files=r1, output_hit_files=back if names else None, select_duts=use, index_to_local=False, chunk_size=size)
        except Exception as ex:
            o.fail('convert error', '%s raises %r' % (text, ex), info)
            continue
        o.count('convert', nontrivial=any(len(a) for a in tabs), sample=text)
        o.check(not names or r1 == there and r2 == back, 'convert files', '%s: files %s, %s' % (text, r1, r2), info)
        for k, d in enumerate(sel):
            a, b, e = tabs[k], files.read_nodes(r1[k])['Hits'], files.read_nodes(r2[k])['Hits']
            dut = duts[d]
            o.check(len(a) == len(b) == len(e), 'convert rows', '%s: %d and %d rows instead of %d' % (text, len(b), len(e), len(a)), info)
            want = (a['column'] - 0.5 - dut.n_columns / 2.0) * dut.column_size, (a['row'] - 0.5 - dut.n_rows / 2.0) * dut.row_size
            for nm, w in zip('xy', want):
                o.check(np.allclose(b[nm], w, rtol=0, atol=1e-6), 'convert centre', '%s: DUT %d: %s is %s, expected %s' % (text, d, nm, b[nm].tolist(), w.tolist()), info)
            for nm in a.dtype.names:
                if nm not in ('column', 'row'):
                    o.check(nm in b.dtype.names and np.array_equal(b[nm], a[nm]), 'convert other columns', '%s: column %s of DUT %d changes' % (text, nm, d), info)
                o.check(nm in e.dtype.names and np.array_equal(e[nm], a[nm]), 'convert back', '%s: %s of DUT %d comes back as %s instead of %s' % (text, nm, d, e[nm].tolist() if nm in e.dtype.names else None, a[nm].tolist()), info)


ORACLE = [('convert', oracle_convert)]
BUDGET = 20
TRUSTED = ['index_to_local_position gives the centre of the pixel and local_position_to_index undoes it (contract proved in C09)', 'data_aligned_at_events has its contract of C01',
           'PyTables: append adds the rows of a table at its end']
ASSUME = ['rounding errors of the index conversion stay below half a pixel', 'columns and rows are numbers from 1 to 65535', 'sets of columns and selections of detectors in CASES and WRAP are enumerated']
BOUNDED = ['convert on real files with four types of sensors against an own formula']
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the current source on one generic hit with the index conversions as their contracts, obligations discharged by z3'
LEVEL_NOTE = 'proved for all hits of any table for the enumerated sets of columns and selections of detectors'
EXPLANATION = 'Every hit gets the centre of its pixel, every other column stays, rows stay in order; the conversion back gives the nearest index, which is the original one; every file is converted with the detector selected for it.'
