"""C19 Applying an alignment and its inverse restores all positions."""
import collections
import os

import numpy as np

from vf import symx
from vf.symx import z3, S, SB, A, BVS, Tab, Dom, Loader, explore, call, Raised
from contracts.C24 import Opened, OutTable, AnyName, equal_cells, same, apply

F = 'beam_telescope_analysis/dut_alignment.py'
M = 'beam_telescope_analysis.dut_alignment'
PAR = ('translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma')


class Frames(object):
    """contracts of the transformations (C08): unknown functions of the position per frame; the two directions undo each other"""

    def __init__(self):
        self.undo = {}

    def key(self, what, v):
        return (what,) + tuple(t.get_id() for a in v for t in symx.cells(a)) + tuple(a.gen[0].base for a in v)

    def go(self, way, frame, kind, v):
        for a in v:
            if not isinstance(a, A) or a.ndim != 1 or a.gen[0] is None:
                raise symx.Unsupported('transformation of something else than columns')
        back = 'global' if way == 'local' else 'local'
        k = self.key((way, frame, kind), v)
        if k in self.undo:
            return self.undo[k]
        r = apply('%s_%s_%s' % (way, frame, kind), v, v[0].gen[0])
        r = [r[:, i] for i in range(3)]
        self.undo[self.key((back, frame, kind), r)] = tuple(a.copy() for a in v)
        self.keep = getattr(self, 'keep', []) + [r, v]
        return tuple(r)


class Aligned(object):
    def __init__(self, frames, i):
        self.frames, self.i, self.name = frames, i, 'DUT%s' % i
        for k, p in enumerate(PAR):
            setattr(self, p, 10.0 * ((i if isinstance(i, int) else 50) + 1) + k)


class Dut(Aligned):
    beam = None

    def _map(self, way, x, y, z, kw):
        if set(kw) - set(PAR):
            raise symx.Unsupported('transformation with other parameters')
        for owner in (self, self.beam):
            rot = all((kw.get(k) is None and owner is self) or kw.get(k) == getattr(owner, k) for k in PAR[3:])
            pos = all((kw.get(k) is None and owner is self) or kw.get(k) == getattr(owner, k) for k in PAR[:3])
            zero = all(kw.get(k) == 0.0 for k in PAR[:3])
            if rot and (pos or zero):
                return self.frames.go(way, owner.i, 'position' if pos else 'direction', (x, y, z))
        raise symx.Unsupported('transformation with other parameters')

    def global_to_local_position(self, x, y, z, **kw):
        return self._map('local', x, y, z, kw)

    def local_to_global_position(self, x, y, z, **kw):
        return self._map('global', x, y, z, kw)


class Names(object):
    """a module of which only the given names have a contract"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise symx.Unsupported('%s has no contract' % k)


class Node(Names):
    pass


class Group(object):
    """the stored arguments of the function that created the file: a group has no name, type, columns"""

    def __getattr__(self, k):
        import tables
        raise tables.NoSuchNodeError(k)


def table(c, name, base, n, full):
    pre = base + '_'
    cols = collections.OrderedDict()
    cols['event_number'] = c.arr(pre + 'event_number', ('n',), row=base, kind='i')
    v = z3.BitVec(pre + 'hit_flag', 32)
    cols['hit_flag'] = A(np.array([BVS(v)], dtype=object), [Dom(base)], 'i')
    c.rowvars.setdefault(base, []).append(v)

    def vector(fmt, hit=None):
        for x in 'xyz':
            a = c.arr(pre + fmt % x, ('n',), row=base)
            if hit is not None:
                a.d[0] = S(a.d[0].t, z3.Not(hit))
            cols[fmt % x] = a
    for d in range(n):
        hit = c.bool(pre + 'hit_%d' % d, base).b
        vector('%%s_dut_%d' % d, hit)
        vector('%%s_err_dut_%d' % d, hit)
        cols['charge_dut_%d' % d] = c.arr(pre + 'charge_dut_%d' % d, ('n',), row=base, nan=True)
        if full:
            for k in ('offset', 'slope'):
                vector('%s_%%s_dut_%d' % (k, d), c.bool(pre + 'fitted', base).b)
    if 'Tracks' in name:
        for k in ('offset', 'slope'):
            vector(k + '_%s', c.bool(pre + 'fitted', base).b)
        cols['track_chi2'] = c.arr(pre + 'track_chi2', ('n',), row=base, nan=True)
    return Tab(cols, Dom(base))


def vectors(name, n, full):
    """(column format, owner, kind) of everything with a direction in the table"""
    out = [('%%s_dut_%d' % d, d, 'position') for d in range(n)]
    if 'Tracks' in name:
        for d in range(n):
            if full:
                out += [('offset_%%s_dut_%d' % d, d, 'position'), ('slope_%%s_dut_%d' % d, d, 'direction')]
            if name == 'Tracks_DUT%d' % d:
                out += [('offset_%s', d, 'position'), ('slope_%s', d, 'direction')]
            out.append(('%%s_err_dut_%d' % d, d, 'error'))
    return out


def align(n, names, full, chunks, beam, first):
    def run(c):
        import tables
        c.machine_ints = True
        m = Loader().module(M)
        frames = Frames()

        class Telescope(list):
            pass
        tel = Telescope(Dut(frames, d) for d in range(n))
        own = Aligned(frames, 'beam')
        for p in PAR:
            setattr(tel, p, getattr(own, p))
        tel.i = 'beam'
        for d in tel:
            d.beam = own
        tel.dut_names = [d.name for d in tel]
        files = {}
        orig = {}
        for name in names:
            ch = [table(c, name, '%s_%d' % (name, k), n, full) for k in range(chunks)]
            orig[name] = [t.copy() for t in ch]
            files.setdefault('in', {})[name] = ch
        m.Telescope = type('Telescope', (Telescope,), {'__new__': lambda cls, f: tel, '__init__': lambda self, *a: None})
        # instances of the replaced class are recognised
        tel.__class__ = m.Telescope

        def node(name, ch):
            return Node(name=name, _v_name=name, shape=(c.int('rows_' + name),), dtype=ch[0].dtype, title=name, chunks=ch)

        class Out(object):
            root = 'root'

            def __init__(self):
                self.tables = collections.OrderedDict()

            def create_table(self, where, name, description=None, title='', filters=None, **k):
                if name in self.tables:
                    raise tables.NodeError(name)
                self.tables[name] = OutTable(description)
                return self.tables[name]
        outs = {}

        def open_file(filename, mode='r', **k):
            if mode == 'r':
                return Opened(Names(root=[Group()] + [node(k, ch) for k, ch in files[filename].items()]))
            outs[filename] = Out()
            return Opened(outs[filename])
        m.tb = Names(open_file=open_file, NodeError=tables.NodeError, NoSuchNodeError=tables.NoSuchNodeError, Filters=lambda **k: None, Group=Group, Table=Node, group=Names(Group=Group), table=Names(Table=Node))

        def aligned(table, start_index=None, stop_index=None, chunk_size=10000000, try_speedup=False, first_event_aligned=True, fail_on_missing_events=True):
            for i, t in enumerate(table.chunks):
                yield t.copy(), c.int('position_%d' % i)
        m.analysis_utils = Names(data_aligned_at_events=aligned)
        m.tqdm = lambda *a, **k: AnyName()

        def step(src, dst, to_global, tag):
            before = {k: [t.copy() for t in ch] for k, ch in files[src].items()}
            r = call(m.apply_alignment, telescope_configuration='telescope', input_file=src, output_file=dst, local_to_global=to_global, align_to_beam=beam)
            if isinstance(r, Raised):
                c.goal(tag + 'no error (%s)' % r.ex, False)
                return False
            c.goal(tag + 'returns the file', r == dst)
            got = outs.get(dst)
            okay = got is not None and list(got.tables) == list(names) and all(len(got.tables[k].rows) == chunks and all(isinstance(t, Tab) for t in got.tables[k].rows) for k in names)
            c.goal(tag + 'every table with every chunk', okay)
            if not okay:
                return False
            for k in names:
                for j in range(chunks):
                    check(before[k][j], got.tables[k].rows[j], k, to_global, tag + k + ': ')
            files[dst] = {k: [t.copy() for t in got.tables[k].rows] for k in names}
            return True

        def check(o, t, name, to_global, tag):
            c.goal(tag + 'rows in order', t.dom.base == o.dom.base and list(t.cols) == list(o.cols))
            c.goal(tag + 'every row', t.dom.guard)
            if list(t.cols) != list(o.cols):
                return
            done = set()
            for fmt, d, kind in vectors(name, n, full):
                v = tuple(o.cols[fmt % x] for x in 'xyz')
                way = 'global' if to_global else 'local'
                for f in ([d, 'beam'] if to_global else ['beam', d]):
                    if f == 'beam' and not beam:
                        continue
                    v = frames.go(way, f, 'position' if kind == 'position' else 'direction', v)
                    if kind == 'error':
                        v = tuple(symx.NP.abs(a) for a in v)
                for x, a in zip('xyz', v):
                    same(c, tag + fmt % x, t.cols[fmt % x].d[0], a.d[0])
                    done.add(fmt % x)
            for k in o.cols:
                if k not in done:
                    same(c, tag + k + ' unchanged', t.cols[k].d[0], o.cols[k].d[0])
        if not step('in', 'there', first, ''):
            return
        if not step('there', 'back', not first, 'inverse: '):
            return
        for name in names:
            for j in range(chunks):
                t = files['back'][name][j]
                for fmt, d, kind in vectors(name, n, full):
                    if kind != 'error':
                        for x in 'xyz':
                            same(c, 'restored: %s %s' % (name, fmt % x), t.cols[fmt % x].d[0], orig[name][j].cols[fmt % x].d[0])
    return explore('apply_alignment, %d DUTs, %s%s%s, first %s' % (n, ', '.join(names), ', full info' if full else '', ', to the beam' if beam else '', 'into' if first else 'from'), F, run)


CASES = [(1, ('MergedClusters',), False, 1, False, True), (3, ('MergedClusters',), False, 2, True, True), (2, ('TrackCandidates', 'MergedClusters'), False, 1, True, False),
         (2, ('Tracks_DUT0', 'Tracks_DUT1'), True, 1, False, True), (2, ('Tracks_DUT1',), True, 1, True, False), (3, ('Tracks_DUT2', 'Tracks_DUT0'), False, 1, True, True),
         (12, ('Tracks_DUT10', 'Tracks_DUT1'), False, 1, False, True)]
SYM = [('align %d' % i, F + ':apply_alignment', lambda a=a: align(*a)) for i, a in enumerate(CASES)]


def CONTRACTS():
    return []


def oracle_align(o):
    """real files: every position against an independent transformation, and back again"""
    from contracts.files import merged_array, multi_events, telescope_file, table_file, read_nodes, Dir, quiet
    from contracts.geo import np_rot
    from contracts.tracks import geometry
    import yaml
    rng = o.rng
    da = o.mod('dut_alignment')
    import tqdm
    da.tqdm = lambda *a, **k: tqdm.tqdm(*a, **dict(k, disable=True))
    box = Dir(o, 'align')

    def conv(frame, v, to_global, position):
        m = np_rot(frame['rotation_alpha'], frame['rotation_beta'], frame['rotation_gamma'])
        t = np.array([frame[p] for p in PAR[:3]]) if position else np.zeros(3)
        return v.dot(m.T) + t if to_global else (v - t).dot(m)

    while o.more():
        n = int(rng.integers(1, 5)) if rng.random() < 0.9 else 12
        conf = geometry(rng, n)
        for k in conf:
            for p in PAR[3:]:
                k[p] = float(rng.uniform(-3, 3)) if rng.random() < 0.3 else float(rng.uniform(-0.2, 0.2)) if rng.random() < 0.7 else 0.0
        beam = dict((p, float(rng.uniform(-0.1, 0.1)) if rng.random() < 0.7 else 0.0) for p in PAR[3:])
        beam.update((p, float(rng.uniform(-300, 300)) if rng.random() < 0.5 else 0.0) for p in PAR[:3])
        align, first = bool(rng.random() < 0.5), bool(rng.random() < 0.6)
        tabs = {}
        names = ['MergedClusters'] if rng.random() < 0.4 else ['Tracks_DUT%d' % d for d in (range(n) if n < 12 else (1, 10))]
        full = bool(rng.random() < 0.5)
        for name in names:
            ev = multi_events(rng, int(rng.integers(1, 8)), 3)
            a = merged_array(rng, n, ev)
            for d in range(n):
                # float32 errors lose digits: integers survive the comparison of unrotated ones
                for x in 'xyz':
                    a['%s_err_dut_%d' % (x, d)] = np.where(np.isnan(a['x_dut_%d' % d]), np.nan, rng.integers(1, 30, len(ev)))
                # positions have to lie in the plane of the sensor, others are refused
                v = np.column_stack([a['x_dut_%d' % d], a['y_dut_%d' % d], np.zeros(len(ev))]).astype(float)
                v[np.isnan(v[:, 0])] = np.nan
                for f in [] if first else [conf[d]] + [beam] * align:
                    v = conv(f, v, True, True)
                for j, x in enumerate('xyz'):
                    a['%s_dut_%d' % (x, d)] = v[:, j]
            if 'Tracks' in name:
                extra = [('offset_%s', 0), ('slope_%s', 0)] + ([('offset_%%s_dut_%d' % d, 0) for d in range(n)] + [('slope_%%s_dut_%d' % d, 0) for d in range(n)] if full else [])
                b = np.zeros(len(a), a.dtype.descr + [(f % x, '<f8') for f, _ in extra for x in 'xyz'] + [('track_chi2', '<f8')])
                for k in a.dtype.names:
                    b[k] = a[k]
                lost = rng.random(len(a)) < 0.2
                for f, _ in extra:
                    for x in 'xyz':
                        b[f % x] = np.where(lost, np.nan, rng.uniform(-1000, 1000, len(a)) if 'offset' in f else rng.uniform(-1, 1, len(a)))
                b['track_chi2'] = rng.random(len(a))
                a = b
            tabs[name] = a
        d0 = box.new()
        tel = telescope_file(d0, conf)
        with open(tel) as f:
            y = yaml.safe_load(f)
        y['TELESCOPE'].update(beam)
        with open(tel, 'w') as f:
            yaml.safe_dump(y, f)
        inp, there, back = [os.path.join(d0, k) for k in ('in.h5', 'there.h5', 'back.h5')]
        table_file(inp, **tabs)
        if rng.random() < 0.5:
            import tables
            with tables.open_file(inp, 'a') as h:
                h.create_group(h.root, 'arguments')
        text = 'apply_alignment of %s, %d DUTs, align_to_beam %s, local_to_global %s, telescope %s %s' % (names, n, align, first, beam if align else '', conf)
        info = dict(tables=tabs, arguments=text)
        try:
            with quiet():
                da.apply_alignment(telescope_configuration=tel, input_file=inp, output_file=there, local_to_global=first, align_to_beam=align, chunk_size=int(rng.choice([1000, 6])))
                da.apply_alignment(telescope_configuration=tel, input_file=there, output_file=back, local_to_global=not first, align_to_beam=align)
        except Exception as ex:
            o.fail('apply_alignment error', '%s raises %r' % (text, ex), info)
            continue
        o.count('apply_alignment', nontrivial=any(len(a) for a in tabs.values()), sample=text)
        g, r = read_nodes(there), read_nodes(back)
        o.check(set(g) == set(tabs) == set(r), 'apply_alignment tables', '%s: tables %s' % (text, sorted(g)), info)

        for name in names:
            a, b, e = tabs[name], g[name], r[name]
            o.check(len(a) == len(b) == len(e), 'apply_alignment rows', '%s: %s has %d rows, %d expected' % (text, name, len(b), len(a)), info)
            changed = set()
            for fmt, d, kind in vectors(name, n, full):
                v = np.column_stack([a[fmt % x].astype(float) for x in 'xyz'])
                w = v
                for f in ([conf[d], beam] if first else [beam, conf[d]]):
                    if f is beam and not align:
                        continue
                    w = conv(f, w, first, kind == 'position')
                    if kind == 'error':
                        w = np.abs(w).astype(np.float32)
                for j, x in enumerate('xyz'):
                    changed.add(fmt % x)
                    tol = 1e-4 if kind == 'error' else 1e-6
                    o.check(np.allclose(b[fmt % x], w[:, j], rtol=0, atol=tol, equal_nan=True), 'apply_alignment ' + kind, '%s: %s of %s is %s, expected %s' % (text, fmt % x, name, b[fmt % x].tolist(), w[:, j].tolist()), info)
                    if kind != 'error':
                        o.check(np.allclose(e[fmt % x], v[:, j], rtol=0, atol=1e-6, equal_nan=True), 'apply_alignment inverse', '%s: %s of %s comes back as %s instead of %s' % (text, fmt % x, name, e[fmt % x].tolist(), v[:, j].tolist()), info)
            for k in a.dtype.names:
                if k not in changed:
                    o.check(np.array_equal(a[k], b[k], equal_nan=True), 'apply_alignment other columns', '%s: column %s of %s changes' % (text, k, name), info)


ORACLE = [('apply_alignment', oracle_align)]
BUDGET = 25
TRUSTED = ['the transformations of a detector have their contracts of C08 (rotation and translation of its frame, explicit alignment overrides its own, both directions undo each other)',
           'data_aligned_at_events has its contract of C01', 'PyTables: append adds the rows of a table at its end']
ASSUME = ['positions lie in the plane of their sensor (the code refuses others with an error)', 'a vector is either completely defined or completely missing', 'hit errors are rotated and made positive, so the inverse restores positions, offsets and slopes, not rotated errors',
          'the numbers of detectors and sets of tables in CASES are enumerated']
BOUNDED = ['apply_alignment on real files against an independent transformation, 1-4 and 12 detectors']
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the current source on one generic row with transformations as their contracts, obligations discharged by z3'
LEVEL_NOTE = 'proved for all rows and all alignments for the enumerated numbers of detectors and tables; the transformations themselves are proved in C08'
EXPLANATION = 'Every vector column of every table goes through the transformation of its own detector (and the beam alignment, in the right order), directions and errors without translation, all other columns unchanged; a second call in the other direction gives the original vectors.'
