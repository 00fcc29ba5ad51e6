"""C21 Track selection keeps exactly the tracks that pass the configured flags."""
import collections
import copy
import os
import types

import numpy as np

from vf import symx
from vf.symx import z3, S, SB, A, BVS, Tab, Dom, Loader, explore, call, Raised
from contracts.C24 import Opened, OutTable, AnyName, equal_cells, same, bit

F = 'beam_telescope_analysis/tools/data_selection.py'
M = 'beam_telescope_analysis.tools.data_selection'
FLAGS = ('hit_flag', 'quality_flag', 'isolated_track_flag', 'isolated_hit_flag')


class Selection(object):
    """what is asked for, per selected DUT: lists of detectors"""
    KEYS = ('select_hit_duts', 'select_no_hit_duts', 'select_quality_duts', 'select_isolated_track_duts', 'select_isolated_hit_duts')

    def __init__(self, duts, hit=None, no_hit=None, quality=None, track=None, iso=None, query=None):
        self.duts = duts
        self.kw = dict(zip(self.KEYS, (hit, no_hit, quality, track, iso)))
        self.kw['query'] = query
        flat = lambda v: all(not isinstance(x, (list, tuple)) and x is not None for x in v)
        self.sel = {}
        for k in self.KEYS:
            v = self.kw[k]
            v = [[] for _ in duts] if v is None else v
            v = [v] * len(duts) if flat(v) else v
            self.sel[k] = [[] if x is None else list(x) for x in v]
        self.query = [query or ''] * len(duts) if query is None or isinstance(query, str) else list(query)

    def arguments(self):
        return copy.deepcopy(self.kw)

    def passes(self, i, flag):
        """flag(name, dut) -> condition; the selection of the i-th DUT as a list of conditions, from the documentation"""
        hit, no_hit, quality, track, iso = [self.sel[k][i] for k in self.KEYS]
        out = [('hit', flag('hit_flag', d), None) for d in hit]
        out += [('no hit', None, flag('hit_flag', d)) for d in no_hit]
        # quality and hit isolation are only asked for where there is a hit
        out += [('quality', flag('quality_flag', d), flag('hit_flag', d)) for d in quality]
        out += [('isolated track', flag('isolated_track_flag', d), None) for d in track]
        out += [('isolated hit', flag('isolated_hit_flag', d), flag('hit_flag', d)) for d in iso]
        return out


def condition(parts):
    out = []
    for k, a, b in parts:
        if k == 'no hit':
            out.append(z3.Not(b))
        elif b is None:
            out.append(a)
        else:
            out.append(z3.Implies(b, a))
    return z3.And(*out) if out else z3.BoolVal(True)


def tracks(c, pre, base):
    cols = collections.OrderedDict()
    cols['event_number'] = c.arr(pre + 'event_number', ('n',), row=base, kind='i')
    for k in ('offset_x', 'slope_x', 'x_dut_0', 'track_chi2'):
        cols[k] = c.arr(pre + k, ('n',), row=base, nan=True)
    for k in FLAGS:
        v = z3.BitVec(pre + k, 32)
        cols[k] = A(np.array([BVS(v)], dtype=object), [Dom(base)], 'i')
        c.rowvars.setdefault(base, []).append(v)
    return Tab(cols, Dom(base))


def select(sel, chunks=2):
    def run(c):
        import tables
        c.machine_ints = True
        c.lax_division = True
        m = Loader().module(M)
        nodes, originals, passed = {}, {}, {}
        for d in range(5):
            name = 'Tracks_DUT%d' % d
            bases = ['%s_%d' % (name, k) for k in range(chunks)]
            ch = [tracks(c, b + '_', b) for b in bases]
            originals[name] = ch
            nodes[name] = types.SimpleNamespace(name=name, shape=(c.int('rows_' + name),), dtype=ch[0].dtype, title='tracks %d' % d, chunks=ch)
            c.assume(nodes[name].shape[0] >= 0)
        inp = types.SimpleNamespace(root='root', get_node=lambda where, name=None, **k: nodes[name if name is not None else where.strip('/')])
        out = types.SimpleNamespace(root='root', tables={})

        def create_table(where, name, description=None, title='', filters=None, **k):
            if name in out.tables:
                raise tables.NodeError(name)
            out.tables[name] = OutTable(description)
            return out.tables[name]
        out.create_table = create_table
        opened = []

        def open_file(filename, mode='r', **k):
            opened.append((filename, mode))
            return Opened(inp if mode == 'r' else out)
        m.tb = types.SimpleNamespace(open_file=open_file, NodeError=tables.NodeError, NoSuchNodeError=tables.NoSuchNodeError, Filters=lambda **k: None)

        def aligned(table, start_index=None, stop_index=None, chunk_size=10000000, try_speedup=False, first_event_aligned=True, fail_on_missing_events=True):
            for i, t in enumerate(table.chunks):
                yield t.copy(), c.int('position_%d' % i)
        m.analysis_utils = types.SimpleNamespace(data_aligned_at_events=aligned)
        m.Telescope = lambda f: [types.SimpleNamespace(name='DUT%d' % d) for d in range(5)]
        m.tqdm = lambda *a, **k: AnyName()

        def table_where(arr, query_str):
            """contract: the rows for which the query holds, in order"""
            if not isinstance(arr, Tab):
                raise symx.Unsupported('query on something else than tracks')
            q = c.bool('query %s %s' % (query_str, arr.dom.base), arr.dom.base)
            passed[query_str, arr.dom.base] = q.b
            return arr[A(np.array([q], dtype=object), [arr.dom], 'b')]
        m.table_where = table_where
        r = call(m.select_tracks, telescope_configuration='telescope', input_tracks_file='in', select_duts=list(sel.duts), output_tracks_file='out', **sel.arguments())
        if isinstance(r, Raised):
            c.goal('no error (%s)' % r.ex, False)
            return
        c.goal('returns the file', r == 'out')
        c.goal('reads and writes the given files', sorted(opened) == [('in', 'r'), ('out', 'w')])
        c.goal('a table for every selected DUT', set(out.tables) == {'Tracks_DUT%d' % d for d in sel.duts})
        for i, d in enumerate(sel.duts):
            name = 'Tracks_DUT%d' % d
            if name not in out.tables:
                continue
            rows = out.tables[name].rows
            c.goal('%s: every chunk once and in order' % name, len(rows) == chunks and all(isinstance(t, Tab) for t in rows) and [t.dom.base for t in rows] == ['%s_%d' % (name, k) for k in range(chunks)])
            if len(rows) != chunks or not all(isinstance(t, Tab) for t in rows):
                continue
            for t, o in zip(rows, originals[name]):
                want = condition(sel.passes(i, lambda k, e: bit(o.cols[k].d[0], e)))
                if sel.query[i]:
                    want = z3.And(want, passed.get((sel.query[i], o.dom.base), z3.BoolVal(False)))
                c.goal('%s: exactly the tracks that pass' % name, t.dom.guard == want)
                c.goal('%s: columns' % name, list(t.cols) == list(o.cols))
                for k in o.cols:
                    if k in t.cols:
                        same(c, '%s: column %s unchanged' % (name, k), t.cols[k].d[0], o.cols[k].d[0], t.dom.guard)
    return explore('select_tracks, DUTs %s, %s' % (sel.duts, {k: v for k, v in sel.kw.items() if v is not None}), F, run)


CASES = [Selection([0]), Selection([0, 2], hit=[0, 1]), Selection([1, 0], hit=[[0, 2], [1]], no_hit=[[1], None]), Selection([3], no_hit=[[0, 4]]),
         Selection([0, 1, 2], quality=[[0, 1], [], [2]]), Selection([2], track=[0, 2], query='track_chi2 < 5'), Selection([1, 3], iso=[[1, 3], [0]]),
         Selection([0], hit=[[0]], no_hit=[[4]], quality=[[0, 1]], track=[[2]], iso=[[0]], query=['track_chi2 < 5']),
         Selection([4], hit=[[4, 3]], no_hit=[[1]], quality=[[4]], iso=[[3, 4]]),
         Selection([1], hit=[3], quality=[1], iso=[1], query='offset_x > 0'), Selection([4, 0], quality=[0], track=[[4], [0, 1, 2, 3, 4]]),
         Selection([0], hit=[0, 1, 2, 3, 4], quality=[0, 1, 2, 3, 4], track=[0, 1, 2, 3, 4], iso=[0, 1, 2, 3, 4]), Selection([2, 1], query=['', 'x_dut_0 > 1'])]
SYM = [('select %d' % i, F + ':select_tracks', lambda s=s: select(s)) for i, s in enumerate(CASES)]


def CONTRACTS():
    return []


def oracle_select(o):
    from contracts.files import dut_conf, telescope_file, table_file, read_nodes, Dir, quiet, multi_events
    rng = o.rng
    ds = o.mod('tools.data_selection')
    import tqdm
    ds.tqdm = lambda *a, **k: tqdm.tqdm(*a, **dict(k, disable=True))
    box = Dir(o, 'select')
    dt = np.dtype([('event_number', '<i8'), ('hit_flag', '<u4'), ('x_dut_0', '<f8'), ('track_chi2', '<f8'), ('quality_flag', '<u4'), ('isolated_track_flag', '<u4'), ('isolated_hit_flag', '<u4')])
    queries = {'': lambda a: np.ones(len(a), bool), 'track_chi2 <= 5': lambda a: a['track_chi2'] <= 5, '(track_chi2 < 7) & (x_dut_0 > 0)': lambda a: (a['track_chi2'] < 7) & (a['x_dut_0'] > 0),
               'event_number == 2': lambda a: a['event_number'] == 2}
    while o.more():
        n = int(rng.integers(1, 7))
        duts = [int(d) for d in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
        lists = lambda p: None if rng.random() < 0.4 else [None if rng.random() < 0.1 else [int(d) for d in range(n) if rng.random() < p] for _ in duts]
        hit, no = lists(0.3), lists(0.3)
        if hit and no:
            no = [b if b is None or a is None else [d for d in b if d not in a] for a, b in zip(hit, no)]
        q = [str(rng.choice(list(queries))) if rng.random() < 0.5 else '' for _ in duts]
        sel = Selection(duts, hit, no, lists(0.4), lists(0.3), lists(0.4), q if rng.random() < 0.6 else None)
        data, d0 = {}, box.new()
        for d in range(n):
            ev = multi_events(rng, int(rng.integers(0, 8)), 4)
            a = np.zeros(len(ev), dt)
            a['event_number'] = ev
            for k in FLAGS:
                # mostly set: selections pass often enough
                a[k] = sum((rng.random(len(ev)) < 0.7).astype(np.uint32) << np.uint32(e) for e in range(n))
            a['x_dut_0'], a['track_chi2'] = rng.integers(-3, 4, len(ev)), rng.integers(0, 10, len(ev))
            data['Tracks_DUT%d' % d] = a
        most = int(rng.integers(1, 5)) if rng.random() < 0.2 else None
        tel, inp, out = telescope_file(d0, [dut_conf(z=1000.0 * d) for d in range(n)]), table_file(os.path.join(d0, 't.h5'), **data), os.path.join(d0, 's.h5')
        text = 'select_tracks, %d DUTs, select_duts %s, %s, max_events %s' % (n, duts, {k: v for k, v in sel.kw.items() if v is not None}, most)
        info = dict(tables=data, arguments=text)
        try:
            with quiet():
                ds.select_tracks(telescope_configuration=tel, input_tracks_file=inp, select_duts=list(duts), output_tracks_file=out, max_events=most, chunk_size=int(rng.choice([1000, 7])), **sel.arguments())
        except Exception as ex:
            o.fail('select_tracks error', '%s raises %r' % (text, ex), info)
            continue
        got = read_nodes(out)
        o.count('select_tracks', nontrivial=any(0 < len(got[k]) < len(data[k]) for k in got), sample=text)
        o.check(set(got) == {'Tracks_DUT%d' % d for d in duts}, 'select_tracks tables', '%s: tables %s' % (text, sorted(got)), info)
        for i, d in enumerate(duts):
            a = data['Tracks_DUT%d' % d]
            ok = np.ones(len(a), bool)
            for k, u, v in sel.passes(i, lambda k, e: (a[k] >> np.uint32(e)) & 1 == 1):
                ok &= ~v if k == 'no hit' else u if v is None else (~v | u)
            ok &= queries[sel.query[i]](a)
            g = got['Tracks_DUT%d' % d]
            if most:
                ev = np.unique(g['event_number'])
                ok &= np.isin(a['event_number'], ev)
                o.check(len(ev) <= most, 'select_tracks max_events', '%s: %d events for DUT%d' % (text, len(ev), d), info)
            o.check(g.tobytes() == a[ok].tobytes(), 'select_tracks rows', '%s: DUT%d keeps %s, expected %s' % (text, d, g.tolist(), a[ok].tolist()), info)


ORACLE = [('select_tracks', oracle_select)]
BUDGET = 20
TRUSTED = ['data_aligned_at_events has its contract of C01', 'table_where (numexpr) selects the rows for which the query holds (evaluated in the bounded part)', 'PyTables: append adds the rows of a table at its end']
ASSUME = ['max_events=None in the symbolic contract (random choice of events: bounded evaluation only)', 'selections enumerated in CASES; the flag words are arbitrary 32-bit words',
          'the isolated track flag is asked for with and without a hit, as implemented (the documentation restricts it to detectors with a hit)']
BOUNDED = ['select_tracks on real files with queries and max_events, up to 6 detectors and 28 tracks each']
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the current source on one generic track with arbitrary flag words, obligations discharged by z3 (bit vectors)'
LEVEL_NOTE = 'proved for all flag words and all rows for the enumerated selections; max_events and the evaluation of query strings are bounded'
EXPLANATION = 'For every chunk the rows that reach the output table are exactly those whose flag words satisfy the selection of the detector, all columns unchanged, chunks in order.'
