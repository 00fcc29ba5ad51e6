"""Small HDF5 / YAML inputs for the bounded run-time evaluation of file-level functions."""
import contextlib
import os

import numpy as np
import tables as tb
import yaml

CLUSTER_DT = np.dtype([('event_number', '<i8'), ('cluster_ID', '<i2'), ('n_hits', '<u4'), ('charge', '<f4'), ('frame', '<u2'), ('seed_column', '<u2'),
                       ('seed_row', '<u2'), ('mean_column', '<f8'), ('mean_row', '<f8'), ('err_column', '<f4'), ('err_row', '<f4'), ('n_cluster', '<u4'),
                       ('cluster_shape', '<i8')])
CLUSTER_POS_DT = np.dtype([(n.replace('mean_column', 'mean_x').replace('mean_row', 'mean_y').replace('err_column', 'err_x').replace('err_row', 'err_y'), CLUSTER_DT[n])
                           for n in CLUSTER_DT.names])
HIT_DT = np.dtype([('event_number', '<i8'), ('frame', '<u2'), ('column', '<u2'), ('row', '<u2'), ('charge', '<f4')])


def dut_conf(z=0.0, x=0.0, y=0.0, a=0.0, b=0.0, g=0.0, cs=250.0, rs=50.0, nc=80, nr=336, typ='RectangularPixelDut', **kw):
    d = dict(dut_type=typ, translation_x=x, translation_y=y, translation_z=z, rotation_alpha=a, rotation_beta=b, rotation_gamma=g,
             column_size=cs, row_size=rs, n_columns=nc, n_rows=nr)
    if typ != 'RectangularPixelDut':
        for k in ('column_size', 'row_size', 'n_columns', 'n_rows'):
            del d[k]
    d.update(kw)
    return d


def telescope_file(d, duts, name='tel.yaml'):
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        yaml.safe_dump(dict(TELESCOPE=dict(DUT={i: c for i, c in enumerate(duts)})), f, default_flow_style=False)
    return p


def table_file(p, **tables):
    with tb.open_file(p, 'w') as h:
        for name, arr in tables.items():
            t = h.create_table(h.root, name=name, description=arr.dtype, title=name)
            t.append(arr)
            t.flush()
    return p


def read_nodes(p):
    out = {}
    with tb.open_file(p, 'r') as h:
        for n in h.root._f_iter_nodes("Leaf"):
            out[n._v_name] = n[:]
    return out


class Dir(object):
    """a fresh scratch directory per evaluation"""

    def __init__(self, o, name):
        self.base = os.path.join(o.scratch, name)
        os.makedirs(self.base, exist_ok=True)
        self.k = 0

    def new(self):
        import shutil
        p = os.path.join(self.base, 'r%d' % (self.k % 2))
        self.k += 1
        if os.path.isdir(p):
            shutil.rmtree(p)
        os.makedirs(p)
        return p


@contextlib.contextmanager
def quiet():
    """no progress bars"""
    with open(os.devnull, 'w') as dn, contextlib.redirect_stderr(dn), contextlib.redirect_stdout(dn):
        yield


def multi_events(rng, n_events, most, gaps=True):
    ev = []
    for e in range(n_events):
        if gaps and rng.random() < 0.2:
            continue
        ev += [e] * int(rng.integers(0, most + 1))
    return np.array(ev, np.int64)


def merged_dtype(n_duts):
    d = [('event_number', np.int64)]
    for dim in 'xyz':
        d += [('%s_dut_%d' % (dim, i), np.float64) for i in range(n_duts)]
    for nm, t in (('charge', np.float32), ('frame', np.uint16), ('n_hits', np.uint32), ('cluster_ID', np.int16), ('cluster_shape', np.int64), ('n_cluster', np.uint32)):
        d += [('%s_dut_%d' % (nm, i), t) for i in range(n_duts)]
    d.append(('hit_flag', np.uint32))
    for dim in 'xyz':
        d += [('%s_err_dut_%d' % (dim, i), np.float32) for i in range(n_duts)]
    return np.dtype(d)


def merged_array(rng, n_duts, events, p_hit=0.8, spread=2000.0, err=True):
    """merged clusters: every hit carries its own distinguishable column values"""
    a = np.zeros(len(events), merged_dtype(n_duts))
    a['event_number'] = events
    n = len(events)
    for i in range(n_duts):
        hit = rng.random(n) < p_hit
        for dim, w in (('x', spread), ('y', spread)):
            a['%s_dut_%d' % (dim, i)] = np.where(hit, rng.uniform(-w, w, n), np.nan)
            a['%s_err_dut_%d' % (dim, i)] = np.where(hit, rng.uniform(5, 20, n), np.nan)
        a['z_dut_%d' % i] = np.where(hit, 0.0, np.nan)
        a['z_err_dut_%d' % i] = np.where(hit, 0.0, np.nan)
        a['charge_dut_%d' % i] = np.where(hit, 1 + np.arange(n), np.nan)
        for nm, v in (('frame', np.arange(n) % 1000 + 1), ('n_hits', np.arange(n) % 6 + 1), ('cluster_ID', np.arange(n) % 90), ('cluster_shape', np.arange(n) * 7 + 1), ('n_cluster', np.arange(n) + 3)):
            a['%s_dut_%d' % (nm, i)] = np.where(hit, v, 0)
        a['hit_flag'] += hit.astype(np.uint32) << np.uint32(i)
    return a


def dut_columns(names, i):
    return [c for c in names if c.endswith('_dut_%d' % i)]
