"""C29 Noisy pixel masking marks only and all pixels above threshold."""
import collections
import os

import numpy as np

from vf import symx
from vf.symx import z3, S, SB, A, Tab, Dom, NP, Loader, explore, call, Raised
from contracts.C24 import Opened, equal_cells
from contracts.C19 import Names
from contracts import files

F = 'beam_telescope_analysis/hit_analysis.py'
M = 'beam_telescope_analysis.hit_analysis'


class Carray(object):
    def __init__(self, file, name, shape):
        self.file, self.name, self.shape, self.value = file, name, shape, None

    def __setitem__(self, k, v):
        if k != slice(None):
            raise symx.Unsupported('part of a stored array')
        self.value = v.copy() if isinstance(v, A) else v


class Stored(object):
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        if k != slice(None):
            raise symx.Unsupported('part of a stored array')
        return self.a.copy()

    def read(self):
        return self.a.copy()


class MaskFile(object):
    def __init__(self, occ):
        self.root = Names(HistOcc=Stored(occ))
        self.arrays = collections.OrderedDict()

    def create_carray(self, where, name, atom=None, shape=None, title='', filters=None, obj=None, **k):
        import tables
        if name in self.arrays:
            raise tables.NodeError(name)
        self.arrays[name] = Carray(self, name, shape)
        if obj is not None:
            self.arrays[name][:] = obj
        return self.arrays[name]

    create_array = create_carray


class Iterations(object):
    """invariant of the loop: after k passes mask and occupancy are those of the definition after k passes"""

    def __init__(self, c, occ0, size, threshold, iterations):
        self.c, self.occ0, self.size, self.threshold, self.iterations = c, occ0, size, threshold, iterations
        self.k = None

    def roles(self, names):
        out = {}
        for n, v in names.items():
            if isinstance(v, A) and v.ndim == 1 and v.gen[0] is not None and v.kind in 'bi':
                r = 'mask' if v.kind == 'b' else 'occ'
            elif isinstance(v, (int, S, symx.PyInt)) and not isinstance(v, bool):
                r = 'i'
            else:
                raise symx.Unsupported('loop changes %s' % n)
            if r in out.values():
                raise symx.Unsupported('two variables of the same kind change in the loop')
            out[n] = r
        if not {'mask', 'occ'} <= set(out.values()):
            raise symx.Unsupported('state of the loop not recognised')
        return out

    def entry(self, k, loc):
        if k:
            raise symx.Unsupported('another loop')

    def havoc(self, k, names, loc):
        c = self.c
        role = self.roles(names)
        for n, r in role.items():
            if r == 'mask':
                c.goal('no pixel is masked at first', z3.Not(symx.truth(names[n].d[0])))
            elif r == 'occ':
                c.goal('measured occupancy at first', symx.lnum(names[n].d[0]).t == symx.lnum(self.occ0.d[0]).t)
        self.role = role
        n = c.int('passes')
        self.k = symx.lnum(n).t
        c.assume(n >= 0)
        if self.iterations is not None:
            # the loop goes on only below the limit
            c.assume(z3.Or(self.k == 0, self.k < symx.lnum(self.iterations).t))
        self.start = [symx.lnum(names[x]).t for x, r in role.items() if r == 'i']
        base = self.occ0.gen[0].base
        self.mask = c.arr('mask_k', ('n',), row=base, kind='b')
        self.occ = c.arr('occ_k', ('n',), row=base, kind='i')
        o, o0, m = symx.lnum(self.occ.d[0]).t, symx.lnum(self.occ0.d[0]).t, symx.truth(self.mask.d[0])
        c.fact(z3.And(o >= 0, z3.Implies(m, o0 != 0), z3.Implies(z3.Not(m), o == o0)))
        v = {}
        for x, r in role.items():
            v[x] = self.mask.copy() if r == 'mask' else self.occ.copy() if r == 'occ' else S(self.k + self.start[0])
        self.new_mask, self.new_occ, self.new = self.step()
        return v

    def step(self):
        """one pass by definition"""
        c = self.c
        blurred = c.median(self.occ, self.size)
        nz = self.occ != 0
        diff = self.occ - blurred
        scaled = diff[nz] / NP.sqrt(self.occ[nz])
        std = NP.std(scaled)
        limit = self.threshold * std * NP.sqrt(self.occ)
        above = z3.And(symx.truth(nz.d[0]), symx.truth((diff > limit).d[0]))
        m = symx.truth(self.mask.d[0])
        new_mask = z3.Or(m, above)
        new_occ = z3.If(new_mask, symx.lnum(blurred.d[0]).t, symx.lnum(self.occ.d[0]).t)
        return new_mask, new_occ, z3.And(above, z3.Not(m))

    def back(self, k, loc):
        c = self.c
        for x, r in self.role.items():
            if r == 'mask':
                self.masked(loc[x], 'next pass: ')
            elif r == 'occ':
                c.goal('next pass: noisy pixels continue with the expected occupancy', symx.lnum(loc[x].d[0]).t == self.new_occ)
            else:
                c.goal('next pass: counter', symx.lnum(loc[x]).t == self.k + 1 + self.start[0])
        o, o0 = self.new_occ, symx.lnum(self.occ0.d[0]).t
        c.goal('next pass: only pixels with hits are masked, others keep their occupancy', z3.And(o >= 0, z3.Implies(self.new_mask, o0 != 0), z3.Implies(z3.Not(self.new_mask), o == o0)))
        c.goal('next pass: masked pixels stay masked', z3.Implies(symx.truth(self.mask.d[0]), self.new_mask))
        c.goal('next pass: there was a new noisy pixel', z3.Not(c.forall(self.occ0.gen[0], z3.Not(self.new))))
        if self.iterations is not None:
            c.goal('next pass: fewer iterations than demanded', self.k + 1 < symx.lnum(self.iterations).t)

    def masked(self, a, tag):
        okay = isinstance(a, A) and a.ndim == 1 and a.gen[0] is not None and a.gen[0].base == self.occ0.gen[0].base
        self.c.goal(tag + 'mask of all pixels', okay)
        if okay:
            self.c.goal(tag + 'exactly the pixels above threshold and those masked before', symx.truth(a.d[0]) == self.new_mask)


def mask(name, limited, disable, given):
    def run(c):
        import tables
        c.exact_rows = True
        base = 'pixel'
        dom = Dom(base)
        occ0 = c.arr('occupancy', ('n',), row=base, kind='i')
        c.fact(symx.lnum(occ0.d[0]).t >= 0)
        threshold = c.real('threshold')
        c.assume(threshold > 0)
        iterations = None
        if limited:
            iterations = c.int('iterations')
            c.assume(iterations >= 1)
        size = 5

        def median(a, size):
            """depends on the values of the pixels only; not negative because they are not and the outside counts as 0"""
            def new():
                v = c.arr('median_%d' % len(c.wholes), ('n',), row=base, kind='i')
                if c.check([symx.lnum(a.d[0]).t < 0]) == z3.unsat:
                    c.fact(symx.lnum(v.d[0]).t >= 0)
                return v
            return c.whole(('median', size), a, new)
        c.median = median
        inv = Iterations(c, occ0, size, threshold, iterations)
        m = Loader(cut={'mask_pixels': inv}).module(M)

        def median_filter(input, size=None, footprint=None, output=None, mode='reflect', cval=0.0, origin=0, axes=None):
            if footprint is not None or output is not None or origin != 0 or axes is not None or not isinstance(input, A) or input.kind != 'i':
                raise symx.Unsupported('other median filter')
            if mode != 'constant' or cval != 0:
                c.goal('pixels outside of the matrix have no hits', False)
            return c.median(input, size).copy()
        m.median_filter = median_filter
        out = MaskFile(occ0)
        asked = []
        dut = Names(name='DUT0', n_pixel=('columns', 'rows'), column_size=c.real('column_size'), row_size=c.real('row_size'))

        def SMC(input_filename, output_filename=None, func=None, func_kwargs={}, table=None, node_desc={}, chunk_size=None, **k):
            if k:
                raise symx.Unsupported('option %s of SMC' % list(k))
            t = Tab(collections.OrderedDict((x, c.arr('hit_' + x, ('n',), row='hits', kind='i')) for x in ('event_number', 'column', 'row')), Dom('hits'))
            asked.append((input_filename, output_filename, table, dict(node_desc).get('name'), t, func(t.copy(), **func_kwargs)))
        m.smc = Names(SMC=SMC)
        hists = []

        def hist_2d_index(x, y, shape):
            hists.append((x, y, shape))
            return hists[-1]
        m.analysis_utils = Names(hist_2d_index=hist_2d_index)
        m.plot_masked_pixels = lambda *a, **k: None

        def open_file(filename, mode='r', **k):
            if mode == 'r' and filename == 'dir/hits.h5':
                return Opened(Names(root=Names(Hits=Names(dtype=Names(names=('event_number', 'column', 'row'))))))
            if mode in ('r+', 'a') and asked and filename == asked[0][1]:
                return Opened(out)
            raise symx.Unsupported('file %s opened with %s' % (filename, mode))
        m.tb = Names(open_file=open_file, NodeError=tables.NodeError, NoSuchNodeError=tables.NoSuchNodeError, Filters=lambda **k: None, Atom=Names(from_dtype=lambda d: d), BoolAtom=lambda **k: None)
        other = c.arr('disable', ('n',), row=base, kind='b') if disable else None
        r = call(m.mask_pixels, dut=dut, input_hit_file='dir/hits.h5', pixel_mask_name=name, output_mask_file='dir/mask.h5' if given else None, iterations=iterations, threshold=threshold, filter_size=size,
                 disable_mask=other, plot=True)
        if isinstance(r, Raised):
            c.goal('no error (%s)' % r.ex, False)
            return
        c.goal('occupancy of the hits is filled once', len(asked) == 1 and len(hists) == 1)
        if len(asked) != 1 or len(hists) != 1:
            return
        a = asked[0]
        c.goal('the mask file is returned', r == a[1] and (r == 'dir/mask.h5' or not given) and r != 'dir/hits.h5')
        c.goal('occupancy of all hits of the file', a[0] == 'dir/hits.h5' and a[2] == 'Hits' and a[3] == 'HistOcc' and a[5] is hists[0])
        x, y, shape = hists[0]
        c.goal('pixel matrix', tuple(shape) == dut.n_pixel)
        for v, k in ((x, 'column'), (y, 'row')):
            okay = isinstance(v, A) and v.ndim == 1 and v.gen[0] is not None and v.gen[0].base == 'hits'
            c.goal('every hit: %s' % k, okay)
            if okay:
                c.goal('every hit is filled: %s' % k, v.gen[0].guard)
                c.goal('%s counts from 1' % k, symx.lnum(v.d[0]).t == symx.lnum(a[4].cols[k].d[0]).t - 1)
        c.goal('stored masks', set(out.arrays) == {name} | ({'DisabledPixelMask'} if disable else set()))
        if inv.k is None or name not in out.arrays:
            c.goal('iterative search', False)
            return
        inv.masked(out.arrays[name].value, 'result: ')
        v = out.arrays[name].value
        if isinstance(v, A):
            c.goal('result: no pixel without hits', z3.Implies(symx.truth(v.d[0]), symx.lnum(occ0.d[0]).t != 0))
            c.goal('result: masked pixels stay masked', z3.Implies(symx.truth(inv.mask.d[0]), symx.truth(v.d[0])))
        none = c.forall(dom, z3.Not(inv.new))
        c.goal('search ends when nothing is new%s' % (' or after the demanded iterations' if limited else ''), z3.Or(none, inv.k + 1 >= symx.lnum(iterations).t) if limited else none)
        if limited:
            c.goal('not more iterations than demanded', inv.k + 1 <= symx.lnum(iterations).t)
        if disable and 'DisabledPixelMask' in out.arrays:
            c.goal('disabled pixels as given', isinstance(out.arrays['DisabledPixelMask'].value, A) and equal_cells(out.arrays['DisabledPixelMask'].value, other))
    return explore('mask_pixels, %s%s%s' % (name, ', limited' if limited else '', ', disabled pixels' if disable else ''), F, run)


CASES = [('NoisyPixelMask', False, False, True), ('NoisyPixelMask', True, True, False), ('DisabledPixelMask', True, False, True)]
SYM = [('mask_pixels %d' % i, F + ':mask_pixels', lambda a=a: mask(*a)) for i, a in enumerate(CASES)]


def CONTRACTS():
    return []


def median_of(occ, size):
    """median of the square around every pixel, nothing outside of the matrix (scipy's definition: element n // 2, the square starts size // 2 before)"""
    nc, nr = occ.shape
    out = np.zeros(occ.shape, np.int64)
    for i in range(nc):
        for j in range(nr):
            v = []
            for a in range(size):
                for b in range(size):
                    x, y = i + a - size // 2, j + b - size // 2
                    v.append(int(occ[x, y]) if 0 <= x < nc and 0 <= y < nr else 0)
            out[i, j] = sorted(v)[len(v) // 2]
    return out


def masked_by_definition(occ0, size, threshold, iterations):
    """mask, and whether a comparison was too close to be compared"""
    occ = occ0.astype(np.int64).copy()
    mask = np.zeros(occ.shape, bool)
    n = 0
    close = False
    while True:
        n += 1
        med = median_of(occ, size)
        q = [(occ[p] - med[p]) / np.sqrt(occ[p]) for p in zip(*np.nonzero(occ))]
        std = float(np.std(q)) if q else 0.0
        new = set()
        for p in zip(*np.nonzero(occ)):
            d, lim = occ[p] - med[p], threshold * std * np.sqrt(occ[p])
            close |= abs(d - lim) < 1e-6 * max(1.0, abs(lim)) and not (d == 0 and lim == 0)
            if d > lim:
                if not mask[p]:
                    new.add(p)
        for p in new:
            mask[p] = True
        # those above threshold again stay masked anyway
        occ[mask] = med[mask]
        if not new or (iterations and n >= iterations):
            return mask, close


def oracle_mask(o):
    rng = o.rng
    ha = o.mod('hit_analysis')
    box = files.Dir(o, 'mask')
    tel_mod = o.mod('telescope.telescope')
    while o.more():
        nc, nr = int(rng.integers(1, 14)), int(rng.integers(1, 14))
        mean = float(rng.choice([0.3, 2.0, 10.0]))
        occ = rng.poisson(mean, (nc, nr)).astype(np.int64)
        for _ in range(int(rng.integers(0, 5))):
            i, j = int(rng.integers(nc)), int(rng.integers(nr))
            occ[i, j] = int(rng.integers(5, 80))
            if rng.random() < 0.3 and i + 1 < nc:
                occ[i + 1, j] = int(rng.integers(5, 80))
        if not occ.any():
            occ[0, 0] = 1
        col, row = [np.repeat(v, occ.ravel()) for v in (np.repeat(np.arange(nc), nr) + 1, np.tile(np.arange(nr), nc) + 1)]
        k = rng.permutation(len(col))
        a = np.zeros(len(col), files.HIT_DT)
        a['event_number'] = np.sort(rng.integers(0, max(1, len(col) // 2), len(col)))
        a['column'], a['row'] = col[k], row[k]
        d0 = box.new()
        inp, outp = os.path.join(d0, 'hits.h5'), os.path.join(d0, 'mask.h5')
        files.table_file(inp, Hits=a)
        tel = files.telescope_file(d0, [files.dut_conf(nc=nc, nr=nr)])
        size, thr, it = int(rng.choice([1, 2, 3, 4, 5])), float(rng.choice([0.5, 1.0, 2.0, 3.7])), [None, 1, 2, 3][int(rng.integers(4))]
        name = str(rng.choice(['NoisyPixelMask', 'DisabledPixelMask']))
        dis = rng.random((nc, nr)) < 0.2 if name == 'NoisyPixelMask' and rng.random() < 0.4 else None
        text = 'mask_pixels of a %d x %d matrix, filter %d, threshold %.1f, iterations %s, occupancy %s' % (nc, nr, size, thr, it, occ.tolist())
        info = dict(hits=a, arguments=text)
        try:
            with files.quiet():
                dut = tel_mod.Telescope(tel)[0]
                r = ha.mask_pixels(dut=dut, input_hit_file=inp, pixel_mask_name=name, output_mask_file=outp, iterations=it, threshold=thr, filter_size=size, disable_mask=dis, plot=False, chunk_size=int(rng.choice([10000, 50])))
        except Exception as ex:
            o.fail('mask_pixels error', '%s raises %r' % (text, ex), info)
            continue
        want, close = masked_by_definition(occ, size, thr, it)
        o.count('mask_pixels', nontrivial=bool(want.any()), sample=text[:120])
        g = files.read_nodes(outp)
        o.check(np.array_equal(g['HistOcc'], occ), 'mask_pixels occupancy', '%s: occupancy %s' % (text, g['HistOcc'].tolist()), info)
        o.check(name in g and g[name].shape == occ.shape and not (g[name] & (occ == 0)).any(), 'mask_pixels empty pixels', '%s: pixels without hits are masked' % text, info)
        o.check(close or np.array_equal(g[name], want), 'mask_pixels mask', '%s: masked %s, expected %s' % (text, np.argwhere(g[name]).tolist(), np.argwhere(want).tolist()), info)
        if dis is not None:
            o.check(np.array_equal(g['DisabledPixelMask'], dis), 'mask_pixels disabled', '%s: disabled pixels change' % text, info)


ORACLE = [('mask_pixels', oracle_mask)]
BUDGET = 25
TRUSTED = ['scipy median_filter and numpy std depend on the values handed over only (the median of non-negative values is not negative)', 'SMC adds the histograms of all chunks (C30), hist_2d_index has its contract of C04']
ASSUME = ['square roots and products in real arithmetic', 'occupancies stay below 2^31']
BOUNDED = ['mask_pixels on real files against the definition with an own median, matrices up to 13 x 13']
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: loop invariant over the passes of the search, symbolic execution of the current source on one generic pixel, obligations discharged by z3'
LEVEL_NOTE = 'proved for all matrices, thresholds and any number of passes'
EXPLANATION = 'The invariant says that after k passes mask and occupancy are those of the definition after k passes, that only pixels with hits are masked and that unmasked pixels keep their occupancy; the body of the current loop is checked to preserve it, and the stored mask to be the one at the end.'
