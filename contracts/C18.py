"""C18 A telescope configuration survives saving and loading."""
import copy
import io
import os
import types

import numpy as np
import yaml

from vf import symx
from vf.symx import z3, S, A, Loader, explore, call, Raised
from contracts.C09 import TYPES, GENERIC, REMAPPED

TF = 'beam_telescope_analysis/telescope/telescope.py'
DF = 'beam_telescope_analysis/telescope/dut.py'
TM = 'beam_telescope_analysis.telescope.telescope'
AL = ('translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma')
CLASSES = list(TYPES) + list(GENERIC) + ['ScatteringPlane']
CLASSES = list(dict.fromkeys(CLASSES))
BASE = ('name',) + AL + ('x_limit', 'y_limit', 'material_budget', 'intrinsic_resolution')
MORE = {c: ('column_size', 'row_size', 'n_columns', 'n_rows') for c in GENERIC}
MORE.update({c: ('sensor_position',) for c in REMAPPED})


# ---- contract of the YAML library: what a document of basic Python values becomes after dump and load
class NotYaml(Exception):
    pass


def dump_value(x):
    if x is None or type(x) in (bool, int, float, str, symx.StrSub) or isinstance(x, (symx.PyFloat, symx.PyInt)):
        return str(x) if isinstance(x, str) else x
    if type(x) in (list, tuple):
        return [dump_value(y) for y in x]
    if type(x) is dict:
        return {dump_value(k): dump_value(v) for k, v in x.items()}
    raise NotYaml('cannot represent %s' % type(x))


class Files(object):
    """file system with YAML documents"""

    def __init__(self, **content):
        self.doc = dict(content)
        self.last = None

    def install(self, m):
        fs = self

        class F(object):
            def __init__(self, name, mode):
                self.name, self.mode = name, mode

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

            def read(self):
                raise symx.Unsupported('reading the text of a file')

        def op(name, mode='r', *a, **k):
            name = os.path.basename(name)
            if mode[0] == 'r' and name not in fs.doc:
                raise FileNotFoundError(name)
            if mode[0] == 'w':
                fs.doc[name] = None
            return F(name, mode)

        def load(f):
            return copy.deepcopy(fs.doc[f.name])

        def dump(d, f=None, **k):
            fs.doc[f.name] = dump_value(d)

        def replace(a, b):
            fs.doc[os.path.basename(b)] = fs.doc.pop(os.path.basename(a))

        path = types.SimpleNamespace(isfile=lambda p: os.path.basename(p) in fs.doc, exists=lambda p: os.path.basename(p) in fs.doc, abspath=lambda p: '/x/' + os.path.basename(p), basename=os.path.basename,
                                     join=os.path.join, splitext=os.path.splitext, dirname=os.path.dirname, isdir=lambda p: True)
        m.os = types.SimpleNamespace(path=path, replace=replace, rename=replace, getcwd=lambda: '/x')
        m.open, m.safe_load, m.safe_dump = op, load, dump
        m.__dict__['__builtins__'] = dict(m.__dict__['__builtins__'], open=op)
        return m


def load_module(c, files):
    ld = Loader()
    m = ld.module(TM)
    files.install(m)
    dut = ld.module('beam_telescope_analysis.telescope.dut')
    m.importlib = types.SimpleNamespace(import_module=lambda n: ld.module(n))
    return m, dut


def values(c, i, cls, given, name=None):
    """arbitrary attribute values: numpy scalars, integers, unsorted limits or none"""
    r = lambda n: c.real('%s_%d' % (n, i))
    kw = {n: r(n) for n in AL}
    if name is not None:
        kw['name'] = name
    if given:
        kw['x_limit'] = (r('x1'), r('x2'))
        kw['y_limit'] = [r('y1'), r('y2')]
        kw['material_budget'] = r('budget')
        kw['intrinsic_resolution'] = (r('rx'), r('ry'))
    if cls in GENERIC:
        kw.update(column_size=r('column'), row_size=r('row'), n_columns=c.int('nc_%d' % i), n_rows=c.int('nr_%d' % i))
    if cls in REMAPPED:
        kw['sensor_position'] = (c.int('sx_%d' % i), c.int('sy_%d' % i))
    return kw


def same(c, what, a, b):
    """two attribute values are equal and of the same container type"""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        ok = type(a) is type(b) and len(a) == len(b)
        c.goal('%s: same container' % what, ok)
        if ok:
            for x, y in zip(a, b):
                same(c, what, x, y)
    elif a is None or b is None or isinstance(a, str) or isinstance(b, str):
        c.goal(what, a == b and type(a) is type(b))
    else:
        c.eq(what, a, b)


def expected(kw, cls, dut_id):
    e = dict(name=str(kw.get('name', 'DUT%d' % dut_id)))
    for n in AL:
        e[n] = kw[n]
    for n in ('x_limit', 'y_limit'):
        e[n] = None if n not in kw else (symx.f_min(*kw[n]), symx.f_max(*kw[n]))
    e['material_budget'] = kw.get('material_budget', symx.lift(0.0))
    e['intrinsic_resolution'] = tuple(kw['intrinsic_resolution']) if 'intrinsic_resolution' in kw else (symx.lift(3.5), symx.lift(3.5)) if cls == 'Mimosa26' else None
    for n in MORE.get(cls, ()):
        e[n] = tuple(kw[n]) if isinstance(kw[n], tuple) else kw[n]
    return e


def with_types(f):
    def g(*a):
        symx.PYTYPES = True
        try:
            return f(*a)
        finally:
            symx.PYTYPES = False
    return g


def compare(c, t, spec, align):
    c.goal('same numbers', sorted(t.dut) == sorted(spec))
    c.goal('number of detectors', len(t.dut) == len(spec))
    for i, (cls, kw) in spec.items():
        if i not in t.dut:
            continue
        d = t.dut[i]
        c.goal('same type', type(d).__name__ == cls)
        for n, v in expected(kw, cls, i).items():
            same(c, '%s of a %s' % (n, cls), getattr(d, n), v)
    for n, v in align.items():
        c.eq('telescope %s' % n, getattr(t, n), v)


def roundtrip(spec0):
    def run(c):
        fs = Files()
        m, dut = load_module(c, fs)
        align = {n: c.real('telescope_' + n) for n in AL}
        t = call(m.Telescope, **align)
        if isinstance(t, Raised):
            c.goal('telescope', False)
            return
        spec = {}
        for i, (cls, given, name) in spec0.items():
            kw = values(c, i, cls, given, name)
            spec[i] = (cls, kw)
            r = call(t.add_dut, dut_type=cls, dut_id=i, **kw)
            c.goal('detector accepted', not isinstance(r, Raised))
        compare(c, t, spec, align)
        r = call(t.save_configuration, 'a.yaml')
        c.goal('saved', not isinstance(r, Raised) and 'a.yaml' in fs.doc)
        if isinstance(r, Raised):
            return
        compare(c, t, spec, align)           # saving does not change the telescope
        u = call(m.Telescope, 'a.yaml')
        c.goal('loaded', not isinstance(u, Raised))
        if isinstance(u, Raised):
            return
        compare(c, u, spec, align)
        c.goal('order of the detectors', [type(x).__name__ for x in u] == [spec[i][0] for i in sorted(spec)])
        # a second generation, saved without naming the file, after a change of every value
        new = {n: c.real('moved_telescope_' + n) for n in AL}
        for n, v in new.items():
            setattr(u, n, v)
        for i, (cls, kw) in spec.items():
            kw = dict(kw, **{k: v for k, v in values(c, 100 + i, cls, True).items()})
            for k, v in kw.items():
                setattr(u.dut[i], k, v)
            kw.setdefault('name', 'DUT%d' % i)
            spec[i] = (cls, kw)
        r = call(u.save_configuration)
        c.goal('saved again', not isinstance(r, Raised))
        w = call(m.Telescope, 'a.yaml')
        if isinstance(w, Raised):
            c.goal('loaded again', False)
            return
        compare(c, w, spec, new)
    return explore('round trip of %s' % (list(spec0.values()),), TF, with_types(run))


def others(content, nm):
    def run(c):
        fs = Files(a=None)
        fs.doc = {'a.yaml': copy.deepcopy(content)}
        m, dut = load_module(c, fs)
        align = {n: c.real('telescope_' + n) for n in AL}
        t = call(m.Telescope, **align)
        spec = {}
        for i, cls in ((3, 'Mimosa26'), (0, 'FEI4')):
            kw = values(c, i, cls, True)
            spec[i] = (cls, kw)
            call(t.add_dut, dut_type=cls, dut_id=i, **kw)
        r = call(t.save_configuration, 'a.yaml', keep_others=True)
        c.goal('saved', not isinstance(r, Raised))
        if isinstance(r, Raised):
            return
        got = fs.doc['a.yaml']
        for k, v in (content or {}).items():
            if k != 'TELESCOPE':
                c.goal('unrelated content %s kept' % k, k in got and got[k] == v)
        c.goal('nothing else added', set(got) == set(content or {}) | {'TELESCOPE'})
        for k, v in ((content or {}).get('TELESCOPE') or {}).items():
            if k != 'DUT' and k not in AL:
                c.goal('unrelated telescope content %s kept' % k, k in got['TELESCOPE'] and got['TELESCOPE'][k] == v)
        u = call(m.Telescope, 'a.yaml')
        if isinstance(u, Raised):
            c.goal('loaded', False)
            return
        compare(c, u, spec, align)
        # without preservation only the telescope is in the file
        r = call(t.save_configuration, 'a.yaml')
        c.goal('overwritten', not isinstance(r, Raised) and set(fs.doc['a.yaml']) == {'TELESCOPE'})
        u = call(m.Telescope, 'a.yaml')
        c.goal('loaded', not isinstance(u, Raised))
        if not isinstance(u, Raised):
            compare(c, u, spec, align)
        c.goal('missing file refused', isinstance(call(m.Telescope, 'missing.yaml'), Raised))
        # a new telescope saved over content that is to be kept
    return explore('preservation, %s' % nm, TF, with_types(run))


def refuse():
    def run(c):
        fs = Files()
        m, dut = load_module(c, fs)
        for cls in CLASSES:
            kw = values(c, 0, cls, True, 'dut')
            d = call(getattr(dut, cls), **kw)
            if isinstance(d, Raised):
                c.goal('detector accepted', False)
                continue
            e = expected(kw, cls, 0)
            allowed = set(e)
            names = set(allowed) | {'column_size', 'row_size', 'n_columns', 'n_rows', 'sensor_position', 'dut_attributes', 'something', 'thickness', 'Name', 'column', 'translation', 'pixel_size', 'x_extent',
                                    '_x', '__class__', 'index_to_local_position'}
            names |= {'_' + n for n in ('column_size', 'n_rows', 'something', 'sensor_position')}
            for n in sorted(names):
                ok = n in allowed or (n[0] == '_' and n[1:] in allowed)
                if ok:
                    continue
                before = getattr(d, n, None)
                r = call(setattr, d, n, symx.lift(7.0))
                c.goal('%s refuses a change of %s' % (cls, n), isinstance(r, Raised) and isinstance(r.ex, ValueError))
                after = getattr(d, n, None)
                c.goal('%s keeps %s' % (cls, n), before is after or before == after)
            for n, v in e.items():
                same(c, '%s of a %s unchanged by the refused changes' % (n, cls), getattr(d, n), v)
            c.goal('attributes of %s' % cls, set(d.dut_attributes) == allowed)
        t = call(m.Telescope)
        c.goal('only detectors in a telescope', isinstance(call(t.__setitem__, 0, 'x'), Raised) and len(t.dut) == 0)
        c.goal('numbers are integers', isinstance(call(t.add_dut, 'FEI4', '1', **{n: 0.0 for n in AL}), Raised) and len(t.dut) == 0)
        c.goal('unknown type refused', isinstance(call(t.add_dut, 'NoSuchDetector', 1, **{n: 0.0 for n in AL}), Raised) and len(t.dut) == 0)
    return explore('refused changes', DF, with_types(run))


OTHER = [('empty file', None), ('empty telescope', {'TELESCOPE': None, 'A': [1, 2]}), ('other content', {'RUN': {'number': 4, 'names': ['a', 'b']}, 'NOTE': 'text'}),
         ('old telescope', {'TELESCOPE': {'translation_x': 4.0, 'comment': 'kept', 'DUT': {0: {'dut_type': 'PSI46', 'name': 'old'}, 7: {'dut_type': 'FEI4'}}}, 'ZZ': {'x': None}})]
SPECS = [{}] + [{0: (c, True, 'a detector')} for c in CLASSES] + [{4: (c, False, None)} for c in CLASSES] + [
    {2: ('FEI4', True, 'b'), 0: ('Mimosa26', False, None), 10: ('RectangularPixelDut', True, 'a'), 1: ('ScatteringPlane', False, 'a')}]
SYM = [('round trip %d' % i, TF + ':Telescope.save_configuration, load_configuration, add_dut; ' + DF + ':' + ','.join(sorted({v[0] for v in s.values()})) + ' attribute setters',
        lambda s=s: roundtrip(s)) for i, s in enumerate(SPECS)]
SYM += [('preservation, ' + nm, TF + ':Telescope.save_configuration (keep_others)', lambda v=v, nm=nm: others(v, nm)) for nm, v in OTHER]
SYM += [('refused changes', DF + ':Dut.__setattr__', refuse)]


# ---- bounded check on real files
def num(o, integer=False):
    np_ = o.np
    if integer:
        v = int(o.rng.integers(1, 500))
        return v if o.rng.random() < 0.5 else np_.int64(v)
    v = float(o.rng.choice([0.0, o.rng.normal(), o.rng.normal() * 1e6, 1e-7 * o.rng.normal(), 1. / 3, 1e22, -0.1]))
    k = o.rng.integers(0, 4)
    return v if k == 0 else np_.float64(v) if k == 1 else np_.float32(v) if k == 2 else int(v)


def config(o, cls):
    kw = {n: num(o) for n in AL}
    for n in ('x_limit', 'y_limit'):
        if o.rng.random() < 0.6:
            kw[n] = [num(o), num(o)]
            if o.rng.random() < 0.5:
                kw[n] = tuple(kw[n])
    if o.rng.random() < 0.6:
        kw['material_budget'] = abs(num(o))
    if o.rng.random() < 0.6:
        kw['intrinsic_resolution'] = (num(o), num(o))
    if o.rng.random() < 0.6:
        kw['name'] = str(o.rng.choice(['plane', '1', 'yes', 'a: b', '#3', 'null', 'äöü', '1e3', ' x ']))
    if cls in GENERIC:
        kw.update(column_size=abs(num(o)), row_size=abs(num(o)), n_columns=num(o, True), n_rows=num(o, True))
    if cls in REMAPPED:
        kw['sensor_position'] = (num(o, True), num(o, True))
    return kw


def plain_expected(kw, cls, i):
    e = dict(name=kw.get('name', 'DUT%d' % i))
    for n in AL:
        e[n] = float(kw[n])
    for n in ('x_limit', 'y_limit'):
        e[n] = (float(min(kw[n])), float(max(kw[n]))) if n in kw else None
    e['material_budget'] = float(kw.get('material_budget', 0.0))
    e['intrinsic_resolution'] = tuple(float(v) for v in kw['intrinsic_resolution']) if 'intrinsic_resolution' in kw else (3.5, 3.5) if cls == 'Mimosa26' else None
    for n in MORE.get(cls, ()):
        e[n] = tuple(int(v) for v in kw[n]) if n == 'sensor_position' else int(kw[n]) if n in ('n_columns', 'n_rows') else float(kw[n])
    return e


def check_tel(o, t, spec, al, what):
    o.check(sorted(t.dut) == sorted(spec) and len(t) == len(spec), 'numbers', 'detector numbers %s' % sorted(t.dut), what)
    o.check([d.name for d in t] == [plain_expected(spec[i][1], spec[i][0], i)['name'] for i in sorted(spec)], 'order', 'order of the detectors %s' % [d.name for d in t], what)
    for i, (cls, kw) in spec.items():
        o.check(type(t[i]).__name__ == cls, 'type', 'detector %d is a %s' % (i, type(t[i]).__name__), what)
        for n, v in plain_expected(kw, cls, i).items():
            g = getattr(t[i], n)
            o.check(g == v and type(g) is type(v), 'attribute', '%s of detector %d (%s): %r instead of %r' % (n, i, cls, g, v), what)
    for n, v in al.items():
        o.check(getattr(t, n) == float(v), 'telescope', 'telescope %s is %r instead of %r' % (n, getattr(t, n), v), what)


def o_roundtrip(o):
    m = o.mod('telescope.telescope')
    path = os.path.join(o.scratch, 'tel.yaml')
    while o.more():
        ids = [int(x) for x in o.rng.permutation(12)[:int(o.rng.integers(0, 5))]]
        al = {n: num(o) for n in AL}
        spec = {i: (str(o.rng.choice(CLASSES)), None) for i in ids}
        spec = {i: (cls, config(o, cls)) for i, (cls, _) in spec.items()}
        what = dict(detectors=spec, telescope=al)
        t = m.Telescope(**al)
        for i, (cls, kw) in spec.items():
            t.add_dut(cls, i, **kw)
        check_tel(o, t, spec, al, what)
        content = None
        keep = bool(o.rng.random() < 0.5)
        if os.path.exists(path):
            os.remove(path)
        if o.rng.random() < 0.6:
            content = [{}, {'RUN': {'n': 3, 'l': [1, 2.5, None, 'x']}}, {'TELESCOPE': {'note': 'x', 'translation_x': 1e9, 'DUT': {77: {'dut_type': 'FEI4'}}}, 'B': True}, {'TELESCOPE': None, 'A': 'b'}][int(o.rng.integers(0, 4))]
            with open(path, 'w') as f:
                if content:
                    yaml.safe_dump(content, f)
        t.save_configuration(path, keep_others=keep)
        check_tel(o, t, spec, al, what)
        with open(path) as f:
            got = yaml.safe_load(f)
        what.update(before=content, keep_others=keep)
        if keep:
            for k, v in (content or {}).items():
                o.check(k == 'TELESCOPE' or k in got and got[k] == v, 'other content', 'content %s is lost' % k, what)
            for k, v in ((content or {}).get('TELESCOPE') or {}).items():
                o.check(k in AL or k == 'DUT' or got['TELESCOPE'].get(k) == v, 'other content', 'telescope content %s is lost' % k, what)
            o.check(set(got) == set(content or {}) | {'TELESCOPE'}, 'other content', 'content of the file %s' % sorted(got), what)
        else:
            o.check(set(got) == {'TELESCOPE'}, 'other content', 'content of the file %s' % sorted(got), what)
        u = m.Telescope(path)
        check_tel(o, u, spec, al, what)
        # several generations with changes in between
        for g in range(2):
            al = {n: num(o) for n in AL}
            for n, v in al.items():
                setattr(u, n, v)
            for i in list(spec):
                cls, kw = spec[i]
                kw = dict({k: v for k, v in kw.items()}, **config(o, cls))
                kw.setdefault('name', 'DUT%d' % i)
                if o.rng.random() < 0.3:
                    kw['x_limit'] = None
                for k, v in kw.items():
                    setattr(u[i], k, v)
                if kw.get('x_limit', 0) is None:
                    del kw['x_limit']
                spec[i] = (cls, kw)
            u.save_configuration()
            u = m.Telescope(path)
            what = dict(detectors=spec, telescope=al, generation=g)
            check_tel(o, u, spec, al, what)
        o.count('telescopes', bool(spec), what)


def o_refuse(o):
    m = o.mod('telescope.dut')
    while o.more():
        cls = str(o.rng.choice(CLASSES))
        kw = config(o, cls)
        kw['name'] = 'dut'
        d = getattr(m, cls)(**kw)
        allowed = set(BASE) | set(MORE.get(cls, ()))
        names = ['column_size', 'row_size', 'n_columns', 'n_rows', 'sensor_position', 'dut_attributes', 'something', 'Name', 'translation', 'pixel_size', 'n_pixel', '_x', '_something', 'nam', 'name_', 'x_extent']
        for n in names + ['_column_size', '_n_rows', '_sensor_position']:
            if n in allowed or (n[0] == '_' and n[1:] in allowed):
                continue
            try:
                setattr(d, n, 3)
                o.fail('refused', '%s accepts a change of %s' % (cls, n), dict(detector=cls, attribute=n))
            except ValueError:
                pass
            except AttributeError:
                o.fail('refused', '%s does not refuse the change of %s with a ValueError' % (cls, n), dict(detector=cls, attribute=n))
        for n, v in plain_expected(kw, cls, 0).items():
            o.check(getattr(d, n) == v, 'unchanged', '%s of a %s is %r' % (n, cls, getattr(d, n)), kw)
        o.count(cls, True, kw)


ORACLE = [('round trip', o_roundtrip), ('refused changes', o_refuse)]
BUDGET = 16
TRUSTED = ['PyYAML: a document of None, booleans, integers, floats, strings, lists and dictionaries is loaded as it was dumped; tuples become lists; anything else (numpy values) is refused by safe_dump',
           'os.path and open: a written file is the file that is read']
ASSUME = ['telescopes of 0, 1 and 4 detectors in the proof: the loops over detectors treat each one alike; attribute values are arbitrary']
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the current source, obligations discharged by polynomial identities and z3'
LEVEL_NOTE = 'attribute values are symbolic; number and types of detectors are enumerated'
EXPLANATION = 'Telescopes of every detector type with arbitrary attribute values are saved and loaded by the current source on top of the YAML contract; every attribute comes back.'
