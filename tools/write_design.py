"""Write DESIGN.md: tools/design_head.md + per-property sections collected from properties.jsonl, contracts/ and known_findings.json."""
import glob
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def lst(v):
    if not v:
        return ['none']
    return [' '.join(str(x).split()) for x in v] if isinstance(v, (list, tuple)) else [' '.join(str(v).split())]


def main():
    props = {}
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)
        props[p['id']] = p
    kf = json.load(open(os.path.join(V, 'known_findings.json')))
    na = json.load(open(os.path.join(V, 'tools/not_applicable.json')))
    seeds = {}
    for d in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
        m = json.load(open(d))
        seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m.get('what_it_breaks', '')))
    out = [open(os.path.join(V, 'tools/design_head.md')).read().rstrip(), '', '## Properties, one by one', '',
           '(this part is collected by `tools/write_design.py` from the contract files, so it states what the checks really use)', '']
    for i in sorted(props):
        p = props[i]
        out += ['### %s %s' % (i, p['title']), '']
        if not os.path.exists(os.path.join(V, 'contracts/%s.py' % i)):
            out += ['Not claimed: %s' % na.get(i, 'not built'), '']
            continue
        m = importlib.import_module('contracts.' + i)
        how = []
        if getattr(m, 'CONTRACTS', None):
            how.append('E2 contracts: ' + ', '.join('`%s`' % getattr(c, 'name', c) for c in m.CONTRACTS()))
        if getattr(m, 'SYM', None):
            t = {}
            for nm, target, _ in m.SYM:
                t.setdefault(target, []).append(nm)
            how.append('E1 harnesses: ' + '; '.join('%s (%s)' % (', '.join('`%s`' % n for n in ns[:14]) + (' and %d more' % (len(ns) - 14) if len(ns) > 14 else ''), k) for k, ns in t.items()))
        if getattr(m, 'ORACLE', None):
            how.append('bounded run-time contract evaluation (replay and second opinion, never counted as proved): ' + ', '.join('`%s`' % n for n, _ in m.ORACLE))
        out += ['* ' + h for h in how]
        if getattr(m, 'EXPLANATION', ''):
            out.append('* what is shown: ' + ' '.join(m.EXPLANATION.split()))
        for nm, k in (('trusted', 'TRUSTED'), ('assumed', 'ASSUME'), ('bounded only', 'BOUNDED')):
            if getattr(m, k, None):
                out.append('* %s: %s' % (nm, '; '.join(lst(getattr(m, k)))))
        if getattr(m, 'LEVEL_NOTE', ''):
            out.append('* level: ' + m.LEVEL_NOTE)
        f = [x for x in kf['fixed'] if 'property=%s ' % i in x]
        for x in f:
            w = x.split()
            out.append('* defect repaired (%s): %s' % (w[2], ' '.join(w[3:])))
        for x in kf['findings']:
            if x['property'] == i:
                out.append('* known finding `%s`: %s' % (x['key'], x['what']))
        for s, w in seeds.get(i, []):
            out.append('* planted bug `%s`, caught: %s' % (s, ' '.join(w.split())))
        out.append('')
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')


main()
