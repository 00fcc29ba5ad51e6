"""The real C++ header compiled with address / undefined-behaviour sanitizer; heap blocks of exactly the given sizes."""
import os
import subprocess

from vf import real

SRC = r'''
#include <vector>
#include <cstdint>
#include <cstdio>
#include <iostream>
#include "AnalysisFunctions.h"
template <class T> T* block(const std::vector<long long>& v) { T* p = new T[v.size()]; for (size_t i = 0; i < v.size(); ++i) p[i] = (T)v[i]; return p; }
static std::vector<long long> rd() { size_t n; std::cin >> n; std::vector<long long> v(n); for (auto& x : v) std::cin >> x; return v; }
int main() {
  std::string k; long id = 0;
  while (std::cin >> k) {
    fprintf(stderr, "CASE %ld\n", id); printf("%ld", id); ++id;
    try {
    if (k == "I" || k == "M" || k == "X") {
      auto a = rd(), b = rd(); size_t nr; std::cin >> nr;
      int64_t* pa = block<int64_t>(a); int64_t* pb = block<int64_t>(b);
      unsigned int na = a.size(), nb = b.size(), n = nr, r = 0;
      if (k == "M") { uint8_t* s = new uint8_t[nr]; in1d_sorted(pa, na, pb, nb, s); for (size_t i = 0; i < nr; ++i) printf(" %d", s[i]); delete[] s; }
      else { int64_t* s = new int64_t[nr]; r = k == "I" ? getEventsInBothArrays(pa, na, pb, nb, s) : getMaxEventsInBothArrays(pa, na, pb, nb, s, n);
             if (r > nr) { printf(" TOOLONG"); r = 0; } for (size_t i = 0; i < r; ++i) printf(" %lld", (long long)s[i]); delete[] s; }
      delete[] pa; delete[] pb;
    } else if (k == "H1" || k == "H2" || k == "H3") {
      int d = k[1] - '0'; std::vector<std::vector<long long>> xs; for (int i = 0; i < d; ++i) xs.push_back(rd());
      std::vector<long long> sh = rd(); auto init = rd(); size_t tot = init.size(); unsigned int n = xs[0].size();
      const unsigned int* p[3]; unsigned int* q[3]; for (int i = 0; i < d; ++i) { q[i] = block<unsigned int>(xs[i]); p[i] = q[i]; }
      unsigned int s0 = sh[0], s1 = d > 1 ? sh[1] : 0, s2 = d > 2 ? sh[2] : 0;
      if (d < 3) { uint32_t* r = block<uint32_t>(init); try { if (d == 1) histogram_1d(p[0], n, s0, r); else histogram_2d(p[0], p[1], n, s0, s1, r); for (size_t i = 0; i < tot; ++i) printf(" %u", r[i]); } catch (std::exception& e) { printf(" EXC"); } delete[] r; }
      else { uint16_t* r = block<uint16_t>(init); try { histogram_3d(p[0], p[1], p[2], n, s0, s1, s2, r); for (size_t i = 0; i < tot; ++i) printf(" %u", r[i]); } catch (std::exception& e) { printf(" EXC"); } delete[] r; }
      for (int i = 0; i < d; ++i) delete[] q[i];
    }
    } catch (std::exception& e) { printf(" EXC"); }
    printf("\n"); fflush(stdout);
  }
}
'''
_bin = None


def binary():
    global _bin
    if _bin is None:
        d = real.scratch_dir()
        src = os.path.join(d, 'h.cpp')
        with open(src, 'w') as f:
            f.write(SRC)
        _bin = os.path.join(d, 'h')
        subprocess.run(['g++', '-std=c++14', '-w', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-I',
                        real.path('beam_telescope_analysis/cpp'), src, '-o', _bin], check=True, timeout=300)
    return _bin


def fmt(v):
    return '%d %s' % (len(v), ' '.join(str(int(x)) for x in v))


def line(c):
    if c[0] in 'IMX':
        return '%s %s %s %d' % (c[0], fmt(c[1]), fmt(c[2]), c[3])
    return '%s %s %s %s' % (c[0], ' '.join(fmt(x) for x in c[1]), fmt(c[2]), fmt(c[3]))


def expected(c):
    if c[0] == 'I':
        return sorted(set(c[1]) & set(c[2]))
    if c[0] == 'M':
        return [int(x in set(c[2])) for x in c[1]]
    if c[0] == 'X':
        r = [v for v in sorted(set(c[1]) | set(c[2])) for _ in range(max(c[1].count(v), c[2].count(v)))]
        return ['EXC'] if len(r) > c[3] else r
    d = int(c[0][1])
    r = list(c[3])
    mx = 4294967295 if d < 3 else 65535
    for t in zip(*c[1]):
        if any(not (0 <= x < s) for x, s in zip(t, c[2])):
            return ['EXC']
        k = 0
        for x, s in zip(t, c[2]):
            k = k * s + x
        if r[k] >= mx:
            return ['EXC']
        r[k] += 1
    return r


def run(o, cases):
    inp = '\n'.join(line(c) for c in cases) + '\n'
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    p = subprocess.run([binary()], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, env=env)
    out = p.stdout.decode().splitlines()
    if p.returncode != 0:
        err = p.stderr.decode(errors='replace')
        ids = [l for l in err.splitlines() if l.startswith('CASE ')]
        k = int(ids[-1].split()[1]) if ids else 0
        rep = [l for l in err.splitlines() if 'ERROR' in l or 'runtime error' in l]
        o.fail('sanitizer', 'C++ function, case %s: %s' % (line(cases[k]), rep[:1] or 'abnormal end'), dict(case=cases[k], report=err[-3000:]))
    for c, l in zip(cases, out):
        o.count('C++ functions under sanitizers', nontrivial=True, sample=line(c))
        got = [x if x in ('EXC', 'TOOLONG') else int(x) for x in l.split()[1:]]
        exp = expected(c)
        o.check(got == exp, 'C++ result', 'C++ function, case %s: got %s, expected %s' % (line(c), got, exp), dict(case=c))


def layouts(np, a):
    """the same values in the memory layouts that occur: contiguous, strided, column of a record array, reversed view"""
    a = np.asarray(a)
    rec = np.zeros(len(a), dtype=[('x', 'u1'), ('v', a.dtype), ('y', 'f4')])
    rec['v'] = a
    return [a, np.repeat(a, 2)[::2], rec['v'], a[::-1].copy()[::-1]]


def relayout(o, a):
    return layouts(o.np, a)[int(o.rng.integers(0, 4))]
