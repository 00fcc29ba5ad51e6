"""run only the bounded oracle of one property: runoracle.py C24 [seconds] [seed]"""
import importlib, logging, os, sys, time, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
from vf import run
m = importlib.import_module('contracts.' + sys.argv[1])
sec = float(sys.argv[2]) if len(sys.argv) > 2 else 60
for part, f in m.ORACLE:
    o = run.Oracle('quick', int(sys.argv[3]) if len(sys.argv) > 3 else 1, sec / len(m.ORACLE), getattr(m, 'BUILD', False))
    t = time.time()
    try:
        f(o)
        print(part, 'ok', o.evals, o.nontrivial, '%.1f s' % (time.time() - t))
    except run.Failure as e:
        print(part, 'FAIL after', o.evals, e.key, e.what[:1500])
