"""developer helper: per-obligation times of one proof"""
import os, sys
os.environ['PYVC_DEBUG'] = '1'
sys.path[:0] = ['/verif', '/repo']
import warnings; warnings.simplefilter('ignore')
from pyvc import loader, verify, core
import bayes_optim, importlib
loader.load('')
prop, name = sys.argv[1:3]
importlib.import_module('contracts.' + prop)
warnings.simplefilter('ignore')
od = core.discharge
def d(ob, *a, **k):
    r = od(ob, *a, **k); print(ob.name, ob.status, round(ob.time, 2), ob.backend, len(ob.hyps) if hasattr(ob,'hyps') else '', flush=True); return r
core.discharge = d
for p in verify.PROOFS:
    if p.prop == prop and p.name == name:
        r = verify.run_proof(p)
        print({k: v for k, v in r.items() if k not in ('obligations', 'trace')})
        if '-t' in sys.argv: print(r.get('trace'))
