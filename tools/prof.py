"""profile random paths of one harness: prof.py C10 passage "{'n':3}" 100"""
import cProfile, importlib, os, pstats, random, sys, time, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter('ignore')
from engine import harness as H, loader, sym as S
mod = importlib.import_module('props.' + sys.argv[1])
params = eval(sys.argv[3])
h = next(h for h in mod.HARNESSES if h.name == sys.argv[2])
K = int(sys.argv[4]) if len(sys.argv) > 4 else 100
loader.symbolic(); S.z3()
rng = random.Random(3)
orig = S.Path.choose
def choose(self, n, *a, **k):
    if n == 1:
        return 0
    if self.pos < len(self.prefix):
        return orig(self, n)
    v = rng.randrange(n)
    self.pos += 1
    self.taken.append(v)
    self.prefix = self.taken[:]
    return v
S.Path.choose = choose
ts = []
st = {}
def go():
    for k in range(K):
        t0 = time.time()
        try:
            r = H.run_path(h.func, params, (), k, 20)
            s = r['status'] + (' viol' if r['viol'] else '') + (' unk' if r['unknown'] else '')
            if r['viol'] or r['status'] == 'unsupported': s += ' ' + str(r['viol'][0][0] if r['viol'] else r.get('why'))[:150]
        except S.PathBudget:
            s = 'budget'
        st[s] = st.get(s, 0) + 1
        ts.append(time.time() - t0)
pr = cProfile.Profile()
if len(sys.argv) > 5:
    pr.enable()
go()
pr.disable()
ts.sort()
print(st)
print('mean %.4f median %.4f max %.3f' % (sum(ts) / len(ts), ts[len(ts) // 2], ts[-1]))
if len(sys.argv) > 5:
    pstats.Stats(pr).sort_stats('tottime').print_stats(25)
