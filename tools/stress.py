"""Quietness on the unchanged tree: bounded runs of every contract with many seeds.  usage: stress.py FIRST LAST [MULT] [module-substring]"""
import sys, os, random, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import multiprocessing as mp
from pyded import core, contracts, num as N, concrete
a, b = int(sys.argv[1]), int(sys.argv[2])
mult = float(sys.argv[3]) if len(sys.argv) > 3 else 1
sub = sys.argv[4] if len(sys.argv) > 4 else ''
def w(t):
    pkg, ql, seed = t
    core.CONTRACTS.clear(); contracts.build(pkg); N.set_field(5 if pkg == 'ico2' else 3)
    con = core.CONTRACTS[ql]
    out = []; n = 0; t0 = time.time()
    for case in con.cases:
        if case.gen is None and case.kinds is None:
            continue
        ev, sk, f = concrete.search(con, case, max(int((case.runs if case.runs is not None else 20) * mult), 3), seed, budget=120)
        n += ev
        if f:
            out.append((ql, case.name, seed, f[1][:200], f[2]))
    return ql, n, out, time.time() - t0
tasks = []
for pkg in ('ico2', 'dode2'):
    core.CONTRACTS.clear(); contracts.build(pkg)
    tasks += [(pkg, q, s) for q in core.CONTRACTS if sub in q for s in range(a, b)]
tot = 0
with mp.get_context('fork').Pool(8) as p:
    for ql, n, out, t in p.imap_unordered(w, tasks):
        tot += n
        for o in out:
            print('FAIL', *o, flush=True)
print('evaluations', tot)
