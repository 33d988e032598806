"""dbg.py FILE CONTRACT [VARIANT-json]: run one contract in process, dropping failing goals into DBG."""
import sys, json, threading
sys.path.insert(0, '/verif'); sys.setrecursionlimit(60000); threading.stack_size(512*1024*1024)
from vc import symenv, prover, terms as tm
DBG = []
def hook(self, label, goal, orig=symenv.SymEnv._prove):
    n = self.res(label).ok
    orig(self, label, goal)
    if n and not self.res(label).ok:
        from vc.core import CTX
        DBG.append((label, CTX.all_facts(goal), goal))
symenv.SymEnv._prove = hook
def run(f, c, v=None, tl=20):
    box = {}
    def go():
        box['r'] = symenv.run_contract(f, c, v, tl, 900, sys.argv[4] if len(sys.argv) > 4 else '/repo')
        if post: post(box['r'])
    t = threading.Thread(target=go); t.start(); t.join()
    return box['r']
post = None
if __name__ == '__main__':
    v = json.loads(sys.argv[3]) if len(sys.argv) > 3 else None
    if isinstance(v, list): v = tuple(v)
    def post(r):
        for k in r['results']: print(k['label'], k['ok'], k['by'], k['time'])
        print({k: r[k] for k in ('paths', 'dead', 'error', 'unsupported')}, r.get('trace', '')[-1500:])
        from vc.core import CTX
        for label, facts, goal in DBG:
            print('FAILED', label)
            p = CTX.prover
            p.deadline = 1e18
            d = p._simplify_conds(facts, goal.args[0]) if goal.op == 'eq' else goal
            print(tm.show(d, 30)[:6000])
            if goal.op == 'eq':
                import time
                t0 = time.time()
                ok, info = prover.poly_zero(d, 1e18)
                print('poly', ok, time.time() - t0)
                if info:
                    print(tm.show(info[0].back(info[1]), 30)[:3000])
    run(sys.argv[1], sys.argv[2], v)
