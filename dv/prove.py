"""Developer aid: run the contracts of one property.  ./py -m dv.prove c08 [name-substring]"""
import importlib, sys, time, multiprocessing as mp
from dv.runner import fork_job, run_contract
def one(a):
    return fork_job(lambda: run_contract(a[0], a[1], 'quick', a[2]), a[2] + 60)
def main():
    mod = 'contracts.' + sys.argv[1]
    m = importlib.import_module(mod)
    sel = [i for i, c in enumerate(m.CONTRACTS) if len(sys.argv) < 3 or sys.argv[2].lower() in c.name.lower()]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for i, r in zip(sel, ex.map(one, [(mod, i, 300.0) for i in sel])):
            if r[0] != 'ok':
                print(m.CONTRACTS[i].name, r); continue
            p = r[1]
            d = sum(o['status'] == 'discharged' for o in p['obligations'])
            print('%-44s %d/%d paths %d  %.1fs (solver %.1f, %d checks) oor=%s covers=%s' % (p['contract'], d, len(p['obligations']), p['paths'], p['wall'], p['solver_time'], p['checks'], p['oor'], p['covered'][:8]))
            miss = [c for c in p['expect'] if c not in p['covered']]
            if miss: print('   NOT COVERED', miss)
            slow = sorted(p['obligations'], key=lambda o: -o['ms'])[:3]
            for o in slow:
                if o['ms'] > 1500: print('   slow', o['name'], o['ms'], o['backend'])
            n = 0
            for o in p['obligations']:
                if o['status'] != 'discharged' and n < 6:
                    n += 1
                    print('   ', o['status'], o['name'], o.get('input', ''), o.get('replayed', ''), '\n', o.get('model', '')[:1500])
            if p['bounded']: print('   bounded:', [ (o['name'], o.get('input'), o.get('replayed')) for o in p['bounded']['refuted']], p['bounded']['oor'], p['bounded']['paths'])
            if p.get('oor_tb'): print(p['oor_tb'])
main()
