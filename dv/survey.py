"""Developer aid: run many random cases and print distinct failures.  ./py -m dv.survey c08 200"""
import importlib, random, sys
from dv.runner import warm, fork_job, batch_job, is_bad
def main():
    b = importlib.import_module('bounded.' + sys.argv[1])
    n = int(sys.argv[2]); seed = sys.argv[3] if len(sys.argv) > 3 else 0
    warm(getattr(b, 'WARM', ()))
    rng = random.Random(seed)
    gen = iter(b.cases(rng, 'quick'))
    cases = list(b.corners()) if hasattr(b, 'corners') else []
    try:
        while len(cases) < n: cases.append(next(gen))
    except StopIteration: pass
    import multiprocessing as mp
    ch = [cases[i:i+20] for i in range(0, len(cases), 20)]
    with mp.get_context('fork').Pool(8) as pool:
        res = pool.map(run, [(sys.argv[1], c) for c in ch], chunksize=1)
    st = {}; shown = {}
    for c, r in zip(ch, res):
        for case, (s, m) in zip(c, r):
            st[s] = st.get(s, 0) + 1
            if s not in ('ok', 'skip', 'undecided'):
                k = (str(m).split('\n')[0][:60] if s == 'fail' else str(m).strip().split('\n')[-1][:60])
                if k not in shown or len(str(m)) < len(shown[k][1]):
                    shown[k] = (s, str(m), case)
    print(st)
    und = {}
    for r in res:
        for s, m in r:
            if s == 'undecided':
                und[m] = und.get(m, 0) + 1
    if und: print('undecided:', sorted(und.items(), key=lambda x: -x[1])[:12])
    for k, (s, m, case) in sorted(shown.items(), key=lambda x: len(x[1][1]))[:int(sys.argv[4]) if len(sys.argv) > 4 else 4]:
        print('-----', s); print(m[:1500] if s == 'fail' else str(case)[:600] + '\n' + m[-300:])
def run(a):
    b = importlib.import_module('bounded.' + a[0])
    r = fork_job(lambda: batch_job(b, a[1], 20), 500)
    return r[1] if r[0] == 'ok' else [('error', str(r))] * len(a[1])
main()
