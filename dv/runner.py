"""check <property> : proof layer + bounded stand-in, evidence, verdict."""
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('DV_OUT') or os.path.join(VERIF, 'out')


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ forked jobs

def fork_job(fn, timeout):
    """Run fn() in a forked child; returns ('ok', value) | ('error', text) | ('timeout', None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            try:
                v = ('ok', fn())
            except BaseException as e:
                v = ('error', ''.join(traceback.format_exception(e))[-4000:])
            data = pickle.dumps(v)
            with os.fdopen(w, 'wb') as f:
                f.write(struct.pack('<Q', len(data)))
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    end = time.time() + timeout
    need = None
    res = None
    while True:
        left = end - time.time()
        if left <= 0:
            res = ('timeout', None)
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        buf += chunk
        if need is None and len(buf) >= 8:
            need = struct.unpack('<Q', buf[:8])[0]
        if need is not None and len(buf) >= 8 + need:
            break
    os.close(r)
    if res is None:
        if need is not None and len(buf) >= 8 + need:
            res = pickle.loads(buf[8:8 + need])
        else:
            res = ('error', 'child died')
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os.waitpid(pid, 0)
    return res


def quiet():
    """Silence plasTeX's own logging / printing inside a job."""
    import logging
    logging.disable(logging.CRITICAL)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)


# ------------------------------------------------------------------ proof layer

def run_contract(mod, i, tier, limit):
    quiet()
    sys.setrecursionlimit(5000)
    from dv.core import Engine
    m = importlib.import_module(mod)
    c = m.CONTRACTS[i]()
    kw = dict(getattr(c, 'engine', {}))
    E = Engine(c, time_limit=kw.pop('time_limit', limit), **kw)
    t = time.time()
    E.explore()
    res = dict(contract=c.name, functions=dict(E.functions), obligations=E.obligations, oor=E.oor,
               paths=E.paths, covered=sorted(E.covered), solver_time=round(E.solver_time, 2),
               checks=E.n_checks, wall=round(time.time() - t, 2),
               oor_tb=getattr(E, 'oor_tb', None), refuted=E.refuted, bounded=None,
               assumptions=list(getattr(c, 'assumptions', [])), proves=getattr(c, 'proves', ''),
               expect=list(getattr(c, 'covers', [])), scope=getattr(c, 'scope', None))
    if E.refuted and getattr(c, 'bounded_search', True):
        # look for a concrete counterexample without relying on loop invariants
        c2 = m.CONTRACTS[i]()
        kw = dict(getattr(c2, 'engine', {}))
        kw.pop('time_limit', None)
        E2 = Engine(c2, mode='bounded', bound=getattr(c2, 'bound', 3), time_limit=25.0, **kw)
        try:
            E2.explore()
            res['bounded'] = dict(refuted=E2.refuted, oor=E2.oor, paths=E2.paths)
        except BaseException as e:
            res['bounded'] = dict(refuted=[], oor=repr(e), paths=0)
    # replay
    for ob in res['refuted'] + ((res['bounded'] or {}).get('refuted') or []):
        if 'input' in ob and hasattr(c, 'replay'):
            try:
                msg = c.replay(ob['input'])
            except Exception as e:
                msg = None
                ob['replay_error'] = repr(e)
            ob['replayed'] = msg
    # The invariants of this contract belong to loops that the code no longer has where they were (a helper was extracted, a loop
    # rewritten): what fails without them says nothing about the code, unless an input confirms it.
    moved = sorted(E.loops_declared - E.loops_met)
    if res['refuted'] and moved and E.loops_foreign and not any(
            o.get('replayed') for o in res['refuted'] + ((res['bounded'] or {}).get('refuted') or [])):
        why = 'loops under contract are gone: %s; loops without an invariant: %s' % (moved, sorted(E.loops_foreign))
        for o in res['obligations']:
            if o['status'] == 'refuted':
                o['status'] = 'undischarged'
        res['oor'] = '%s%s' % (res['oor'] + '; ' if res['oor'] else '', why)
        res['refuted'] = []
    return res


# ------------------------------------------------------------------ bounded layer

class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


def check_case(b, case, limit):
    """-> (status, message): ok / fail / skip / timeout / error"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        r = b.check(case)
        if r is None or r is True:
            return 'ok', None
        if isinstance(r, tuple):
            return r
        return 'fail', str(r)
    except Timeout:
        return 'timeout', 'no result after %s s' % limit
    except BaseException as e:
        return 'error', ''.join(traceback.format_exception(e))[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def batch_job(b, cases, limit):
    quiet()
    if hasattr(b, 'setup'):
        b.setup()
    return [check_case(b, c, limit) for c in cases]


def isolate(b, case, limit):
    r = fork_job(lambda: batch_job(b, [case], limit)[0], limit + 20)
    if r[0] == 'ok':
        return r[1]
    return ('timeout' if r[0] == 'timeout' else 'error'), str(r[1])


def is_bad(b, status):
    return status == 'fail' or (status == 'timeout' and getattr(b, 'TIMEOUT_FAILS', False)) or \
        (status == 'error' and getattr(b, 'ERROR_FAILS', True))


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def warm(extra=()):
    # imports only: no document is processed in the worker itself
    for m in ('plasTeX.TeX', 'plasTeX.Context', 'plasTeX.Config', 'plasTeX.Packages.article', 'plasTeX.Packages.book',
              'plasTeX.Packages.report', 'plasTeX.Packages.amsthm', 'plasTeX.Packages.amsmath', 'xml.parsers.expat',
              'plasTeX.Packages.ifthen') + tuple(extra):
        try:
            importlib.import_module(m)
        except Exception:
            pass


def bounded_worker(modname, seed, tier, widx, nworkers, budget, q):
    try:
        b = importlib.import_module(modname)
        warm(getattr(b, 'WARM', ()))
        rng = random.Random('%s/%s/%s' % (seed, modname, widx))
        end = time.time() + budget
        limit = getattr(b, 'CASE_LIMIT', 20)
        n = nontriv = skipped = 0
        seen = set()
        samples, bad, odd = [], [], []
        size = getattr(b, 'BATCH', 25)
        corners = [c for k, c in enumerate(b.corners()) if k % nworkers == widx] if hasattr(b, 'corners') else []
        gen = iter(b.cases(rng, tier))
        maxn = getattr(b, 'MAX_CASES', {}).get(tier)
        exhausted = False
        while time.time() < end and not exhausted:
            batch = []
            while corners and len(batch) < size:
                batch.append(corners.pop(0))
            while len(batch) < size:
                try:
                    batch.append(next(gen))
                except StopIteration:
                    exhausted = True
                    break
            if not batch:
                break
            r = fork_job(lambda: batch_job(b, batch, limit), limit * len(batch) + 30)
            if r[0] != 'ok':
                res = [isolate(b, c, limit) for c in batch]
            else:
                res = r[1]
            for c, (st, msg) in zip(batch, res):
                if st == 'skip':
                    skipped += 1
                    continue
                n += 1
                d = digest(c)
                if d not in seen:
                    seen.add(d)
                    if getattr(b, 'nontrivial', lambda c: True)(c):
                        nontriv += 1
                        if len(samples) < 2:
                            samples.append(c)
                if is_bad(b, st):
                    st2, msg2 = isolate(b, c, limit)       # confirm alone in a fresh process
                    if is_bad(b, st2):
                        bad.append((c, st2, msg2))
                        if not hasattr(b, 'signature') and len(bad) >= 3 or len(bad) >= 40:
                            exhausted = True
                            break
                    else:
                        odd.append((c, st, msg))
                elif st in ('timeout', 'error'):
                    odd.append((c, st, msg))
            if maxn and n >= maxn:
                break
        q.put(dict(n=n, nontriv=nontriv, skipped=skipped, digests=list(seen), samples=samples, bad=bad[:40],
                   odd=odd[:3], nodd=len(odd), error=None))
    except BaseException as e:
        q.put(dict(n=0, nontriv=0, skipped=0, digests=[], samples=[], bad=[], odd=[], nodd=0,
                   error=''.join(traceback.format_exception(e))[-3000:]))


def shrink(b, case, status_bad, limit, budget=20):
    if not hasattr(b, 'shrinks'):
        return case
    end = time.time() + budget
    sig = getattr(b, 'signature', lambda c, m: None)
    progress = True

    def smaller(c):
        try:
            yield from b.shrinks(c)
        except Exception:
            return
    want = isolate(b, case, limit)
    last = lambda m: str(m).strip().splitlines()[-1][:60] if m else ''
    while progress and time.time() < end:
        progress = False
        for c in smaller(case):
            if time.time() > end:
                break
            st, msg = isolate(b, c, limit)
            if st == want[0] and is_bad(b, st) and (st == 'fail' or last(msg) == last(want[1])):
                case = c
                progress = True
                break
    return case


# ------------------------------------------------------------------ known findings

def known_findings(pid):
    path = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line[len('known: property=%s ' % pid):]
                key, _, text = rest.partition(' ')
                out.append((key, text))
    return out


# ------------------------------------------------------------------ main

def job(fn, args, limit, q, tag):
    q.put((tag, fork_job(lambda: fn(*args), limit)))


def run_check(pid, tier, seed):
    t0 = time.time()
    low = pid.lower()
    sys.path.insert(0, VERIF)
    os.makedirs(OUT, exist_ok=True)
    has_c = os.path.exists(os.path.join(VERIF, 'contracts', low + '.py'))
    has_b = os.path.exists(os.path.join(VERIF, 'bounded', low + '.py'))
    ncpu = min(8, os.cpu_count() or 4)
    proofs = []
    ctx = multiprocessing.get_context('fork')
    # ---- proof layer: all contracts, ncpu at a time
    plimit = 420.0 if tier == 'thorough' else 100.0
    if has_c:
        m = importlib.import_module('contracts.' + low)
        q = ctx.Queue()
        todo = list(range(len(m.CONTRACTS)))
        running = {}
        res = {}
        while todo or running:
            while todo and len(running) < ncpu:
                i = todo.pop(0)
                p = ctx.Process(target=job, args=(run_contract, ('contracts.' + low, i, tier, plimit), plimit + 60, q, i))
                p.start()
                running[i] = p
            tag, r = q.get()
            running.pop(tag).join()
            res[tag] = r
        for i in range(len(m.CONTRACTS)):
            r = res[i]
            if r[0] == 'ok':
                proofs.append(r[1])
            else:
                proofs.append(dict(contract=m.CONTRACTS[i].name, functions={}, obligations=[], paths=0, covered=[],
                                   oor='verifier %s: %s' % (r[0], r[1]), solver_time=0, checks=0, wall=0, refuted=[],
                                   bounded=None, assumptions=[], proves='', expect=[]))
    t1 = time.time()
    # ---- bounded layer
    bres = []
    b = None
    if has_b:
        b = importlib.import_module('bounded.' + low)
        budget = getattr(b, 'BUDGET', {}).get(tier, 45 if tier == 'quick' else 420)
        if os.environ.get('DV_BUDGET'):
            budget = float(os.environ['DV_BUDGET'])
        nw = getattr(b, 'WORKERS', ncpu)
        q = ctx.Queue()
        ps = [ctx.Process(target=bounded_worker, args=('bounded.' + low, seed, tier, i, nw, budget, q)) for i in range(nw)]
        for p in ps:
            p.start()
        bres = [q.get() for _ in ps]
        for p in ps:
            p.join()
    # ---- verdict
    violations, known = [], []
    kf = known_findings(pid)
    limit = getattr(b, 'CASE_LIMIT', 20) if b else 20
    fails = []
    seen_sig = set()
    for r in bres:
        for case, st, msg in r['bad']:
            sig = b.signature(case, msg) if hasattr(b, 'signature') else None
            hit = [k for k in kf if k[0] == sig] if sig else []
            if hit:
                if sig not in seen_sig:
                    known.append(hit[0])
                    seen_sig.add(sig)
            else:
                fails.append((case, st, msg))
    n = 0

    def write_replay(obj):
        nonlocal n
        n += 1
        path = os.path.join(OUT, '%s-%d.json' % (pid, n))
        with open(path, 'w') as f:
            json.dump(obj, f, indent=1, default=repr)
        return path
    for case, st, msg in fails[:1]:
        small = shrink(b, case, st, limit)
        if hasattr(b, 'signature'):
            st2, msg2 = isolate(b, small, limit)
            if [k for k in kf if k[0] == b.signature(small, msg2)]:
                small = case
        st, msg = isolate(b, small, limit)
        path = write_replay(dict(property=pid, kind='input', oracle='bounded.' + low, input=small, status=st, message=msg,
                                 original=case, how='./check --replay %s' % 'FILE',
                                 failed_obligations=[o['name'] for p in proofs for o in p['refuted']]))
        violations.append((path, True, msg))
    for p in proofs:
        if not p['refuted']:
            continue
        cands = (p['refuted'] + ((p['bounded'] or {}).get('refuted') or []))
        conf = [o for o in cands if o.get('replayed')]
        path = write_replay(dict(property=pid, kind='obligation', contract=p['contract'],
                                 obligation=(conf or cands)[0]['name'], proves=p['proves'],
                                 input=conf[0]['input'] if conf else None,
                                 replayed=conf[0]['replayed'] if conf else None,
                                 verifier_output=cands[:4],
                                 note=None if conf else 'the solver refuted the obligation; no concrete input replayed'))
        if not (violations and violations[0][1] and not conf):
            violations.append((path, bool(conf), (conf or cands)[0]['name']))
    # ---- evidence
    # contracts over a stated scope (sizes up to a bound) are bounded checks: never counted as proved
    obs = [o for p in proofs if not p.get('scope') for o in p['obligations']]
    disch = [o for o in obs if o['status'] == 'discharged']
    nontrivial_digests = set()
    for r in bres:
        nontrivial_digests.update(r['digests'])
    backends = {}
    for o in disch:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    meta = (m if has_c else None)
    cov = {}
    if proofs:
        cov.update(
            obligations=len(obs) + sum(1 for p in proofs if p['oor'] and not p.get('scope')),
            discharged=len(disch),
            back_ends=backends,
            contracts=[dict(contract=p['contract'], proves=p['proves'], obligations=len(p['obligations']),
                            discharged=sum(o['status'] == 'discharged' for o in p['obligations']),
                            paths=p['paths'], covers=p['covered'], solver_s=p['solver_time'], wall_s=p['wall'],
                            out_of_reach=p['oor'],
                            functions=p['functions']) for p in proofs],
            functions_under_contract=sorted({f for p in proofs for f in p['functions']}),
            solver_s=round(sum(p['solver_time'] for p in proofs), 2),
            undischarged=[dict(contract=p['contract'], reason=p['oor']) for p in proofs if p['oor']] +
                         [dict(obligation=o['name'], status=o['status']) for o in obs if o['status'] != 'discharged'][:20],
            checker_cmd='./check %s (dv engine over current /repo source; z3 %s, cvc5 as second back end)' % (pid, z3v()),
            trusted_base=sorted({a for p in proofs for a in p['assumptions']} | set(ENGINE_TRUST)))
    if bres:
        cov.update(evaluations=sum(r['n'] for r in bres), distinct_nontrivial=min(
            sum(r['nontriv'] for r in bres), len(nontrivial_digests)),
            rule=getattr(b, 'RULE', ''), samples=[s for r in bres for s in r['samples']][:4],
            bounded_standin=dict(bound=getattr(b, 'BOUND', ''), skipped=sum(r['skipped'] for r in bres),
                                 undecided_cases=sum(r['nodd'] for r in bres),
                                 undecided_samples=[o for r in bres for o in r['odd']][:3],
                                 worker_errors=[r['error'] for r in bres if r['error']]))
    level = getattr(meta, 'LEVEL', None) or getattr(b, 'LEVEL', 'other')
    if 'explanation' not in cov:
        cov['explanation'] = ((getattr(meta, '__doc__', '') or '') + '\n' + (getattr(b, '__doc__', '') or '')).strip()
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=sorted({a for p in proofs for a in p['assumptions']} |
                                 set(getattr(b, 'ASSUMPTIONS', []) if b else [])),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evp = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(evp + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(evp + '.tmp', evp)
    # ---- report
    for p in proofs:
        d = sum(o['status'] == 'discharged' for o in p['obligations'])
        log('contract %-46s %d/%d obligations discharged, %d paths, %.1fs%s' % (
            p['contract'], d, len(p['obligations']), p['paths'], p['wall'],
            '' if not p['oor'] else '  [OUT OF REACH: %s]' % str(p['oor'])[:300]))
        if os.environ.get('DV_DEBUG'):
            for o in p['obligations']:
                if o['status'] != 'discharged':
                    log('   ', o['status'], o['name'], o.get('model', ''))
            if p.get('oor_tb'):
                log(p['oor_tb'])
        miss = [c for c in p['expect'] if c not in p['covered']]
        if miss and not p['oor'] and not p['refuted']:
            log('   vacuity: not reached: %s' % miss)
    if bres:
        log('bounded: %d cases, %d distinct non-trivial, %d undecided, %.1fs' % (
            sum(r['n'] for r in bres), cov['distinct_nontrivial'], sum(r['nodd'] for r in bres), time.time() - t1))
        for r in bres:
            if r['error']:
                log('  worker error:', r['error'][-1500:])
        if os.environ.get('DV_DEBUG'):
            for r in bres:
                for o in r['odd'][:1]:
                    log('   odd:', str(o)[:1500])
    for key, text in known:
        log('KNOWN-FINDING: property=%s %s %s' % (pid, key, text))
    for path, has_input, msg in violations[:3]:
        log('  ' + str(msg)[:1500].replace('\n', '\n  '))
        log('VIOLATION property=%s replay=%s%s' % (pid, os.path.relpath(path, VERIF) if path.startswith(VERIF) else path,
                                                   '' if has_input else ' no-failing-input-found'))
    log('%s %s in %.1fs' % (pid, 'VIOLATED' if violations else 'held on everything explored', time.time() - t0))
    return 1 if violations else 0


ENGINE_TRUST = [
    'dv engine: path exploration by re-execution, hook semantics for the Python subset, loop-invariant rule',
    'z3 / cvc5 soundness',
    'CPython semantics of the operations the hooks model (cross-checked by dv/selftest)',
]


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


def replay(path):
    o = json.load(open(path))
    if o['kind'] == 'input':
        b = importlib.import_module(o['oracle'])
        st, msg = isolate(b, o['input'], getattr(b, 'CASE_LIMIT', 20))
        log('input:', json.dumps(o['input'])[:4000])
        log(st, msg)
        return 1 if is_bad(b, st) else 0
    low = o['property'].lower()
    m = importlib.import_module('contracts.' + low)
    for c in m.CONTRACTS:
        if c.name == o['contract']:
            if o.get('input') is not None:
                msg = c().replay(o['input'])
                log('input:', o['input'])
                log('result:', msg)
                return 1 if msg else 0
            r = fork_job(lambda: run_contract('contracts.' + low, m.CONTRACTS.index(c), 'quick', 300), 400)
            for ob in r[1]['refuted']:
                log('refuted', ob['name'], ob.get('model', ''))
            return 1 if r[1]['refuted'] else 0
    return 2


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return run_check(argv[0], tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
