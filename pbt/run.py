"""Orchestrator (CPython + Hypothesis).

  run.py PROPERTY [quick|thorough] [--part NAME] [--scale F] [--shards N]
  run.py --replay FILE
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

from client import Worker, HarnessError  # noqa: E402

SHARDS = 8
CEILING = {'quick': 420, 'thorough': 3600}
SHRINK_S = {'quick': 40, 'thorough': 120}


class BudgetStop(BaseException):
    pass


def load_parts(prop):
    mod = importlib.import_module('gens.' + prop.lower())
    return mod


def canon(part, case):
    return json.dumps([part, case], sort_keys=True)


class Stats:
    def __init__(self):
        self.evals = collections.Counter()
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.best = None       # (size, part, case, msg, history)
        self.error = None
        self.ceiling = False
        self.part_s = collections.Counter()


def shard_main(prop, tier, seed, shard, nshards, scale, only, out):
    st = Stats()
    deadline = time.monotonic() + CEILING[tier]
    worker = Worker()
    try:
        mod = load_parts(prop)
        from hypothesis import given, settings, HealthCheck, Phase
        from hypothesis import seed as hseed
        worker.start()

        def execute(part, case):
            res = worker.call_robust(prop, part, case)
            st.evals[part] += 1
            if res['s'] == 'err':
                raise HarnessError(res['msg'])
            for l in res['lab']:
                st.labels[part + ':' + l] += 1
            if res['nt']:
                c = canon(part, case)
                st.nontrivial.add(hashlib.sha1(c.encode()).hexdigest()[:16])
                if len(st.samples) < 40 and len(c) < 1500 and (
                        st.evals[part] % 7 == 3 or len(st.samples) < 2):
                    st.samples.append([part, case])
            return res

        def record(part, case, msg):
            size = len(canon(part, case))
            if st.best is None or st.best[1] == part and size <= st.best[0]:
                st.best = (size, part, case, msg, worker.history[-60:])

        # 1. committed corpus
        path = os.path.join(HERE, 'corpus', prop + '.jsonl')
        if os.path.exists(path) and only is None:
            with open(path) as f:
                items = [json.loads(l) for l in f if l.strip()]
            for i, (part, case) in enumerate(items):
                if i % nshards != shard:
                    continue
                res = execute(part, case)
                st.evals['corpus'] += 1
                st.evals[part] -= 1
                if res['s'] != 'ok':
                    record(part, case, res['msg'])
                    raise BudgetStop()

        # 2. generated search
        for pi, part in enumerate(mod.PARTS):
            if only is not None and part.name != only:
                continue
            total = part.quick if tier == 'quick' else part.thorough
            total = int(total * scale)
            n = total // nshards + (1 if shard < total % nshards else 0)
            if n <= 0:
                continue
            box = {'fail_at': None}

            def body(case):
                now = time.monotonic()
                if box['fail_at'] is not None:
                    if now - box['fail_at'] > SHRINK_S[tier]:
                        raise BudgetStop()
                elif now > deadline:
                    st.ceiling = True
                    raise BudgetStop()
                res = execute(part.name, case)
                if res['s'] != 'ok':
                    if box['fail_at'] is None:
                        box['fail_at'] = time.monotonic()
                        out.put((shard, 'failing', None))
                    record(part.name, case, res['msg'])
                    raise AssertionError('violation')

            test = given(part.strategy)(body)
            test = settings(
                max_examples=n, database=None, deadline=None,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False, print_blob=False)(test)
            test = hseed(seed * 1000003 + shard * 1009 + pi * 7919)(test)
            t0 = time.monotonic()
            try:
                test()
            except HarnessError:
                raise
            except BudgetStop:
                if st.ceiling or st.best is not None:
                    break
            except BaseException as e:  # hypothesis wraps failures
                if st.best is None:
                    raise
                if isinstance(e, KeyboardInterrupt):
                    raise
            finally:
                st.part_s[part.name] += time.monotonic() - t0
            if st.best is not None:
                break
    except BudgetStop:
        pass
    except HarnessError as e:
        st.error = str(e)
    except BaseException:
        st.error = traceback.format_exc()
    finally:
        worker.stop()
    out.put((shard, 'done', st))


def confirm(prop, best):
    """Re-run the minimised case in a fresh worker. Returns
    (replay-object, message) or None."""
    _, part, case, msg, history = best
    w = Worker()
    try:
        for _ in range(2):
            w.start()
            res = w.call_robust(prop, part, case)
            if res['s'] == 'err':
                raise HarnessError(res['msg'])
            if res['s'] != 'ok':
                return [[part, case]], res['msg']
        # maybe state left behind by the cases before it
        seq = list(history)
        if not seq or seq[-1] != (part, case):
            seq.append((part, case))

        def fails(s):
            w.start()
            for p, c in s:
                r = w.call_robust(prop, p, c)
                if r['s'] not in ('ok', 'err'):
                    return r['msg']
            return None
        m = fails(seq)
        if m is None:
            return None
        t0 = time.monotonic()
        for k in (2, 4, 8, 16, 32):
            if k < len(seq) and time.monotonic() - t0 < 60:
                m2 = fails(seq[-k:])
                if m2 is not None:
                    return [list(x) for x in seq[-k:]], m2
        return [list(x) for x in seq], m
    finally:
        w.stop()


def write_evidence(prop, tier, seed, stats, wall, violations, mod, extra):
    evals = collections.Counter()
    labels = collections.Counter()
    nontriv = set()
    samples = []
    for s in stats:
        evals.update(s.evals)
        labels.update(s.labels)
        nontriv |= s.nontrivial
        samples += s.samples
    seen, picked = collections.Counter(), []
    for part, case in samples:
        if seen[part] < 2:
            seen[part] += 1
            picked.append({'part': part, 'case': case})
    if not picked:
        picked = [{'part': p, 'case': c} for p, c in samples[:3]]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': int(sum(evals.values())),
            'distinct_nontrivial': len(nontriv),
            'rule': mod.RULE,
            'samples': picked,
            'per_part': {k: int(v) for k, v in sorted(evals.items())},
            'labels': {k: int(v) for k, v in sorted(labels.items())},
            'search_cut_short_by_time_ceiling': any(
                s.ceiling for s in stats),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'numpy, scipy, paramz, climin, GPy and the oracle in '
            'pbt/oracle.py are trusted'],
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    ev['coverage'].update(extra)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + '.json'))
    return ev


def known_findings(prop):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                out.append(l)
    return out


def run(prop, tier, seed, scale, only, nshards):
    t0 = time.monotonic()
    mod = load_parts(prop)
    ctx = mp.get_context('fork')
    out = ctx.Queue()
    procs = [ctx.Process(target=shard_main,
                         args=(prop, tier, seed, i, nshards, scale, only,
                               out)) for i in range(nshards)]
    for p in procs:
        p.start()
    done = {}
    failing_at = None
    hard = time.monotonic() + CEILING[tier] + 330
    while len(done) < nshards:
        try:
            shard, kind, st = out.get(timeout=1.0)
        except Exception:
            now = time.monotonic()
            # a failing shard has finished shrinking, or took too long
            if now > hard:
                break
            dead = [i for i, p in enumerate(procs)
                    if not p.is_alive() and i not in done]
            if dead and failing_at is None and out.empty():
                time.sleep(1)
                if out.empty():
                    print('shards died: %s' % dead, file=sys.stderr)
                    break
            continue
        if kind == 'failing':
            failing_at = failing_at or time.monotonic()
            continue
        done[shard] = st
        if st.best is not None:
            # give other failing shards a moment, then stop everything
            end = time.monotonic() + 3
            while time.monotonic() < end and len(done) < nshards:
                try:
                    s2, k2, st2 = out.get(timeout=0.5)
                    if k2 == 'done':
                        done[s2] = st2
                except Exception:
                    pass
            break
    for p in procs:
        if p.is_alive() and len(done) < nshards:
            kill_tree(p.pid)
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    stats = list(done.values())
    errors = [s.error for s in stats if s.error]
    bests = sorted((s.best for s in stats if s.best is not None),
                   key=lambda b: b[0])
    violation = None
    unconfirmed = 0
    try:
        for b in bests:
            c = confirm(prop, b)
            if c is not None:
                violation = c
                break
            unconfirmed += 1
            print('unconfirmed (not reproducible) failure: %s'
                  % b[3][:500], file=sys.stderr)
    except HarnessError as e:
        errors.append(str(e))
    wall = time.monotonic() - t0
    ev = write_evidence(prop, tier, seed, stats, wall,
                        1 if violation else 0, mod,
                        {'unconfirmed_failures': unconfirmed})
    if violation:
        seq, msg = violation
        obj = {'property': prop, 'cases': seq, 'message': msg}
        text = json.dumps(obj, indent=1)
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (
            prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(text)
        print(msg.strip()[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('HARNESS ERROR\n' + '\n'.join(errors)[:6000], file=sys.stderr)
        return 2
    if len(done) < nshards:
        print('HARNESS ERROR: %d of %d shards did not finish'
              % (nshards - len(done), nshards), file=sys.stderr)
        return 2
    for l in known_findings(prop):
        print('KNOWN-FINDING: ' + l[len('known: '):])
    print('%s %s seed=%d: held on %d cases (%d distinct non-trivial), %.1f s'
          % (prop, tier, seed, ev['coverage']['evaluations'],
             ev['coverage']['distinct_nontrivial'], wall))
    if os.environ.get('PBT_TIMES'):
        tot = collections.Counter()
        for s in stats:
            tot.update(s.part_s)
        for k, v in tot.most_common():
            print('   %-22s %7.1f cpu-s, %5d cases' % (
                k, v, ev['coverage']['per_part'].get(k, 0)))
        if os.environ.get('PBT_TIMES') == '2':
            for k, v in ev['coverage']['labels'].items():
                print('      ', k, v)
    return 0


def kill_tree(pid):
    """End a shard and its worker (the worker leads its own session)."""
    try:
        kids = subprocess.run(['pgrep', '-P', str(pid)], capture_output=True,
                              text=True).stdout.split()
    except OSError:
        kids = []
    for p in [str(pid)] + kids:
        try:
            if p != str(pid):
                os.killpg(int(p), 9)
        except OSError:
            pass
        try:
            os.kill(int(p), 9)
        except OSError:
            pass


def replay(path):
    obj = json.load(open(path))
    w = Worker()
    bad = None
    try:
        w.start()
        for part, case in obj['cases']:
            res = w.call_robust(obj['property'], part, case)
            if res['s'] == 'err':
                print('HARNESS ERROR ' + res['msg'], file=sys.stderr)
                return 2
            if res['s'] != 'ok':
                bad = res
    finally:
        w.stop()
    if bad:
        print(bad['msg'])
        print('VIOLATION property=%s replay=%s' % (
            obj['property'], os.path.abspath(path)))
        return 1
    print('ok')
    return 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?',
                    default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--part')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--shards', type=int, default=SHARDS)
    a = ap.parse_args()
    try:
        seed = int(os.environ.get('VERIF_SEED') or '1')
    except ValueError:
        seed = 1
    try:
        rc = run(a.prop, a.tier, seed, a.scale, a.part, a.shards)
    except HarnessError as e:
        print('HARNESS ERROR', e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
