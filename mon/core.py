"""The runner: workloads, recorded events, verdicts, evidence, replay files.

A check module in mon/checks supplies

  PROP, RULE, ASSUMPTIONS
  gen(rng, tier, part, parts)  -> yields cases (JSON lists; case[0] names the
                                  kind of observation)
  run(rec, case)               -> drives the real code and judges what it saw
  REQUIRED                     -> {event: least number of times the monitor
                                  must have observed it} (fewer: inconclusive)

run() calls rec.ok(event) each time an oracle decided an observation, and
rec.bad(key, text) for each refutation.  Keys name a mechanism; the file
known_findings.txt lists the keys of recorded findings.
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, 'out')
EVID = os.path.join(VERIF, 'evidence')
PARTS = 64              # the workload is always cut in this many parts
DEADLINE = 780          # seconds after which no new case is started


class Known:
    def __init__(self, prop):
        self.keys = {}
        path = os.path.join(VERIF, 'known_findings.txt')
        with open(path, encoding='utf-8') as fh:
            for line in fh:
                line = line.strip()
                if not line.startswith('known: '):
                    continue
                head, text = line[7:].split(' | ', 1)
                fields = dict(f.split('=', 1) for f in head.split())
                if fields['property'] == prop:
                    self.keys[fields['key']] = text


class Rec:
    """What one worker observed."""
    MAXV = 20

    def __init__(self, known):
        self.known = known
        self.events = collections.Counter()
        self.evals = 0
        self.distinct = set()
        self.samples = {}
        self.viols = []
        self.nviol = 0
        self.knowns = {}
        self.case = None
        self.truncated = False

    def ok(self, event, n=1):
        self.events[event] += n

    def state(self, *what):
        """Note one distinct non-trivial thing that was observed."""
        self.distinct.add(hashlib.blake2b(repr(what).encode(),
                                          digest_size=8).digest())

    def sample(self, event, text):
        if len(self.samples.setdefault(event, [])) < 2:
            self.samples[event].append(text)

    def bad(self, key, text):
        if key in self.known.keys:
            n, ex = self.knowns.get(key, (0, None))
            self.knowns[key] = (n + 1, ex or str(text)[:300])
            return
        self.nviol += 1
        if len(self.viols) < self.MAXV:
            self.viols.append({'key': key, 'what': str(text)[:1000],
                               'case': self.case})

    def expect(self, cond, event, key, text):
        self.events[event] += 1
        if not cond:
            self.bad(key, text() if callable(text) else text)
        return cond

    def eq(self, event, got, want, what=''):
        self.events[event] += 1
        if got != want:
            self.bad(event, f'{what}: observed {got!r}, the oracle says '
                            f'{want!r}')
            return False
        return True

    def raises(self, event, exc, fn, *a, **k):
        """fn(*a) has to be refused with one of the exceptions exc."""
        self.events[event] += 1
        try:
            r = fn(*a, **k)
        except exc:
            return True
        except Exception as e:
            self.bad(event, f'{fn!r}{a!r}{k!r} raised {type(e).__name__}: '
                            f'{e}, wanted {exc}')
            return False
        self.bad(event, f'{fn!r}{a!r}{k!r} returned {r!r}, wanted {exc}')
        return False


def _work(job):
    name, tier, seed, part, t_end, known = job
    mod = importlib.import_module(f'mon.checks.{name}')
    rec = Rec(known)
    rng = random.Random(f'{seed}:{mod.PROP}:{part}')
    if hasattr(mod, 'setup'):
        mod.setup(rec)
    for case in mod.gen(rng, tier, part, PARTS):
        if time.time() > t_end:
            rec.truncated = True
            break
        _one(mod, rec, case)
    return rec.__dict__ | {'known': None, 'case': None}


CPU_LIMIT = 60          # CPU seconds one case may take; they take < 0.1


def _stuck(signum, frame):
    raise TimeoutError(f'no answer after {CPU_LIMIT} s of CPU time')


def _one(mod, rec, case):
    rec.case = case
    rec.evals += 1
    limit = getattr(mod, 'CPU_LIMIT', CPU_LIMIT)
    signal.signal(signal.SIGVTALRM, _stuck)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        mod.run(rec, case)
    except TimeoutError as e:
        rec.bad(f'stuck-{case[0]}', e)
    except (MemoryError, OSError, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{os.path.basename(f.filename)}:{f.name}' for f in tb[-4:]]
        rec.bad(f'exception-{case[0]}',
                f'{type(e).__name__}: {e} at {" > ".join(where)}')
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _merge(recs):
    tot = {'events': collections.Counter(), 'evals': 0, 'distinct': set(),
           'samples': {}, 'viols': [], 'nviol': 0, 'knowns': {},
           'truncated': False}
    for r in recs:
        tot['events'] += r['events']
        tot['evals'] += r['evals']
        tot['distinct'] |= r['distinct']
        for k, v in r['samples'].items():
            tot['samples'].setdefault(k, []).extend(v)
        tot['viols'] += r['viols']
        tot['nviol'] += r['nviol']
        tot['truncated'] |= r['truncated']
        for k, (n, ex) in r['knowns'].items():
            n0, ex0 = tot['knowns'].get(k, (0, None))
            tot['knowns'][k] = (n0 + n, ex0 or ex)
    return tot


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--procs', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    if a.prop == 'setup':
        return setup()
    t0 = time.time()
    name = a.prop.lower()
    try:
        mod = importlib.import_module(f'mon.checks.{name}')
    except Exception:
        traceback.print_exc()
        print(f'INCONCLUSIVE property={a.prop} the code cannot be loaded')
        return 2
    known = Known(mod.PROP)
    if a.replay:
        return replay(mod, known, a.replay)
    jobs = [(name, a.tier, a.seed, p, t0 + DEADLINE, known)
            for p in range(PARTS)]
    recs = []
    try:
        if getattr(mod, 'SERIAL', False):
            recs = [_work(j) for j in jobs[:1]]
        else:
            with mp.get_context('fork').Pool(a.procs) as pool:
                for r in pool.imap_unordered(_work, jobs, chunksize=1):
                    recs.append(r)
        if hasattr(mod, 'final'):
            rec = Rec(known)
            rec.case = ['final']
            mod.final(rec, a.tier, a.seed)
            recs.append(rec.__dict__ | {'known': None, 'case': None})
    except Exception:
        traceback.print_exc()
        print(f'INCONCLUSIVE property={mod.PROP} the harness failed')
        return 2
    tot = _merge(recs)
    return verdict(mod, tot, known, a, time.time() - t0)


def verdict(mod, tot, known, a, wall):
    prop = mod.PROP
    samples = []
    for ev in sorted(tot['samples']):
        samples += [f'{ev}: {s}' for s in tot['samples'][ev][:2]]
    os.makedirs(EVID, exist_ok=True)
    evidence = {
        'property': prop, 'tier': a.tier, 'seed': a.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': tot['evals'],
            'distinct_nontrivial': len(tot['distinct']),
            'rule': mod.RULE,
            'samples': samples[:24] or ['none'],
            'oracle_decisions': dict(sorted(tot['events'].items())),
            'known_findings_observed': {k: n for k, (n, _) in
                                        sorted(tot['knowns'].items())},
            'exhaustive': False,
            'truncated_by_watchdog': tot['truncated'],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': tot['nviol'],
    }
    with open(os.path.join(EVID, f'{prop}.json'), 'w',
              encoding='utf-8') as fh:
        json.dump(evidence, fh, indent=1, ensure_ascii=False)
        fh.write('\n')
    n_dec = sum(tot['events'].values())
    print(f'{prop} [{a.tier}, seed {a.seed}] {tot["evals"]} cases, {n_dec} '
          f'oracle decisions, {len(tot["distinct"])} distinct, '
          f'{wall:.1f} s')
    for k, (n, ex) in sorted(tot['knowns'].items()):
        print(f'KNOWN-FINDING: property={prop} {k}: {known.keys[k]} '
              f'(observed {n}x, e.g. {ex})')
    if tot['nviol']:
        os.makedirs(OUT, exist_ok=True)
        by = {}
        for v in tot['viols']:
            by.setdefault(v['key'], v)
        for i, (k, v) in enumerate(sorted(by.items())):
            path = os.path.join(OUT, f'{prop}-{i}.json')
            with open(path, 'w', encoding='utf-8') as fh:
                json.dump({'property': prop, 'tier': a.tier, 'seed': a.seed,
                           **v}, fh, indent=1, default=str,
                          ensure_ascii=False)
            if i < 8:
                print(f'  {k}: {v["what"][:400]}')
        print(f'{tot["nviol"]} violating observations, {len(by)} mechanisms')
        print(f'VIOLATION property={prop} '
              f'replay={os.path.join(OUT, prop)}-0.json')
        return 1
    short = {e: (tot['events'].get(e, 0), n)
             for e, n in mod.REQUIRED.items() if tot['events'].get(e, 0) < n}
    if short:
        print(f'INCONCLUSIVE property={prop} too little was observed '
              f'(event: (seen, needed)): {short}')
        return 2
    return 0


def replay(mod, known, path):
    with open(path, encoding='utf-8') as fh:
        data = json.load(fh)
    rec = Rec(known)
    if hasattr(mod, 'setup'):
        mod.setup(rec)
    if data['case'] == ['final']:
        rec.case = ['final']
        mod.final(rec, data['tier'], data['seed'])
    else:
        _one(mod, rec, data['case'])
    for v in rec.viols:
        print(f'{v["key"]}: {v["what"]}')
    if rec.nviol:
        print(f'VIOLATION property={mod.PROP} replay={path}')
        return 1
    print(f'{mod.PROP}: {data["case"]} holds')
    return 0


def setup():
    import badidatetime
    print('code under test:', os.path.dirname(badidatetime.__file__))
    for n in sorted(os.listdir(os.path.join(VERIF, 'mon', 'checks'))):
        if n.startswith('c') and n.endswith('.py'):
            importlib.import_module(f'mon.checks.{n[:-3]}')
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    return 0


def share(seq, part, parts):
    """The part of a fixed sequence that this worker takes."""
    return seq[part::parts]
