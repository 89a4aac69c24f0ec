"""Runs one property's check and writes its evidence."""
import hashlib
import importlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('MC_OUTDIR') or VERIF  # (evidence and replay files)


def load(pid):
    return importlib.import_module('mc.checks.' + pid.lower())


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % pid):
                out.append(l.strip().split(' ', 2)[2])
    return out


def repo_state():
    h = hashlib.sha1()
    from .image import REPO
    for root, ds, fs in os.walk(os.path.join(REPO, 'teleprox')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.py'):
                h.update(f.encode())
                h.update(open(os.path.join(root, f), 'rb').read())
    return h.hexdigest()[:16]


def check(pid, tier, procs=None):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    m = load(pid)
    procs = procs or int(os.environ.get('MC_PROCS', '0') or 0) or min(8, os.cpu_count() or 1)
    limit = getattr(m, 'LIMIT', {}).get(tier, 140 if tier == 'quick' else 780)
    deadline = t0 + limit
    from . import explore, image
    items = m.scenarios(tier)
    scns = [s for s, b in items]
    rep = []
    violation = None
    error = None
    tot = explore.Stats()
    samples = []
    states = trans = 0
    direct = None
    # sequential enumerations against a reference model, when the check has them
    if hasattr(m, 'direct'):
        direct = m.direct(tier, deadline)
        states += direct['cases']
        trans += direct.get('steps', direct['cases'])
        samples += direct.get('samples', [])[:6]
        if direct.get('violation'):
            violation = ('direct', direct['violation'][0], direct['violation'][1])
        if direct.get('error'):
            error = direct['error']
    if violation is None and error is None and scns:
        warm()
        ex = explore.Explorer(scns, procs)
        try:
            # share what is left of the time; unused time passes on to later scenarios
            for i, (s, bound) in enumerate(items):
                left = deadline - time.monotonic()
                dl = time.monotonic() + max(30.0, left / (len(items) - i) * 2.0)
                dl = min(dl, deadline)
                ts = time.monotonic()
                st, done, per = ex.run(i, bound, dl)
                rep.append({'scenario': s.name, 'deviation_bound_requested': bound,
                            'deviation_bound_completed': done, 'executions': st.execs,
                            'executions_per_level': per,
                            'choice_points': st.points, 'steps': st.steps,
                            'context_switches': st.switches, 'distinct_outcomes': len(st.outcomes),
                            'cases_compared': st.cases, 'longest': st.maxpoints, 'most_steps': st.maxsteps, 'capped': st.capped, 'diverged': st.diverged,
                            'wall_s': round(time.monotonic() - ts, 2)})
                tot.add(st)
                if st.violation is not None:
                    violation = (s.name, st.violation[0], st.violation[1])
                    break
                if st.error is not None:
                    error = '%s: %s' % (s.name, st.error)
                    if not st.error.startswith('divergence'):
                        break
        finally:
            ex.close()
    states += tot.points + tot.execs + tot.cases
    trans += tot.steps + tot.cases
    wall = time.monotonic() - t0
    if scns and violation is None:
        samples += sample(scns[0])
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': states, 'transitions': trans,
            'traces_validated_against_impl': tot.execs + (direct['cases'] if direct else 0),
            'samples': samples or ['(none)'],
            'scenarios': rep,
            'exhaustive': bool(not tot.capped and not (direct or {}).get('capped') and not error),
            'rule': 'every execution runs the real source of /repo/teleprox; states = executions + choice points '
                    'of the explored schedule trees (+ cases enumerated inside executions), transitions = scheduler steps executed '
                    '(+ operations of enumerated cases); no state matching, so no state is merged',
            'tree': repo_state(),
        },
        'assumptions': getattr(m, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': 1 if violation else 0,
    }
    if direct:
        ev['coverage']['enumeration'] = {k: v for k, v in direct.items() if k not in ('samples', 'violation')}
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write('\n')
    for r in rep:
        print('%-28s bound %d/%d  executions %d  points %d  outcomes %d  %.1fs%s' % (
            r['scenario'], r['deviation_bound_completed'], r['deviation_bound_requested'], r['executions'],
            r['choice_points'], r['distinct_outcomes'], r['wall_s'], '  CAPPED' if r['capped'] else ''))
    if direct:
        print('direct enumeration: %d cases%s' % (direct['cases'], '  CAPPED' if direct.get('capped') else ''))
    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if violation:
        os.makedirs(os.path.join(OUT, 'out'), exist_ok=True)
        path = os.path.join(OUT, 'out', '%s-%s.json' % (pid, tier))
        rec = {'property': pid, 'tier': tier, 'scenario': violation[0], 'choices': violation[1],
               'message': str(violation[2])[:20000]}
        if violation[0] != 'direct':
            rec['schedule'] = schedule_of(scns, violation)
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1, default=repr)
        text = str(violation[2])
        print('violated: %s: %s' % (violation[0], text if len(text) < 3000 else text[:2000] + ' ... ' + text[-900:]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if error:
        print('ERROR of the check: %s' % error)
        # divergences are executions that could not be repeated: they decide nothing
        if not error.split(': ', 1)[-1].startswith('divergence') or tot.diverged > 0.2 * max(1, tot.execs):
            return 2
    print('%s held on everything explored (%.1fs)' % (pid, wall))
    return 0


def warm():
    """Load what the executions share before the workers are forked."""
    import zmq, msgpack, numpy, json as _j, traceback, weakref  # noqa
    from . import explore
    from .harness import Sys

    class W(Sys):
        name = 'warm'

        def main(self, w):
            for k in ('concurrent.futures', 'logging.handlers', 'argparse'):
                w.img.import_module(k)
    try:
        explore.run_one(W())
    except BaseException:
        pass


def sample(s):
    from . import explore
    r = explore.run_one(s, labels=True)
    return [{'scenario': s.name, 'execution': 'default schedule', 'steps': r.steps, 'status': r.status,
             'choice_points': r.labels[:60]}]


def schedule_of(scns, violation):
    from . import explore
    for s in scns:
        if s.name == violation[0]:
            try:
                r = explore.run_one(s, bytes.fromhex(violation[1]), labels=True)
                return r.labels
            except BaseException as e:
                return [repr(e)]


def replay(path):
    rec = json.load(open(path))
    m = load(rec['property'])
    if rec['scenario'] == 'direct':
        print(rec['message'])
        if hasattr(m, 'replay'):
            return m.replay(rec['choices'])
        return 1
    from . import explore
    for s, b in m.scenarios(rec['tier']):
        if s.name == rec['scenario']:
            r = explore.run_one(s, bytes.fromhex(rec['choices']), labels=True)
            for l in r.labels:
                print('  ', l)
            print('status', r.status, 'violation', r.violation, 'error', r.error)
            return 1 if r.violation else 0
    return 2
