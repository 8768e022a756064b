"""Command line: python -m mc.run C01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
LIMITS = {'quick': 240, 'thorough': 780}


def jsonable(x):
    if isinstance(x, (tuple, list)):
        return [jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    return repr(x)


def tuplize(x):
    if isinstance(x, list):
        return tuple(tuplize(i) for i in x)
    return x


def load_findings(prop):
    """Entries 'finding: property=<id> key=<key> <text>' of the known file."""
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s key=' % prop):
                rest = line.split('key=', 1)[1]
                key, _, text = rest.partition(' ')
                out[key] = text
    return out


def write_evidence(prop, tier, cov, wall, violations, assumptions, level):
    os.makedirs(EVIDENCE, exist_ok=True)
    data = {
        'property': prop, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': level,
        'coverage': cov, 'assumptions': assumptions,
        'wall_s': round(wall, 3), 'violations': violations,
    }
    path = os.path.join(EVIDENCE, prop + '.json')
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(tmp, path)


def report(prop, name, case, msg):
    rdir = os.path.join(EVIDENCE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    doc = {'property': prop, 'task': name, 'case': jsonable(case),
           'message': msg}
    blob = json.dumps(doc, indent=1, sort_keys=True)
    path = os.path.join(rdir, '%s-%s.json' % (
        prop, hashlib.sha1(blob.encode('utf-8', 'replace')).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(blob + '\n')
    print('VIOLATION property=%s replay=%s' % (prop, path))
    print('  task: %s' % name)
    print('  case: %s' % (json.dumps(jsonable(case)),))
    for line in msg.splitlines()[:30]:
        print('  | %s' % line)
    sys.stdout.flush()


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--task', help='only tasks whose name contains this')
    args = ap.parse_args(argv)
    prop = args.property.upper()
    tier = args.tier if args.tier in LIMITS else 'quick'
    t0 = time.time()
    mod = None
    try:
        from mc import core
        mod = importlib.import_module('mc.checks.%s' % prop.lower())
        return _main(prop, tier, args, t0, core, mod)
    except Exception as e:
        # Nothing but the code under test changes between runs: if the harness
        # cannot even be set up on it, the code no longer behaves as specified.
        msg = 'check could not run on this tree: %s: %s\n%s' % (
            type(e).__name__, e, traceback.format_exc()[-3000:])
        report(prop, 'setup', None, msg)
        write_evidence(prop, tier, {
            'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
            'samples': [], 'error': msg[:500]}, time.time() - t0, 1, [],
            'model_checking')
        return 1


def _main(prop, tier, args, t0, core, mod):
    known = load_findings(prop)
    classify = getattr(mod, 'classify', None)

    def findings(task, case, msg):
        if not known or classify is None:
            return None
        key = classify(task, case, msg)
        return key if key in known else None

    tasks = mod.tasks(tier)
    if args.task:
        tasks = [t for t in tasks if args.task in t.name]
    if args.replay:
        return replay(prop, args.replay, tasks, core)
    runner = core.Runner(prop, tier, tasks, LIMITS[tier], findings)
    runner.run()
    wall = time.time() - t0
    states = transitions = traces = 0
    exhaustive = True
    samples = []
    per_task = []
    for st in runner.stats:
        d = {k: v for k, v in st.items() if k != 'samples'}
        per_task.append(d)
        if st.get('kind') == 'bfs':
            states += st['states']
            transitions += st['transitions']
            traces += st['transitions']
        elif st.get('kind') == 'enumeration':
            states += st['cases']
            transitions += st['cases']
            traces += st['cases']
        elif st.get('kind') == 'schedules':
            states += st['schedules']
            transitions += st['points']
            traces += st['schedules']
        if st.get('capped'):
            exhaustive = False
        for h in st.get('samples', [])[:1]:
            if len(samples) < 12:
                samples.append({'task': st['task'], 'case': jsonable(h)})
    if not samples:
        samples = [{'task': st['task'], 'outcomes': dict(
            list(runner.labels.items())[:5])} for st in runner.stats[:3]]
    labels = dict(sorted(runner.labels.items(), key=lambda kv: -kv[1])[:80])
    cov = {
        'states': states, 'transitions': transitions,
        'traces_validated_against_impl': traces,
        'samples': samples,
        'exhaustive': exhaustive and not runner.violations,
        'distinct_outcomes': len(runner.labels),
        'outcomes': labels,
        'tasks': len(per_task),
        'per_task': per_task[:120],
        'known_findings_hit': dict(runner.known),
        'how': 'states: distinct canonical states (bfs), cases (enumeration), '
               'schedules; transitions: operations executed on the real code '
               'from distinct states, cases, scheduling decisions; every '
               'trace is executed on the implementation itself and compared '
               'with the reference model after each step.',
    }
    write_evidence(prop, tier, cov, wall, len(runner.violations),
                   getattr(mod, 'ASSUMPTIONS', []), 'model_checking')
    for key, text in known.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if runner.violations:
        for task, case, msg in runner.violations:
            report(prop, task.name, case, msg)
        return 1
    print('%s %s: held on %d states, %d transitions, %d tasks in %.1fs%s' % (
        prop, tier, states, transitions, len(per_task), wall,
        '' if exhaustive else ' (CAPPED)'))
    return 0


def replay(prop, path, tasks, core):
    doc = json.load(open(path))
    task = [t for t in tasks if t.name == doc['task']]
    if not task:
        print('task %r not found' % doc['task'])
        return 2
    task = task[0]
    case = tuplize(doc['case']) if not isinstance(doc['case'], dict) \
        else doc['case']
    import signal
    signal.signal(signal.SIGALRM, core._on_alarm)
    if isinstance(task, core.Machine):
        def go():
            s = task.start()
            for n, op in enumerate(case or ()):
                print('%2d. %r' % (n + 1, op))
                print('    -> %s' % task.step(s, op))
            task.check(s)
    elif isinstance(task, core.Cases):
        def go():
            # cases may hold objects: find the case by its JSON form
            want = json.dumps(doc['case'])
            for c in task.cases():
                if json.dumps(jsonable(c)) == want:
                    task.prepare()
                    task.run(c)
                    return
            print('case not found')
    else:
        def go():
            from mc import sched
            for _ in range(2):
                bodies, state = task._make()
                s = sched.Scheduler(bodies, case['schedule'],
                                    fine=task.fine).run()
                print('schedule', s.choices)
                print([t.result for t in s.threads])
                task._check(state, s)
    msg = core._guard(go)
    if msg is None:
        print('replay: property held')
        return 0
    report(prop, task.name, doc['case'], msg)
    return 1


if __name__ == '__main__':
    sys.exit(main())
