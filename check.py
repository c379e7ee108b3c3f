#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--harness NAME] [--jobs N]

Decides one property by symbolic execution of the code in /repo (see DESIGN.md).
exit 0: held on everything explored; exit 1: VIOLATION line(s); other: the check broke.
"""
import argparse
import importlib
import json
import multiprocessing
import os
import select
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')

if os.environ.get('PYTHONHASHSEED') != '0' or not os.environ.get('PYTHONDONTWRITEBYTECODE'):
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)

PREFIXES = [
    'sciencebeam_trainer_grobid_tools', 'sciencebeam_utils', 'harness',
    'sciencebeam_alignment.word_sequence_matcher',
    'html', 'html.parser', '_markupbase', 'xml.sax.saxutils'
]

_HARNESS = {}


def _work(task):
    from sx import run
    name, shape, prefix, opts = task
    fn = _HARNESS[name].fn
    try:
        r = run.explore(fn, shape, prefix=prefix, **opts)
    except BaseException:  # pylint: disable=broad-except
        r = {'error': traceback.format_exc()}
    return name, shape, r


class Replayer:
    """the unmodified program, in a process of its own, no import hook"""

    def __init__(self, module):
        self.module = module
        self.start()

    def start(self):
        env = dict(os.environ)
        env['VERIF_REPO'] = REPO
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(VERIF, 'replay.py'), '--server', self.module],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
            text=True, encoding='utf-8'
        )

    def _stderr(self):
        self.err.seek(max(0, self.err.seek(0, 2) - 3000))
        return self.err.read().decode('utf-8', 'replace')

    def __call__(self, name, shape, inputs):
        try:
            self.p.stdin.write(json.dumps([name, shape, inputs]) + '\n')
            self.p.stdin.flush()
            while True:
                # (one line per answer: nothing is left in the buffer of the reader)
                if not select.select([self.p.stdout], [], [], 120)[0]:
                    self.close()
                    self.start()
                    return {'status': 'hang', 'label': 'does not end', 'observed': []}
                line = self.p.stdout.readline()
                if not line:
                    raise RuntimeError('replay process ended: %s' % self._stderr())
                if line.startswith('@@'):
                    return json.loads(line[2:])
        except BrokenPipeError:
            raise RuntimeError('replay process ended: %s' % self._stderr())

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:  # pylint: disable=broad-except
            self.p.kill()
        self.p.stdout.close()
        self.err.close()


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path, encoding='utf-8') as f:
        data = json.load(f)
    return {e['id']: e for e in data.get('findings', []) if e['property'] == prop}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--harness')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop, tier = args.property, args.tier
    budget = args.budget or (600 if tier == 'quick' else 660)
    deadline = t0 + budget

    from harness_registry import MODULES
    modname = MODULES[prop]

    from sx import loader
    import sx.run  # noqa: F401
    loader.install(PREFIXES)
    known = load_known(prop)
    broken_import = None
    try:
        mod = importlib.import_module(modname)
    except Exception:  # pylint: disable=broad-except
        broken_import = traceback.format_exc()
    if broken_import:
        print(broken_import, file=sys.stderr)
        return 3
    for h in mod.HARNESSES:
        _HARNESS[h.name] = h

    tasks = []
    for h in mod.HARNESSES:
        if args.harness and h.name != args.harness:
            continue
        for shape in h.shapes(tier):
            tasks.append((h.name, shape, ()))
    nshapes = len(tasks)

    def opts_for(name):
        return dict(
            known=tuple(known), deadline=deadline, seed=seed, slice_s=3.0,
            witnesses=_HARNESS[name].witnesses
        )

    agg = {h: {
        'shapes': 0, 'stats': {}, 'functions': set(), 'reached': set(), 'incomplete': {},
        'foreign': set()
    } for h in _HARNESS}
    cands, knowns, wits, undecided = [], [], [], []
    errors = []
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(args.jobs)
    pending = []
    split = 0
    try:
        queue = list(tasks)
        for t in queue:
            pending.append(pool.apply_async(_work, ((t[0], t[1], t[2], opts_for(t[0])),)))
            agg[t[0]]['shapes'] += 1
        while pending:
            nxt = []
            progressed = False
            for p in pending:
                if not p.ready():
                    nxt.append(p)
                    continue
                progressed = True
                name, shape, r = p.get()
                if 'error' in r:
                    errors.append('%s %s: %s' % (name, shape, r['error']))
                    continue
                a = agg[name]
                for k, v in r['stats'].items():
                    if k == 'unsupported':
                        continue
                    if k == 'max_trail':
                        a['stats'][k] = max(a['stats'].get(k, 0), v)
                    else:
                        a['stats'][k] = a['stats'].get(k, 0) + v
                a['functions'] |= set(r['functions'])
                a['foreign'] |= set(r['foreign'])
                a['reached'] |= set(r['reached'])
                for k, v in r['incomplete'].items():
                    a['incomplete'][k] = a['incomplete'].get(k, 0) + v
                for v in r['violations']:
                    cands.append((name, shape, v))
                for v in r['known']:
                    knowns.append((name, shape, v))
                for v in r['witnesses']:
                    wits.append((name, shape, v))
                for v in r['undecided']:
                    undecided.append((name, shape, v))
                if args.v:
                    print('%6.1fs %s %s paths=%d viol=%d frontier=%d' % (
                        time.time() - t0, name, shape, r['stats']['paths'], len(r['violations']),
                        len(r['frontier'])), file=sys.stderr)
                if r['frontier']:
                    if time.time() > deadline:
                        k = 'time budget'
                        a['incomplete'][k] = a['incomplete'].get(k, 0) + len(r['frontier'])
                    else:
                        split += len(r['frontier'])
                        for f in r['frontier']:
                            nxt.append(pool.apply_async(
                                _work, ((name, shape, tuple(f), opts_for(name)),)))
            pending = nxt
            # enough evidence: stop early once many candidates are on the table
            if len(cands) > 60:
                break
            if pending and not progressed:
                if time.time() > deadline + 60:
                    for a in agg.values():
                        a['incomplete']['hard stop'] = 1
                    break
                time.sleep(0.02)
    finally:
        pool.terminate()
        pool.join()

    # -- replay on the unmodified program
    rep = Replayer(modname)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    confirmed, unconfirmed, mismatch = [], [], []
    known_lines = {}
    seen = set()
    validated = 0
    try:
        for name, shape, v in cands:
            key = (name, v['label'])
            if key in seen and len([c for c in confirmed if c[0] == name]) > 3:
                continue
            r = rep(name, shape, v['inputs'])
            if r['status'] == 'violation':
                if key not in seen:
                    confirmed.append((name, shape, v['inputs'], r))
                seen.add(key)
            else:
                unconfirmed.append((name, shape, v, r))
        for name, shape, (fid, label, inputs) in knowns:
            if fid in known_lines:
                continue
            r = rep(name, shape, inputs)
            if r['status'] == 'violation':
                known_lines[fid] = known[fid]['what']
        # translator validation: the model of explored paths, run on the real code
        limit = 400 if tier == 'quick' else 2000
        if len(wits) > limit:
            step = len(wits) / limit
            wits = [wits[int(i * step)] for i in range(limit)]
        for name, shape, w in wits:
            if time.time() > deadline + 120:
                break
            r = rep(name, shape, w['inputs'])
            validated += 1
            if r['status'] == 'violation':
                confirmed.append((name, shape, w['inputs'], r))
            elif r['status'] != 'ok' or [list(x) for x in r['observed']] != json.loads(
                    json.dumps([list(x) for x in w['observed']])):
                mismatch.append((name, shape, w, r))
        for name, shape, w in undecided[:300]:
            if time.time() > deadline + 150:
                break
            r = rep(name, shape, w['inputs'])
            if r['status'] == 'violation':
                confirmed.append((name, shape, w['inputs'], r))
    finally:
        rep.close()

    # -- report
    out_lines = []
    nviol = 0
    done = set()
    for name, shape, inputs, r in confirmed:
        key = (name, r['label'])
        if key in done:
            continue
        done.add(key)
        nviol += 1
        path = os.path.join(rdir, '%s_%s_%d.json' % (prop, name, nviol))
        with open(path, 'w', encoding='utf-8') as f:
            json.dump({
                'property': prop, 'module': modname, 'harness': name, 'shape': shape,
                'inputs': inputs, 'label': r['label'], 'detail': r.get('detail')
            }, f, indent=1)
        out_lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('# %s: %s %s' % (name, r['label'], ascii(str(r.get('detail')))[:1500]))
    for fid, what in sorted(known_lines.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    for name, shape, v, r in unconfirmed[:10]:
        print('INCONCLUSIVE property=%s counterexample did not reproduce on the real code: %s %s %s' % (
            prop, name, v['label'], ascii(json.dumps([shape, v, r]))[:1500]))
    for name, shape, w, r in mismatch[:10]:
        print('INCONCLUSIVE property=%s encoding differs from the real code: %s' % (
            prop, ascii(json.dumps([name, shape, w, r]))[:1500]))
    unreached = []
    for h in mod.HARNESSES:
        if args.harness and h.name != args.harness:
            continue
        for label in h.reach:
            if label not in agg[h.name]['reached']:
                unreached.append('%s/%s' % (h.name, label))
    if unreached:
        print('INCONCLUSIVE property=%s not reached: %s' % (prop, unreached))

    tot = {}
    funcs = set()
    incomplete = {}
    for n, a in agg.items():
        for k, v in a['stats'].items():
            if k != 'max_trail':
                tot[k] = tot.get(k, 0) + v
        funcs |= a['functions']
        for k, v in a['incomplete'].items():
            incomplete['%s: %s' % (n, k)] = v
    wall = time.time() - t0
    evidence = {
        'property': prop, 'tier': 'thorough' if tier == 'thorough' else 'quick', 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'technique': 'symbolic execution of the rewritten source of %s; z3 decides path '
                         'feasibility and every assertion' % REPO,
            'functions_encoded': sorted(f for f in funcs),
            'bounds': mod.BOUNDS,
            'outside_bounds': mod.OUTSIDE,
            'harnesses': {
                n: {
                    'shapes': a['shapes'],
                    'paths': a['stats'].get('paths', 0),
                    'paths_cut_by_assumptions': a['stats'].get('aborted', 0),
                    'assertions': a['stats'].get('assertions', 0),
                    'solver_queries': a['stats'].get('queries', 0),
                    'solver_s': round(a['stats'].get('solver_s', 0), 2),
                    'reached': sorted(a['reached']),
                    'incomplete': a['incomplete'],
                    'exhaustive_within_bounds': not a['incomplete'],
                    'concretised_foreign_calls': sorted(a['foreign']),
                } for n, a in agg.items() if a['shapes']
            },
            'states': tot.get('paths', 0),
            'states_meaning': 'symbolic end states (one per feasible path; each stands for every '
                              'input that takes the path)',
            'transitions': tot.get('decisions', 0),
            'transitions_meaning': 'symbolic branch decisions taken on the way to them',
            'traces_validated_against_impl': validated,
            'samples': [
                {'harness': n, 'shape': s, 'inputs': w['inputs'], 'observed': w['observed']}
                for n, s, w in wits[::max(1, len(wits) // 5)][:5]
            ],
            'exhaustive': not incomplete and not errors,
            'queries_discharged': tot.get('queries', 0),
            'queries_sat': tot.get('sat', 0),
            'queries_unsat': tot.get('unsat', 0),
            'queries_unknown': tot.get('unknown', 0),
            'solver_s': round(tot.get('solver_s', 0), 2),
            'assertions': tot.get('assertions', 0),
            'shapes': nshapes,
            'subtrees_rescheduled': split,
            'witness_mismatches': len(mismatch),
            'counterexamples_not_reproduced': len(unconfirmed),
            'vacuity_labels_not_reached': unreached,
            'incomplete': incomplete,
            'known_findings_seen': sorted(known_lines),
        },
        'assumptions': mod.ASSUMPTIONS,
        'violations': nviol,
        'wall_s': round(wall, 1),
    }
    with open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
    print('%s %s: %d shapes, %d paths, %d assertions, %d queries (%.1fs solver), %d witnesses '
          'replayed, %d violations, %.1fs%s' % (
              prop, tier, nshapes, tot.get('paths', 0), tot.get('assertions', 0),
              tot.get('queries', 0), tot.get('solver_s', 0), validated, nviol, wall,
              ' INCOMPLETE %s' % incomplete if incomplete else ''))
    for line in out_lines:
        print(line)
    if nviol:
        return 1
    if errors:
        for e in errors[:3]:
            print(e, file=sys.stderr)
        return 3
    if unconfirmed or mismatch or unreached:
        return 2        # the encoding or the harness is wrong: no verdict
    return 0


if __name__ == '__main__':
    sys.exit(main())
