#!/opt/venv/bin/python
"""replay.py FILE: run a recorded counterexample on the unmodified code (exit 1: it reproduces).
--server MODULE: replay requests from stdin (used by check.py)."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)


def main():
    from sx.run import replay
    if sys.argv[1] == '--server':
        out = os.fdopen(os.dup(1), 'w', encoding='utf-8')
        os.dup2(2, 1)
        mod = importlib.import_module(sys.argv[2])
        hs = {h.name: h for h in mod.HARNESSES}
        for line in sys.stdin:
            name, shape, inputs = json.loads(line)
            r = replay(hs[name].fn, shape, inputs)
            out.write('@@' + json.dumps(r) + '\n')
            out.flush()
        return 0
    with open(sys.argv[1], encoding='utf-8') as f:
        d = json.load(f)
    mod = importlib.import_module(d['module'])
    h = {h.name: h for h in mod.HARNESSES}[d['harness']]
    r = replay(h.fn, d['shape'], d['inputs'])
    print(json.dumps(r, indent=1))
    return 1 if r['status'] == 'violation' else 0


if __name__ == '__main__':
    sys.exit(main())
