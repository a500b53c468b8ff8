#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree.

exit 0: every obligation discharged (or bounded stand-in quiet, see evidence); exit 1: VIOLATION line printed.
"""
import json
import os
import shutil
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if os.environ.get('VERIF_PY') != '1':
    env = dict(os.environ, VERIF_PY='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    exe = shutil.which('python3-vt') or VT
    os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.join(HERE, 'vc'))
sys.setrecursionlimit(20000)
import gc
gc.disable()
threading.stack_size(512 << 20)

BUILD = os.path.join(HERE, 'build')
T0 = time.time()


def say(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


class Ctx:
    pass


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING:') and ('property=%s ' % pid) in l:
                out.append(l)
    return out


def main():
    pid = sys.argv[1]
    c = Ctx()
    c.pid = pid
    c.tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        c.tier = sys.argv[sys.argv.index('--tier') + 1]
    try:
        c.seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        c.seed = 1
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    c.replays = os.path.join(BUILD, 'replay')
    os.makedirs(c.replays, exist_ok=True)
    import decide
    res = decide.decide(c, say)
    # ---- evidence
    ev = {'property': pid, 'tier': c.tier, 'seed': c.seed, 'level': res['level'], 'coverage': res['coverage'],
          'assumptions': res['assumptions'], 'wall_s': round(time.time() - T0, 1), 'violations': 1 if res['violation'] else 0}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    for l in known_findings(pid):
        print(l)
    if res['violation']:
        path, tail = res['violation']
        print('VIOLATION property=%s replay=%s%s' % (pid, path, tail), flush=True)
        return 1
    say('%s holds: %s' % (pid, res['summary']))
    return 0


if __name__ == '__main__':
    code = [3]

    def go():
        try:
            code[0] = main()
        except SystemExit as e:
            code[0] = e.code
        except BaseException:
            traceback.print_exc()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code[0])
