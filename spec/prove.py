"""Runs the proof tasks of one property (python3-vt -m spec.prove PROP REPO TMP OUT DEADLINE TIER).

Every task runs in a forked process of its own, 8 at a time; the result of each goes to OUT as one JSON line."""
import glob
import importlib
import json
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vc.task import *        # noqa
from vc.verify import build_ir


def modules():
    return sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(HERE, 'spec', '*.py'))
                  if os.path.basename(p) not in ('__init__.py', 'prove.py', 'driver.py', 'common.py'))


def child(env, d, budget, out, mode):
    r = run_task(env, d, budget, mode)
    j = {'task': d.name, 'functions': d.functions, 'bounded': d.bounded, 'discharged': r.discharged, 'refuted': r.refuted,
         'unknown': r.unknown, 'imprecise': r.imprecise, 'ran': r.ran, 'loops': r.summarised, 'assumed': r.assumed,
         'bounds': getattr(r, 'bounds', []), 'seconds': round(r.seconds, 2), 'solver': round(r.solver, 2), 'queries': r.queries,
         'backends': r.backends, 'obligations': r.obligations, 'vacuous': getattr(r, 'vacuous', 0), 'frame': getattr(r, 'global_writes', [])}
    with open(out, 'w') as f:
        json.dump(j, f)


def main():
    prop, repo, tmp, outp, deadline, tier = sys.argv[1:7]
    t_end = time.time() + float(deadline)
    jobs = 8
    ll = build_ir(repo, tmp)
    env = Env(ll)
    env.index
    for m in modules():
        importlib.import_module('spec.' + m)
    # C18 and C19 count one kind of obligation of all contracts
    mode = {'C18': 'safety', 'C19': 'frame'}.get(prop)
    mine = list(TASKS.get(prop, []))
    if mode:
        names = set(d.name for d in mine)
        for p in sorted(TASKS):
            for d in TASKS[p]:
                if d.name not in names:
                    names.add(d.name)
                    mine.append(d)
    todo = sorted(mine, key=lambda d: -d.weight)
    if tier == 'quick':
        todo = [d for d in todo if not d.thorough_only]
    running = {}
    results = []
    n = 0
    for_later = list(todo)
    while for_later or running:
        while for_later and len(running) < jobs:
            left = t_end - time.time()
            if left < 2:
                for d in for_later:
                    results.append({'task': d.name, 'functions': d.functions, 'imprecise': 'not started: out of time', 'discharged': 0})
                for_later = []
                break
            d = for_later.pop(0)
            o = os.path.join(tmp, 'r%d.json' % n)
            n += 1
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    child(env, d, max(1.0, left - 1), o, mode)
                except BaseException as e:
                    try:
                        with open(o, 'w') as f:
                            json.dump({'task': d.name, 'functions': d.functions, 'imprecise': 'internal: %s %s' % (type(e).__name__, e), 'discharged': 0}, f)
                    except BaseException:
                        pass
                os._exit(0)
            running[pid] = (d, o, time.time())
        if not running:
            break
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, (d, o, t) in list(running.items()):
                if now > t_end + 3:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except OSError:
                        pass
            time.sleep(0.01)
            continue
        if pid not in running:
            continue
        d, o, t = running.pop(pid)
        try:
            with open(o) as f:
                results.append(json.load(f))
        except (OSError, ValueError):
            results.append({'task': d.name, 'functions': d.functions, 'imprecise': 'time limit', 'discharged': 0})
    if mode:
        # a contract without code of this kind has nothing to say here
        results = [r for r in results if r.get('imprecise') or r.get('discharged') or r.get('refuted') or r.get('unknown')]
    order = {d.name: i for i, d in enumerate(mine)}
    results.sort(key=lambda r: order.get(r['task'], 0))
    with open(outp + '.tmp', 'w') as f:
        json.dump(results, f)
    os.replace(outp + '.tmp', outp)


if __name__ == '__main__':
    main()
