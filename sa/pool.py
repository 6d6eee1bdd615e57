"""Runs the obligations of a check in parallel; a job that fails or takes too long
leaves its obligations undecided."""
import os
import pickle
import select
import signal
import sys
import time
import traceback

from .interp import GiveUp
from .project import AnalysisBroken
from .report import Report

WORKERS = int(os.environ.get('SA_WORKERS', '0')) or min(8, len(os.sched_getaffinity(0)))
DEADLINE = 720
GRACE = 90       # seconds left to the other jobs once one has found a violation


def run_one(rep, fn, job, name, budget=150):
    sub = Report(rep.prop, rep.tier, rep.seed)
    sub.budget = budget
    try:
        fn(sub, job)
    except GiveUp as e:
        sub.unsure(name, 'analysis gave up: %s' % e)
    except AnalysisBroken as e:
        sub.unsure(name, 'not analysed: %s' % e)
    except RecursionError:
        sub.unsure(name, 'not analysed: too deep')
    except Exception:
        if os.environ.get('SA_TRACE'):
            traceback.print_exc()
        sub.unsure(name, 'analysis failed: ' + traceback.format_exc(limit=-2).strip().replace('\n', ' | ')[-300:])
    return sub.obls, sub.analysed


def pmap(rep, fn, jobs, limit=300, names=None):
    """fn(report, job) for every job; verdicts are merged into rep in job order"""
    jobs = list(jobs)
    names = names or ['job %d' % i for i in range(len(jobs))]
    results = [None] * len(jobs)
    budget = min(150 if rep.tier == 'quick' else 600, max(20, 400 * WORKERS / max(1, len(jobs))))
    if WORKERS <= 1 or len(jobs) <= 1:
        for i, j in enumerate(jobs):
            results[i] = run_one(rep, fn, j, names[i], budget)
    else:
        sys.stdout.flush()
        sys.stderr.flush()
        waiting = list(range(len(jobs)))
        running = {}
        found = None
        while waiting or running:
            while waiting and len(running) < WORKERS:
                i = waiting.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        data = pickle.dumps(run_one(rep, fn, jobs[i], names[i], budget))
                        with os.fdopen(w, 'wb') as f:
                            f.write(data)
                        sys.stdout.flush()
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                running[r] = (i, pid, time.time(), [])
            left = DEADLINE - (time.time() - rep.t0)
            if found is not None:
                left = min(left, found + GRACE - time.time())
            ready, _, _ = select.select(list(running), [], [], 0.5)
            for r in ready:
                d = os.read(r, 1 << 20)
                i, pid, t, buf = running[r]
                if d:
                    buf.append(d)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                try:
                    results[i] = pickle.loads(b''.join(buf))
                    if found is None and any(o['verdict'] == 'violation' for o in results[i][0]):
                        found = time.time()
                except Exception:
                    results[i] = ([dict(key=names[i], verdict='undecided', what='analysis ended abnormally', where='', detail='')], {})
            for r, (i, pid, t, buf) in list(running.items()):
                if time.time() - t > limit or left <= 0:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    del running[r]
                    results[i] = ([dict(key=names[i], verdict='undecided', what='analysis took too long', where='', detail='')], {})
            if left <= 0:
                for i in waiting:
                    results[i] = ([dict(key=names[i], verdict='undecided', what='no time left', where='', detail='')], {})
                waiting = []
    for obls, an in results:
        rep.obls.extend(obls)
        for k, v in an.items():
            rep.count(k, v)
