"""Runs analyses side by side, each in a process of its own."""
import os
import pickle
import select
import signal
import sys
import traceback


class Outcome:
    """What is kept of an engine."""

    def __init__(self, e, sol, res):
        self.findings, self.undecided = e.findings, e.undecided
        self.unknown = {str(k): 1 for k in e.unknown}
        self.nstates, self.nsteps, self.calls = e.nstates, e.nsteps, len(e.calls)
        self.functions = sorted({e.p.fns[k].name for k, _ in e.visited if e.p.fns[k].krate.startswith('static_xml')})
        self.stats, self.res = sol.stats, res
        self.stopped = getattr(e, 'stopped', False)


class Sol:
    pass


def run(jobs, stop=False, width=8):
    """`jobs` return (engine, solver, results); so does this. With `stop`, the
    first finding ends it."""
    todo = list(enumerate(jobs))
    live = {}
    done = {}
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        while todo or live:
            while todo and len(live) < width:
                n, job = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    child(job, r, w)
                os.close(w)
                live[r] = (n, pid, [])
            for r in select.select(list(live), [], [])[0]:
                n, pid, buf = live[r]
                d = os.read(r, 1 << 20)
                if d:
                    buf.append(d)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                o = pickle.loads(b''.join(buf)) if buf else None
                if o is None or isinstance(o, str):
                    raise RuntimeError('an analysis failed: %s' % o)
                done[n] = o
                if stop and o.stopped:
                    return merged(list(done.values()))
    finally:
        for r, (n, pid, _) in live.items():
            os.close(r)
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
    return merged([done[n] for n in sorted(done)])


def child(job, r, w):
    try:
        os.close(r)
        try:
            o = Outcome(*job())
        except BaseException:
            o = traceback.format_exc()
        with os.fdopen(w, 'wb') as f:
            pickle.dump(o, f)
    finally:
        os._exit(0)


def merged(outs):
    o = outs[0]
    names = [k for x in outs for k in x.res]
    same = len(set(names)) < len(names)
    res = {'%s (0)' % k if same else k: v for k, v in o.res.items()}
    fns = set(o.functions)
    for n, x in enumerate(outs[1:], 1):
        o.nstates += x.nstates
        o.nsteps += x.nsteps
        o.calls = max(o.calls, x.calls)
        for k in ('findings', 'undecided', 'unknown'):
            d = dict(getattr(x, k))
            d.update(getattr(o, k))
            setattr(o, k, d)
        fns |= set(x.functions)
        for k in x.stats:
            o.stats[k] = o.stats.get(k, 0) + x.stats[k]
        res.update({'%s (%d)' % (k, n) if same else k: v for k, v in x.res.items()})
    o.functions = sorted(fns)
    s = Sol()
    s.stats = o.stats
    return o, s, res
