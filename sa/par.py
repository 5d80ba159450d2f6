"""Independent parts of one check, in parallel."""
import multiprocessing
import multiprocessing.connection
import os
import sys
import traceback

from interp import NoProgress
from report import Report


def _one(i, task, prop, tier, conn):
    r = Report(prop, tier)
    err = None
    try:
        task(r)
    except NoProgress as e:
        if prop == "C22":
            r.bad(e.where, "a loop of %s does not end" % e.fn)
        else:
            err = ("NoProgress: %s" % e, traceback.format_exc())
    except Exception as e:
        err = ("%s: %s" % (type(e).__name__, e), traceback.format_exc())
    conn.send((i, r.ob, r.viol, r.samples, r.info, err))
    conn.close()


def run(r, tasks, width=None):
    """tasks: functions of a report; their findings are collected in r"""
    mp = multiprocessing.get_context("fork")
    width = width or min(8, os.cpu_count() or 1)
    todo = list(enumerate(tasks))
    live = []
    out = {}
    while todo or live:
        while todo and len(live) < width:
            i, t = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_one, args=(i, t, r.prop, r.tier, b))
            p.start()
            b.close()
            live.append((i, p, a))
        ready = multiprocessing.connection.wait([a for _, _, a in live])
        for x in list(live):
            i, p, a = x
            if a in ready:
                try:
                    out[i] = a.recv()
                except EOFError:
                    out[i] = (i, {}, [], [], {}, ("a part of the analysis was ended from outside (memory?)", ""))
                p.join()
                live.remove(x)
    broken = []
    for i in sorted(out):
        _, ob, viol, samples, info, err = out[i]
        for k, v in ob.items():
            r.count(k, v)
        for w, t in viol:
            r.bad(w, t)
        r.sample(*samples)
        r.info.update(info)
        if err:
            broken.append(err)
    if broken:
        from interp import Unsupported
        sys.stderr.write(broken[0][1])
        raise Unsupported(broken[0][0])
