"""Analyse a set of specs in parallel worker processes."""
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

from . import facts, model, specs, ref, terms as X

PROG = None
SPECS = None
FN = None
META = None               # names known from the reviewed tree


class Late(BaseException):
    pass


def _alarm(*a):
    raise Late()


def init(root):
    global PROG, SPECS
    sys.setrecursionlimit(6000)
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    if PROG is None or PROG.root != root:
        PROG = model.Program(root, META)
        SPECS = {s.id: s for s in specs.specs(PROG, META)}
    signal.signal(signal.SIGPROF, _alarm)


def work(job):
    sid, lim = job
    t0 = time.time()
    signal.setitimer(signal.ITIMER_PROF, lim)
    try:
        try:
            F = facts.run(PROG, SPECS[sid])
            r = FN(sid, F, PROG)
        except Late:
            r = ('late', None)
        except MemoryError:
            r = ('mem', None)
        except RecursionError:
            r = ('rec', None)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            r = ('err', '%s %s %s:%d' % (type(e).__name__, str(e)[:80],
                                         os.path.basename(tb.filename),
                                         tb.lineno))
    except BaseException:
        r = ('late', None)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return sid, r, time.time() - t0


def run(root, ids, fn, lim=30, procs=8):
    """fn(sid, Facts, prog) -> picklable, evaluated in the worker"""
    global FN
    FN = fn
    init(root)
    jobs = [(i, lim) for i in ids]
    with mp.get_context('fork').Pool(procs, maxtasksperchild=12) as po:
        yield from po.imap_unordered(work, jobs, chunksize=1)
