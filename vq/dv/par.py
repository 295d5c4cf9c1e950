"""Independent obligations in forked processes."""
import multiprocessing, os


def pmap(f, items, procs=None):
    """[f(x) for x in items]; the results must be picklable.  Falls back to one process."""
    items = list(items)
    procs = min(procs or os.cpu_count() or 1, 8, len(items))
    if procs < 2 or multiprocessing.current_process().daemon:
        return [f(x) for x in items]
    global _F
    _F = f
    try:
        with multiprocessing.get_context('fork').Pool(procs) as p:
            return p.map(_call, items, chunksize=1)
    except (OSError, multiprocessing.ProcessError):
        return [f(x) for x in items]


_F = None


def _call(x):
    return _F(x)
