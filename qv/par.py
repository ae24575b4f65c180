"""Run independent analyses in forked workers; results come back in order."""
import multiprocessing as mp

_JOBS = []


def _one(i):
    return _JOBS[i]()


def par(jobs, workers=8):
    """jobs: callables without arguments, results must be picklable"""
    global _JOBS
    _JOBS = list(jobs)
    if len(_JOBS) <= 1:
        return [j() for j in _JOBS]
    with mp.get_context("fork").Pool(min(workers, len(_JOBS))) as p:
        return p.map(_one, range(len(_JOBS)), chunksize=1)
