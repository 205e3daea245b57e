"""Computes a lazy regridded object with a scheduler of dask, in a program of its own:
dask_job.py INPUT.pickle OUTPUT.pickle. The processes scheduler needs a main module that can be imported."""

import pickle
import sys


def main():
    import dask

    with open(sys.argv[1], "rb") as f:
        da, kwargs, scheduler, context = pickle.load(f)
    from guard import assert_repo

    assert_repo()
    from earthkit.regrid import config
    from earthkit.regrid import regrid

    config.autosave = False
    try:
        lazy = regrid(da, **kwargs)
        with dask.config.set({"multiprocessing.context": context}):
            res = (lazy.compute(scheduler=scheduler, num_workers=3), None)
    except Exception as e:
        res = (None, f"{type(e).__name__}: {e}"[:800])
    with open(sys.argv[2], "wb") as f:
        pickle.dump(res, f)


if __name__ == "__main__":
    main()
