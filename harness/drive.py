"""Runs cases on the real code (started by core.Check.observe with the repo's interpreter)."""
import json, multiprocessing as mp, os, signal, sys


class Hang(BaseException):
    pass


HANGS = 0          # in this worker


def _alarm(*_):
    raise Hang()


def run_one(case):
    import impl
    global HANGS
    signal.signal(signal.SIGPROF, _alarm)
    # CPU time, so that a busy machine does not matter; once two cases hung the others get less
    signal.setitimer(signal.ITIMER_PROF, case.get("timeout", 20) if HANGS < 2 else 3 if HANGS < 6 else 0.5)
    try:
        return impl.observe(case)
    except Hang:
        HANGS += 1
        return {"exc": "HANG"}
    except RecursionError:
        return {"exc": "RecursionError"}
    except Exception as e:           # an exception escaping the observation itself
        if os.environ.get("VERIF_DEBUG"):
            import traceback
            traceback.print_exc()
        return {"exc": type(e).__name__}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def main():
    cases = json.load(open(sys.argv[1]))
    import impl                       # noqa: import once, before forking
    n = min(int(os.environ.get("VERIF_PROCS", "0")) or (os.cpu_count() or 4), max(1, len(cases) // 8))
    if n <= 1:
        out = [run_one(c) for c in cases]
    else:
        with mp.get_context("fork").Pool(n) as pool:
            out = pool.map(run_one, cases, chunksize=max(1, len(cases) // (n * 8)))
    tmp = sys.argv[2] + ".tmp"
    json.dump(out, open(tmp, "w"))
    os.rename(tmp, sys.argv[2])


if __name__ == "__main__":
    main()
