"""Run independent jobs of a check in several processes; obligations keep their order."""
import os
import pickle
import shutil
import sys
import tempfile
import traceback

from program import AnalysisError


def fan(ctx, jobs, run, functions=lambda: ()):
    """run(job) for each job; `functions()` gives the functions covered by this process."""
    jobs = list(jobs)
    n = int(os.environ.get("CHECK_PROCS") or min(8, os.cpu_count() or 1))
    n = min(n, len(jobs))
    if n <= 1 or not hasattr(os, "fork"):
        for j in jobs:
            run(j)
        ctx.functions.update(functions())
        return
    r, w = os.pipe()
    tmp = tempfile.mkdtemp(prefix="check")
    sys.stdout.flush()
    sys.stderr.flush()
    pids = []
    start = len(ctx.items)
    try:
        for k in range(n):
            pid = os.fork()
            if pid == 0:
                os.close(w)
                code = 1
                try:
                    work(ctx, jobs, run, functions, r, os.path.join(tmp, str(k)), start)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            pids.append(pid)
        os.close(r)
        try:
            for i in range(len(jobs)):
                os.write(w, i.to_bytes(4, "big"))
        except BrokenPipeError:
            pass
        os.close(w)
        bad = [p for p in pids if os.waitpid(p, 0)[1] != 0]
        if bad:
            raise AnalysisError("%d of %d processes failed" % (len(bad), n))
        out = []
        for k in range(n):
            with open(os.path.join(tmp, str(k)), "rb") as f:
                done, functions_, notes, assumptions = pickle.load(f)
            out += done
            ctx.functions.update(functions_)
            ctx.notes += [x for x in notes if x not in ctx.notes]
            ctx.assumptions += [x for x in assumptions if x not in ctx.assumptions]
        for _, items in sorted(out, key=lambda x: x[0]):
            ctx.items += items
        if len(out) != len(jobs):
            raise AnalysisError("%d of %d jobs done" % (len(out), len(jobs)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def work(ctx, jobs, run, functions, r, path, start):
    done = []
    while True:
        b = os.read(r, 4)
        if len(b) < 4:
            break
        i = int.from_bytes(b, "big")
        run(jobs[i])
        done.append((i, ctx.items[start:]))
        del ctx.items[start:]
    with open(path, "wb") as f:
        pickle.dump((done, set(ctx.functions) | set(functions()), list(ctx.notes),
                     list(ctx.assumptions)), f)
