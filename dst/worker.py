"""Worker process: runs simulated executions, each in its own forked child.

Protocol: one JSON task per line on stdin ({"index":i} or {"plan":{...}}), one
JSON result per line on stdout.  The parent process never runs the code under
test; every child starts from the same freshly imported state.
"""
import gc
import hashlib
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

CPU_LIMIT = int(os.environ.get("DST_CPU_LIMIT", "40"))
WALL_LIMIT = int(os.environ.get("DST_WALL_LIMIT", "120"))


def plan_for(module, prop, seed, tier, index):
    from . import probes
    directed = probes.for_prop(prop)
    if index < len(directed):
        plan = dict(directed[index])
    else:
        rng = random.Random("%s/%s/%s" % (prop, seed, index))
        plan = module.generate(rng, index, tier)
    plan.setdefault("prop", prop)
    plan["index"] = index
    plan["hashseed"] = int(os.environ.get("PYTHONHASHSEED", "0"))
    return json.loads(json.dumps(plan))


def run_child(module, prop, seed, tier, task, scratch, wfd):
    os.setpgid(0, 0)
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    out = os.open(os.path.join(scratch, "stdout"), os.O_CREAT | os.O_RDWR | os.O_TRUNC)
    os.dup2(out, 1)
    os.dup2(out, 2)
    home = os.path.join(scratch, "home")
    cwd = os.path.join(scratch, "cwd")
    os.mkdir(home)
    os.mkdir(cwd)
    os.environ["HOME"] = home
    os.chdir(cwd)
    sys.argv = ["syncany-sql"]
    from . import kernel
    plan = None
    try:
        plan = task.get("plan") or plan_for(module, prop, seed, tier, task["index"])
        kernel.reset_run_seams(plan)
        if plan.get("probe"):
            from . import probes
            result = probes.execute(plan)
        else:
            result = module.execute(plan)
        result.setdefault("violations", [])
    except BaseException as e:
        text = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
        frames = [f.f_code.co_filename for f, _ in traceback.walk_tb(e.__traceback__)]
        last = max([i for i, f in enumerate(frames) if f.startswith(here)], default=-1)
        if plan is not None and isinstance(e, Exception) and any("/syncanysql/" in f for f in frames) and last < len(frames) - 1:
            # a call that has no reason to fail raised inside the code under test
            result = {"violations": [{"kind": "unexpected_error", "detail": text[:3000]}]}
        else:
            result = {"harness_error": text}
    w = kernel.World.current
    if w is not None:
        result.setdefault("digest", w.digest())
        result.setdefault("ops", w.ops)
        result["sim_ns"] = w.elapsed_ns
        faults = {}
        for f in w.injected:
            faults[f[0]] = faults.get(f[0], 0) + 1
        for k, v in result.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        result["faults"] = faults
        result["reach"] = sorted(w.reach)
        if task.get("trace"):
            result["trace"] = w.trace[-400:]
    if result.get("violations") or result.get("harness_error") or task.get("want_plan"):
        result["plan"] = plan
    data = json.dumps(result, default=repr).encode()
    view = memoryview(data)
    while view:
        view = view[os.write(wfd, view):]
    os._exit(0)


def run_task(module, prop, seed, tier, task, base):
    scratch = tempfile.mkdtemp(dir=base)
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            run_child(module, prop, seed, tier, task, scratch, wfd)
        finally:
            os._exit(111)
    os.close(wfd)
    chunks, deadline, timed_out = [], time.monotonic() + WALL_LIMIT, False
    while True:
        left = deadline - time.monotonic()
        ready = select.select([rfd], [], [], max(0, left))[0] if left > 0 else []
        if not ready:
            timed_out = True
            break
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if timed_out:
        result = {"violations": [{"kind": "no_progress", "detail": "the run did not finish within %d s: it is blocked" % WALL_LIMIT}],
                  "digest": "none", "faults": {}, "reach": []}
        result["plan"] = task.get("plan") or plan_for(module, prop, seed, tier, task["index"])
    elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGKILL):
        result = {"violations": [{"kind": "no_progress",
                                  "detail": "the run used more than %d s of CPU time without finishing" % CPU_LIMIT}],
                  "digest": "none", "faults": {}, "reach": []}
        result["plan"] = task.get("plan") or plan_for(module, prop, seed, tier, task["index"])
    elif os.WIFSIGNALED(status) and not chunks and os.WTERMSIG(status) in (signal.SIGTERM, signal.SIGHUP, signal.SIGINT):
        result = {"violations": [{"kind": "killed", "detail": "the process was ended by signal %d, which it should have handled" % os.WTERMSIG(status)}],
                  "digest": "none", "faults": {}, "reach": []}
        result["plan"] = task.get("plan") or plan_for(module, prop, seed, tier, task["index"])
    else:
        try:
            result = json.loads(b"".join(chunks).decode())
        except ValueError:
            tail = ""
            try:
                tail = open(os.path.join(scratch, "stdout"), errors="replace").read()[-2000:]
            except OSError:
                pass
            result = {"harness_error": "child died without a result (status %s)\n%s" % (status, tail)}
    shutil.rmtree(scratch, ignore_errors=True)
    return result


def main():
    prop, seed, tier, base = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4]
    channel = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from . import kernel
    kernel.install_process_seams()
    module = importlib.import_module("dst.props." + prop.lower())
    from . import harness
    harness.preload()
    if hasattr(module, "preload"):
        module.preload()
    gc.collect()
    gc.freeze()
    channel.write(json.dumps({"ready": True}) + "\n")
    channel.flush()
    for line in sys.stdin:
        task = json.loads(line)
        result = run_task(module, prop, seed, tier, task, base)
        result["id"] = task.get("id")
        channel.write(json.dumps(result) + "\n")
        channel.flush()


if __name__ == "__main__":
    main()
