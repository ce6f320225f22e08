"""Running scheduler-controlled drivers on all cores and validating what they recorded against a trace specification."""
import collections, json, os, subprocess, tempfile, time
import build, tlc

NOISE = ("race", "uaf")
FATAL = ("deadlock", "hang", "crash", "badunlock", "exit", "abort", "terminate", "leakedlock")

def run_driver(driver, programs, seed, schedules, mode, timeout=200, cores=None):
    """programs: list of program texts.  Returns (list of traces (lists of events), stats)."""
    cores = cores or os.cpu_count() or 4
    cores = min(cores, len(programs))
    parts = [programs[i::cores] for i in range(cores)]
    procs, files = [], []
    avail = sorted(os.sched_getaffinity(0))
    for i, part in enumerate(parts):
        pf = tempfile.NamedTemporaryFile("w", suffix=".prog", dir=build.BUILD, delete=False); pf.write("".join(part)); pf.close()
        of = pf.name + ".out"
        files.append((pf.name, of))
        procs.append(subprocess.Popen(["taskset", "-c", str(avail[i % len(avail)]), driver, pf.name, of, str(seed * 1000003 + i * 101), str(schedules), str(mode)],
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    stats = collections.Counter(); traces = []
    err = None; end = time.time() + timeout; late = 0
    for p, (pf, of) in zip(procs, files):
        try:
            out, e = p.communicate(timeout=max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); out, e = p.communicate(); late += 1       # what has been recorded until now is used
            subprocess.run(["pkill", "-9", "-f", pf], check=False)
        if p.returncode not in (0, -9) and err is None:
            err = "driver failed (%s): %s" % (p.returncode, e[-2000:])
        for l in out.splitlines():
            if l.startswith("{"):
                stats.update(json.loads(l))
        if os.path.exists(of):
            with open(of) as f:
                for l in f:
                    if l.endswith("\n"):
                        t = json.loads(l)
                        if any(e.get("e") == "steps" for e in t):          # more synchronisation objects than the scheduler has room for
                            stats["executions_too_large"] += 1
                        else:
                            traces.append(t)
            os.unlink(of)
        os.unlink(pf)
    if late:
        stats["drivers_out_of_time"] += late
        if not traces:
            err = err or "driver timed out"
    if err:
        raise build.BuildError(err)
    return traces, stats

def split_noise(trace):
    """The trace without race reports, and those reports."""
    noise = [e for e in trace if e.get("e") in NOISE]
    return [e for e in trace if e.get("e") not in NOISE], noise

def again(module, once, annotate, times=3):
    """For executions whose schedule nobody controls: does what was rejected happen again?"""
    def rerun(trace):
        for _ in range(times):
            for t in once(trace):
                r, _, _, _ = tlc.validate(module, [annotate([dict(e) for e in split_noise(t)[0]])], {"FULL": "0"}, jobs=1, timeout=60)
                if r:
                    return True
        return False
    return rerun

def validate(check, module, traces, annotate, full_env=("FULL", "0", "1"), keep_noise=False, what="", timeout=150, rerun=None, batch=None):
    """Checks traces (after annotate) against the trace specification; reports violations to check."""
    uniq, seen, meta = [], set(), []
    for t in traces:
        clean, noise = split_noise(t)
        a = annotate([dict(e) for e in (t if keep_noise else clean)])
        key = json.dumps([e for e in a[1:]], sort_keys=True)
        tag = a[0].get("tag")
        if (tag, key) in seen:
            continue
        seen.add((tag, key)); uniq.append(a); meta.append(t)
    check.add("traces_recorded", len(traces))
    env0 = {full_env[0]: full_env[1]}
    rej, und, gen, dist = tlc.validate(module, uniq, env0, timeout=timeout, **({"batch": batch, "jobs": 6} if batch else {}))
    check.add("states", dist); check.add("transitions", gen); check.add("traces_validated_against_impl", len(uniq) - len(rej) - len(und))
    check.add("trace_events_validated", sum(len(t) - 1 for i, t in enumerate(uniq)))
    if und:
        check.add("traces_undecided", len(und))
        check.log("undecided (time limit):", len(und))
    if uniq:
        check.sample({"validated_trace": uniq[0]}, 2)
    if not rej:
        return 0
    check.log("%d traces rejected, confirming" % len(rej))
    n = 0; tags = set(); looser = 0; unsure = 0
    end = time.time() + (120 if not check.thorough else 600)
    # what cannot be explained with the pruned search is tried again without pruning: the shortest ones first, and only up to
    # the event where the pruned search got stuck
    def isfatal(i): return [e for e in uniq[i] if e.get("e") in FATAL or e.get("e") in NOISE]
    for i in sorted(rej, key=lambda i: (not isfatal(i), len(uniq[i]))):
        tag = uniq[i][0].get("tag")
        if tag in tags:
            continue
        p = None
        if full_env[1] != full_env[2] and not isfatal(i):
            if time.time() > end:
                break
            p = tlc.progress(module, uniq[i], env0)
            env1 = {full_env[0]: full_env[2]}
            r2, u2, _, _ = tlc.validate(module, [uniq[i][:p] if p else uniq[i]], env1, timeout=60, jobs=1)
            if not r2 and not u2 and p and p < len(uniq[i]):
                r2, u2, _, _ = tlc.validate(module, [uniq[i]], env1, timeout=60, jobs=1)
                p = None
            if u2:
                unsure += 1
                continue
            if not r2:
                looser += 1
                if looser > 40:
                    break
                continue
        if rerun is not None and not rerun(meta[i]):
            check.add("not_reproduced", 1)
            continue
        tags.add(tag)
        p = p or tlc.progress(module, uniq[i], env0)
        ev = uniq[i][p - 1] if 0 < p <= len(uniq[i]) else None
        check.violation("%sprogram %s: the recorded execution is not a behaviour of the specification; it can be followed up to event %d: %s"
                        % (what, tag, p, json.dumps(ev)), {"kind": "trace", "module": module, "followed_to": p, "trace": uniq[i], "reports": [e for e in meta[i] if e.get("e") in NOISE]},
                        key=tag)
        n += 1
        if n >= 3:
            break
    if unsure:
        check.add("rejections_not_confirmed_in_time", unsure); check.log(unsure, "rejections could not be confirmed in time")
    if looser:
        check.add("accepted_by_unpruned_search", looser)
    return n
