"""Running case drivers (harness/case.h) on all cores."""
import json, os, subprocess, tempfile
import build

def run(driver, progs, secs=30, timeout=600, env=None, args=(), user=None):
    cores = min(os.cpu_count() or 4, max(1, len(progs))); procs = []
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1"); e.update(env or {})
    for i in range(cores):
        pf = tempfile.NamedTemporaryFile("w", suffix=".cases", dir=build.BUILD, delete=False)
        for p in progs[i::cores]:
            pf.write(json.dumps(p) + "\n")
        pf.close()
        procs.append((subprocess.Popen([driver, pf.name, pf.name + ".out", str(secs)] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e), pf.name))
    out, err = [], None
    for p, f in procs:
        try:
            o, er = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate(); err = "driver timed out"; o = er = ""
        if p.returncode != 0 and err is None:
            err = "driver failed (%s): %s" % (p.returncode, er[-1500:])
        if os.path.exists(f + ".out"):
            with open(f + ".out") as fh:
                out += [json.loads(l) for l in fh]
            os.unlink(f + ".out")
        os.unlink(f)
    if err:
        raise build.BuildError(err)
    return out
