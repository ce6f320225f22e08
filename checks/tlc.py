"""Running TLC on trace specifications and on models."""
import json, os, re, shutil, subprocess, tempfile, concurrent.futures
from build import VERIF, BUILD
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TlcError(Exception):
    pass

def brief(out):
    out = "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "Linting of", "Starting", "TLC2 Version")))
    i = out.find("Error:")
    return out[i if i >= 0 else 0:][:3000]

def run_tlc(module, cfg, env=None, workers=4, timeout=300, args=(), heap="3g", jvm=(), partial=False):
    """Output of TLC, or None if it did not finish in time.  Raises TlcError if TLC could not evaluate the model."""
    os.makedirs(BUILD, exist_ok=True)
    md = tempfile.mkdtemp(prefix="tlc", dir=BUILD)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + md] + list(jvm) + ["-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
           "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
    e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out = r.stdout
    except subprocess.TimeoutExpired as x:
        if not partial:
            return None
        out = x.stdout or b""
        out = out.decode(errors="replace") if isinstance(out, bytes) else out
    finally:
        shutil.rmtree(md, ignore_errors=True)
    if "TLC threw an unexpected exception" in out or "Parsing or semantic analysis failed" in out or "java.lang.OutOfMemoryError" in out or "Error: Evaluating" in out:
        raise TlcError(brief(out))
    return out

def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def accepted(out):
    return set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out))

def write_traces(traces):
    f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=BUILD, delete=False)
    for t in traces:
        f.write((t if isinstance(t, str) else json.dumps(t)) + "\n")
    f.close()
    return f.name

def validate(module, traces, env=None, timeout=300, batch=None, jobs=2, cfg=None):
    """Indices of the traces that are not behaviours of the specification (or None: not decided), and TLC's state counts."""
    rejected, undecided, gen, dist = [], [], 0, 0
    batch = batch or min(3000, max(50, (len(traces) + jobs - 1) // jobs))
    def one(idx, timeout):
        f = write_traces([traces[i] for i in idx])
        try:
            out = run_tlc(module, cfg or module + ".cfg", dict(env or {}, TRACES=f), workers=4, timeout=timeout, partial=True)
            acc = set(idx[i - 1] for i in accepted(out))
            if "Model checking completed" in out:
                return acc, [i for i in idx if i not in acc], [], stats(out)
            if "Error:" in out:
                raise TlcError(brief(out))
            return acc, [], [i for i in idx if i not in acc], stats(out)
        finally:
            os.unlink(f)
    rest = []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for acc, rej, und, st in ex.map(lambda s: one(list(range(s, min(s + batch, len(traces)))), timeout), range(0, len(traces), batch)):
            rejected += rej; rest += und
            gen += st[0]; dist += st[1]
    # one trace can be too hard: the others are looked at without it
    if rest and len(traces) > 1 and batch > 1:
        rest.sort(key=lambda i: len(traces[i]))
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for acc, rej, und, st in ex.map(lambda i: one([i], 15), rest[:24]):
                rejected += rej; undecided += und
                gen += st[0]; dist += st[1]
        undecided += rest[24:]
    else:
        undecided += rest
    return rejected, undecided, gen, dist

def progress(module, trace, env=None, timeout=120, cfg=None):
    """Number of events of the trace that the specification can follow (1-based index of the first one it cannot)."""
    f = write_traces([trace])
    try:
        out = run_tlc(module, cfg or module + "Diag.cfg", dict(env or {}, TRACES=f), workers=1, timeout=timeout)
        m = re.search(r'<<"PROG", (\d+)>>', out or "")
        return int(m.group(1)) if m else 0
    finally:
        os.unlink(f)
