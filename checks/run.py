#!/usr/bin/env python3
"""run.py ID: the check of one property.  VERIF_TIER (quick, thorough) and VERIF_SEED come from the environment."""
import os, signal, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, models, tlc
from common import Check

def registry():
    import buscheck
    r = {p: buscheck.run for p in buscheck.FOCUS}
    import rpccheck
    r.update({p: rpccheck.run for p in rpccheck.FOCUS})
    import dgcheck
    r.update({p: dgcheck.run for p in dgcheck.FOCUS})
    import utilcheck
    r.update({p: utilcheck.run for p in utilcheck.FOCUS})
    import logcheck
    r["C27"] = logcheck.run
    import linkcheck
    r["C24"] = r["C25"] = linkcheck.run
    import hostcheck
    r.update({p: hostcheck.run for p in ("C19", "C20", "C21", "C22", "C23")})
    import sysinfocheck
    r["C31"] = sysinfocheck.run
    return r

def main():
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD):      # whatever started this may ignore signals; the programs run here must not inherit that
        signal.signal(s, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    if sys.argv[1] == "--setup":
        os.makedirs(build.BUILD, exist_ok=True)
        build.sched_driver("bus_driver"); build.sched_driver("rpc_driver")
        import logcheck; logcheck.driver()
        import linkcheck; linkcheck.driver(); linkcheck.real_driver()
        import dgcheck; dgcheck.driver()
        import hostcheck; hostcheck.driver(); hostcheck.program_and_fixtures()
        import utilcheck; utilcheck.driver()
        import sysinfocheck; sysinfocheck.driver()
        return 0
    prop = sys.argv[1]
    os.makedirs(build.BUILD, exist_ok=True)
    c = Check(prop)
    try:
        m = models.Models(c)
        registry()[prop](c)
        m.finish()
    except (build.BuildError, tlc.TlcError) as e:
        print("ERROR: %s" % str(e)[:3000])
        return 2
    r = c.finish()
    build.prune()
    return r

if __name__ == "__main__":
    sys.exit(main())
