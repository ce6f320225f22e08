RPC = ("TLA+ specification spec/RPC.tla, trace validation with TLC of executions of real action requests under a deterministic scheduler",
       "Every recorded execution (requests, provider calls, responses, response callbacks, virtual time) of generated multi-threaded programs under sampled schedules was checked by TLC to be a behaviour of the specification. Sampled programs and schedules; trusts TLC and the scheduler runtime.")
MORE = {p: RPC for p in ["C09", "C10", "C11"]}
DG = ("TLA+ specification spec/Datagram.tla; operation sequences from its exhaustive bounded model (spec/DatagramMC.tla) and generated ones are performed on real datagrams and messages, and TLC validates every recorded result and state against the specification",
      "After every operation the result, the exception and the full observable state of all datagrams and messages were checked by TLC against the specification. Bounded exhaustive (C12, C13) plus sampled operation sequences and values; memory errors through ASan/UBSan. Trusts TLC.")
MORE.update({p: DG for p in ["C12", "C13", "C14", "C15", "C16", "C17", "C18", "C29"]})
UT = ("TLA+ specification spec/Utilities.tla; generated operation sequences are performed on the real code and TLC validates every recorded result against the specification",
      "Every recorded result was checked by TLC against the specification's function of the inputs. Generated inputs (all pairs of a value set for the configurations), memory errors through ASan/UBSan. Trusts TLC.")
MORE.update({p: UT for p in ["C26", "C28", "C30"]})
MORE["C27"] = ("TLA+ specification spec/Log.tla, trace validation with TLC of executions of the real logger under a deterministic scheduler",
       "Every recorded execution of generated multi-threaded logging programs, with the output it left, was checked by TLC to be a behaviour of the specification. Sampled programs and schedules; trusts TLC and the scheduler runtime.")
LK = ("TLA+ specification spec/Link.tla, trace validation with TLC of executions of real linked buses under a deterministic scheduler with an in-process stand-in for libzmq, and with libzmq itself",
      "Every recorded execution (publications, frames of outsiders, shutdowns, dispatches on every host) of generated topologies and programs was checked by TLC to be a behaviour of the specification. Sampled topologies, programs and schedules; trusts TLC, the scheduler runtime and, where it is used, the stand-in.")
MORE["C24"] = LK
MORE["C25"] = (LK[0] + "; damaged message bytes are decoded by the real code and the results validated against spec/Datagram.tla", LK[1])
HO = ("TLA+ specification spec/Host.tla, trace validation with TLC of executions of the real host and plugin manager under a deterministic scheduler with stand-ins for the plugin libraries, and of the real program with real libraries, configuration files and signals",
      "Every recorded execution (library openings, instances and what happens to them, stop requests, results) of generated directory layouts, plugin libraries, configuration files and stop requests was checked by TLC to be a behaviour of the specification. Sampled; trusts TLC, the scheduler runtime and, where they are used, the stand-ins for the dynamic loader.")
MORE.update({p: HO for p in ["C19", "C20", "C21", "C22", "C23"]})
MORE["C31"] = ("TLA+ specification spec/SysInfo.tla, trace validation with TLC of executions of real plugin instances on a real bus under a deterministic scheduler",
       "Every recorded execution (publications, requests, responses, greetings in virtual time, log lines) of generated programs was checked by TLC to be a behaviour of the specification. Sampled programs and schedules; trusts TLC and the scheduler runtime.")
