"""What each check runs: (target, quick cases, quick time cap in s, thorough time in s)."""
ASSUME = ["the kernel behaves as modelled by the harness's fake devices, virtual terminals and file system (src/kern.cpp)",
          "the daemon is single-threaded and interacts with its surroundings only through libc"]
D = ("histories of client connections, requests (well-formed, malformed, fragmented, pipelined), disconnects, slow readers, user VT switches, signals, "
     "injected failures and short or interrupted I/O, generated with coverage feedback and run against the real seatd main() in lock step with a reference model.")


def dm(q=70000, hid=0, t=420):
    r = [("daemon", q, 240, t)]
    if hid:
        r.append(("daemon-hid", hid, 120, t // 3))
    return dict(runs=r, gen=D, level="exploration", technique="stateful model-based fuzzing of the daemon")


PLAN = {
    "C01": dm(), "C02": dm(), "C03": dm(60000, 25000), "C04": dm(90000), "C05": dm(60000, 25000), "C06": dm(60000, 15000), "C07": dm(60000),
    "C08": dm(), "C09": dm(60000, 20000), "C10": dm(), "C11": dm(), "C12": dm(), "C13": dm(), "C22": dm(), "C24": dm(60000),
    "C25": dict(dm(60000, 20000), level="fault_enumeration", technique="stateful model-based fuzzing with systematic fault injection"),
}
PLAN["C14"] = dict(runs=[("conn", 60000, 120, 420)], level="exploration", technique="model-based fuzzing of the connection code over real sockets",
    gen="sequences of queueing, flushing, reading, un-reading, partial, interrupted and failing socket calls and descriptor passing over two real connections, compared with a FIFO model.")
PLAN["C15"] = dict(runs=[("poller", 300000, 120, 420)], level="exploration", technique="model-based fuzzing of the event loop",
    gen="sequences of adding, updating and destroying sources, descriptor readiness, signals at chosen points and callbacks that themselves change the poller, compared with a reference model.")
L = ("libseat calls, calls from inside listeners, and a scripted server that answers them well or badly, in fragments, with interleaved events, silence, garbage, "
     "connection loss, interrupted and failing system calls.")
PLAN["C16"] = dict(runs=[("lib", 200000, 120, 420)], level="exploration", technique="stateful fuzzing of libseat against a scripted server with an event model", gen=L)
PLAN["C17"] = dict(runs=[("lib", 200000, 120, 420)], level="fault_enumeration", technique="stateful fuzzing of libseat against a hostile scripted server with fault injection", gen=L)
PLAN["C18"] = dict(runs=[("e2e", 40000, 150, 420), ("lib", 80000, 60, 120)], level="exploration", technique="stateful differential fuzzing of libseat against the real daemon",
    gen="several libseat applications and raw clients, user VT switches, dying applications and fragmented, short and interrupted I/O, interleaved with the real daemon; "
        "every result is compared with the reply the daemon sent. Also: libseat against a scripted server.")
PLAN["C19"] = dict(runs=[("select", 600000, 90, 300)], level="exploration", technique="model-based fuzzing of backend selection and logging",
    gen="sequences of setting LIBSEAT_BACKEND, opening seats with good and bad listeners while recording backends succeed or fail, forwarded calls, log levels, log handlers and messages, "
        "for all seven sets of compiled-in backends, compared with a reference model.", assumptions=["backends are recording stand-ins behind the internal backend interface"])
PLAN["C27"] = dict(runs=[("noop", 500000, 90, 300)], level="exploration", technique="differential fuzzing of the no-op backend against the kernel",
    gen="sequences of calls on up to three seats of the no-op backend with generated paths (files, links, fifos, directories, missing), timeouts and failing or interrupted system calls; "
        "opens are compared with the kernel's own result.", assumptions=["real files in a scratch directory"])
LG = ("libseat calls over the real sd-bus library, calls from inside listeners, and a scripted logind on the other end of the bus: state changes as values, as invalidated properties "
      "and among other properties, pauses of all kinds, unrelated and malformed signals, signals before replies and while waiting, error and malformed replies, lost connections, "
      "failing allocations, and an application that shares the bus.")
LA = ["sd-bus 255 stands for every sd-bus; the scripted logind filters signals by the installed matches as a bus does"]
PLAN["C20"] = dict(runs=[("logind", 120000, 120, 420)], level="exploration", technique="stateful model-based fuzzing of the logind backend", gen=LG, assumptions=LA)
PLAN["C21"] = dict(runs=[("logind", 120000, 120, 420)], level="exploration", technique="stateful model-based fuzzing of the logind backend with fault injection", gen=LG, assumptions=LA)
PLAN["C23"] = dict(runs=[("launch", 30000, 150, 420)], level="fault_enumeration", technique="model-based fuzzing of seatd-launch with real processes and fault injection",
    gen="command lines, user and group ids, behaviours of seatd (ready early or late, exits, crashes, cannot be run, dies later) and of the command (exit statuses, signals, stops), failing and interrupted calls.",
    assumptions=["seatd and the command are stand-ins run in the launcher's children in place of execve()"])
PLAN["C26"] = dict(runs=[("builtin", 16000, 150, 420)], level="exploration", technique="differential fuzzing of the builtin backend against a seatd daemon, two processes in lock step",
    gen="libseat calls, calls from inside listeners, user VT switches, failing devices and terminals, termination signals to the server and the death of the application, run with the embedded server and with "
        "a daemon of its own; failing allocations and system calls while the embedded server starts.")
NOTE = ("Search, not proof: the property held on every generated history; failures are shrunk to a replay file. Assumes the fake kernel (devices, VTs, file system, "
        "fault injection) behaves like Linux, and the reference model was written from the documented behaviour.")
NA = {}
