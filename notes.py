HOOKS = ["f7d63ca5fc5e9b82e87e76090ff782ef9ce61e9b", "56b0fd682ab6084a33cbd3bac4e1415bea372b0f"]
WEAK = "Searched, not proved: seeded runs over sampled configurations (2-5 threads, small buffers). Every atomic access of the real code is a scheduling point and is executed under a vector-clock model of the Rust memory model that lets relaxed and stale reads happen; trusted: that model, and the seam (crate::sim_std) standing for std::sync::atomic."
RUN = "Searched, not proved: seeded runs of the real library, its worker threads, printing and panics, under a simulator that decides every thread switch, clock reading, sleep, futex and output write below libc. Trusted: the interposed libc calls stand for the real ones; user functions are recording stubs with scripted time, memory and panics. "
NOTES = {
 "C01": WEAK + " Oracle: exact multiset, order and visibility of what each consumer got.",
 "C02": WEAK + " Oracle: exact lap accounting, including publications in progress.",
 "C03": WEAK + " Oracle: exact window of pending elements at some point of the call.",
 "C04": WEAK + " Termination is judged as progress within a bounded number of fair steps.",
 "C05": WEAK + " Oracle: exact recount of all requests over windows without requests in progress.",
 "C06": WEAK + " Oracle: bounds forced by, and amounts reachable under, the orders of the requests that overlapped.",
 "C07": WEAK + " Oracle: as C06, for each of many open save points.",
 "C08": WEAK + " Oracle: a recording system allocator compared one to one with the requests.",
 "C09": RUN + "Oracle: the exact set of calls per pass and thread.",
 "C10": RUN + "Oracle: the documented sequence of phases.",
 "C11": RUN + "Oracle: the scripted fate of every attempt.",
 "C12": RUN + "Oracle: the scripted fate of every attempt, and the simulated clock.",
 "C13": RUN + "Oracle: the documented sequence of steps, identity and drop count of every data value.",
 "C14": RUN + "Oracle: the scripted fate of every attempt, the simulated clock, and another task of the same runtime. Polls migrate between simulated threads; the timers are those of a tokio current_thread runtime.",
 "C19": RUN + "Oracle: no step after the drop, drop count of every data value, a later test judged as in C13 and C14. Polls migrate between simulated threads; the timers are those of a tokio current_thread runtime.",
 "C15": RUN + "Oracle: the exact bytes every pass holds at a time, compared with the measured peaks, the classes and the verdicts, for both tolerances. Set sizes of at least 16.",
 "C16": RUN + "Oracle: the simulated clock: the exact time every pass takes, compared with the measured times, the classes and the verdicts, for both tolerances. Set sizes of at least 16.",
 "C17": RUN + "Oracle: what arrived on the simulated stream, the returned report, the failed attempts of the script, and the same test on a faultless stream. Builds reporting to stdout, to stderr and not at all.",
 "C18": RUN + "Oracle: the scripted panics and refusals, and a healthy analysis executed before and afterwards.",
 "C20": RUN + "Oracle: every analysis' own script, as if it ran alone. 2 or 3 analyses at a time; memory claim judged while the others only add memory.",
 "C23": RUN + "Oracle: the scripted time and memory of every step, kept exactly by the harness; operations on several threads only retain or only free memory.",
}
NA = {
 "C21": "pure function of its four numeric arguments: no schedule, clock, I/O, fault or second party in it, so simulation has nothing to decide",
 "C22": "pure formatting of a value that no shipped entry point produces yet: no schedule, clock, I/O, fault or second party in it",
}
