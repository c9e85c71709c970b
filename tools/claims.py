T = "deterministic simulation: seeded search over schedules%s"
BASE = "Sampled search (one seed = one exactly repeatable execution of the real code under a simulated OpenMP/pthread runtime, heap, clock and file system). Absence of a violation is evidence for the explored seeds only; interleavings are sequentially consistent at the granularity of single memory accesses."
CLAIMED = {
 "C04": (T % " (two schedules and thread counts per run)", BASE), "C05": (T % " and operation histories", BASE), "C06": (T % ", heap contents and placements", BASE),
 "C07": (T % " with injected smaller teams", BASE), "C08": (T % " of concurrent callers", BASE), "C20": (T % " with injected allocation failures", BASE),
 "C12": (T % " with injected smaller teams", BASE), "C13": (T % " with injected smaller teams", BASE),
 "C18": (T % " with spurious wake-ups", BASE), "C19": (T % " and write faults", BASE),
 "C22": (T % " with spurious wake-ups, linearizability checking of the recorded histories", BASE),
 "C23": (T % ", heap contents and write, open, close and allocation faults (single-threaded programs: the search is over configurations, heap contents and faults)", BASE),
 "C31": (T % " of threads drawing from distinct streams, over histories of stream operations and injected allocation failures", BASE),
 "C21": (T % " and conversion histories", BASE),
 "C14": (T % " and read faults", BASE),
 "C09": (T % " with injected smaller teams", BASE),
 "C15": (T % " and graphs", BASE), "C16": (T % " and graphs", BASE), "C17": (T % " and graphs", BASE),
 "C01": (T % "", BASE), "C02": (T % "", BASE), "C03": (T % "", BASE), "C10": (T % "", BASE), "C11": (T % "", BASE),
}
NA = {
 "C30": "pure sequential functions: no schedule, clock, I/O, fault or second party for the result to depend on; deterministic simulation has nothing to control",
}
NOTES = "check.py builds the harness from /repo's working tree, searches seeds in parallel child processes and minimises the first violation; --replay FILE re-executes it exactly. See DESIGN.md."
