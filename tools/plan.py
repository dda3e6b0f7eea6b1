"""How each property is searched: harness, (runs, seconds at most) per tier."""

QUICK = 70.0
DEEP = 600.0


def entry(harness, quick, note, thorough=None, **kw):
    return dict(harness=harness, quick=(quick, QUICK), thorough=(thorough or quick * 15, DEEP), note=note, **kw)


AUTH = ("Seeded exploration: one process per run holds several simulated client processes over one token file, a "
        "simulated authorization server, user and network, and a simulated clock. Trusts the simulator, the HTTP stub "
        "and the server model; process crashes keep what the kernel had accepted (no power loss).")
VIEW = ("Seeded exploration: the real view singleton, view client and authentication client with several viewing "
        "threads in one process per run, against simulated authorization and view servers, network and clock. Trusts "
        "the simulator, the HTTP stub and the server models. Sampled schedules and faults, not all of them.")

LIB = ("Seeded exploration of the real library code in one process per run, under a seeded thread scheduler with "
       "happens-before race detection and a checked heap. Trusts the simulator and the harness's reference models. "
       "Sampled schedules, histories and faults, not all of them.")

PLAN = {
    "C01": entry("auth", 70000, AUTH),
    "C02": entry("auth", 70000, AUTH),
    "C03": entry("auth", 70000, AUTH + " Threads are not stalled between reading the clock and acting on it."),
    "C04": entry("auth", 70000, AUTH + " Network healthy, threads not stalled."),
    "C05": entry("auth", 70000, AUTH),
    "C06": entry("view", 50000, VIEW),
    "C07": entry("view", 50000, VIEW),
    "C08": entry("view", 50000, VIEW),
    "C09": entry("view", 50000, VIEW),
    "C10": entry("view", 50000, VIEW),
    "C11": entry("view", 50000, VIEW),
    "C12": entry("view", 50000, VIEW),
    "C13": entry("view", 35000, VIEW + " Races are judged by happens-before over all instrumented repository code."),
    "C14": entry("lib", 60000, LIB + " Random-source faults are those the C library's callers can meet: short reads, "
                 "temporary unavailability, fall-back to the device file; the source itself stays random."),
    "C15": entry("lib", 240000, LIB + " Allocation faults at any allocation of an insertion."),
    "C16": entry("lib", 45000, LIB + " Allocation faults at any allocation of an append."),
    "C17": entry("lib", 45000, LIB),
    "C18": entry("lib", 100000, LIB + " Damage is injected on the wire bytes and on the message tree."),
    "C19": entry("lib", 22000, LIB),
}

PURE = ("pure function of its arguments: no concurrency, time, I/O, randomness source, failure or second party for a "
        "schedule or fault sequence to vary, so deterministic simulation has nothing to decide; ")
NOT_APPLICABLE = {
    "C20": PURE + "it needs an input-space technique (proof, property-based testing) instead",
    "C21": PURE + "whether queries stay right under concurrent readers and failed appends is C16, C17 and C19",
    "C22": PURE + "whether queries stay right under concurrent readers and failed appends is C16, C17 and C19",
    "C23": PURE + "the refusals that matter to a history of appends are in C16",
    "C24": PURE + "bit-for-bit agreement between concurrent readers is C17",
    "C25": PURE + "what survives a simulated network and damaged messages is C11 and C18",
    "C26": PURE + "it needs an input-space technique instead",
    "C27": PURE + "it needs an input-space technique instead",
    "C28": PURE + "concurrent readers of a status are in C17",
    "C29": "statement about a distribution over inputs, not about schedules or faults: given its seed the generator is a "
           "pure function; that the sequence depends on nothing else is C19",
}
