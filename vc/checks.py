"""The tasks of each check: (scenario, build variant, number of generated cases in the quick tier)."""
ASSUMPTIONS = [
    "The library's code is executed under interleavings of its individual loads, stores and atomics, sequentially consistent or (part of the cases) with x86-TSO store buffers, as compiled by clang -O1 and, for the variants gcclto and optimized, as ordered by gcc -Ofast -flto and clang -O3.",
    "libc, libnuma and the kernel are replaced by the simulator's own implementations (memory, topology, affinity, thread creation).",
]
K = 1000
CHECKS = {
    "C01": dict(tasks=[("lin_ccdsm", "default", 2400 * K), ("wide_ccdsm", "default", 60 * K), ("lin_ccdsm", "gcclto", 600 * K), ("lin_ccdsm", "asis", 300 * K)]),
    "C02": dict(tasks=[("lin_hsynch", "default", 2000 * K), ("wide_hsynch", "default", 60 * K), ("lin_hsynch", "gcclto", 500 * K), ("lin_hsynch", "asis", 250 * K)]),
    "C03": dict(tasks=[("lin_osci", "default", 2000 * K), ("wide_osci", "default", 60 * K), ("lin_osci", "gcclto", 500 * K), ("lin_osci", "asis", 250 * K)]),
    "C04": dict(tasks=[("lin_fcoyama", "default", 2400 * K), ("wide_fcoyama", "default", 60 * K), ("lin_fcoyama", "gcclto", 600 * K), ("lin_fcoyama", "asis", 300 * K)]),
    "C05": dict(tasks=[("lin_simlfu", "default", 2400 * K), ("wide_simlfu", "default", 100 * K), ("lin_simlfu", "gcclto", 600 * K), ("nap_comb", "default", 12 * K), ("lin_simlfu", "asis", 400 * K)]),
    "C06": dict(tasks=[("lin_combqueue", "default", 1600 * K), ("lin_combqueue", "gcclto", 400 * K), ("lin_combqueue", "asis", 200 * K)]),
    "C07": dict(tasks=[("lin_nbqueue", "default", 200 * K), ("lin_lcrq", "smallring", 800 * K), ("lin_lcrq", "smallring3", 400 * K), ("wide_nbqueue", "default", 60 * K), ("lin_nbqueue", "gcclto", 60 * K), ("nap_queue", "default", 12 * K), ("lin_msimq", "default", 2000 * K), ("lin_msimq", "asis", 300 * K), ("lin_lcrq", "asis", 20 * K)]),
    "C08": dict(tasks=[("lin_combstack", "default", 1600 * K), ("lin_combstack", "gcclto", 400 * K), ("lin_combstack", "asis", 200 * K)]),
    "C09": dict(tasks=[("lin_nbstack", "default", 1600 * K), ("wide_nbstack", "default", 60 * K), ("lin_nbstack", "gcclto", 400 * K), ("nap_stack", "default", 40 * K), ("lin_nbstack", "asis", 400 * K)]),
    "C10": dict(tasks=[("locks", "default", 1000 * K), ("locks", "gcclto", 300 * K), ("locks", "asis", 150 * K)]),
    "C11": dict(tasks=[("lin_hash", "default", 1600 * K), ("lin_hash", "gcclto", 400 * K), ("lin_hash", "asis", 200 * K)]),
    "C12": dict(tasks=[("terminate", "default", 800 * K), ("terminate", "gcclto", 200 * K), ("locks_end", "default", 400 * K), ("locks_end", "gcclto", 100 * K), ("barrier_end", "default", 300 * K), ("terminate", "asis", 60 * K)]),
    "C13": dict(tasks=[("bounded", "default", 400 * K)]),
    "C14": dict(tasks=[("waitfree", "default", 400 * K), ("waitfree", "gcclto", 100 * K), ("waitfree", "asis", 40 * K)]),
    "C15": dict(tasks=[("lockfree", "default", 300 * K), ("lockfree", "smallring", 300 * K), ("lockfree", "smallring3", 300 * K), ("lockfree", "gcclto", 60 * K), ("lockfree", "asis", 60 * K)]),
    "C16": dict(tasks=[("values", "default", 500 * K), ("values", "nocompact", 150 * K), ("values", "nonuma", 150 * K), ("values", "smallring", 150 * K), ("values", "smallring3", 150 * K), ("values", "gcclto", 100 * K)]),
    "C17": dict(tasks=[("barrier", "default", 1000 * K), ("barrier", "asis", 150 * K)]),
    "C18": dict(tasks=[("rounds", "default", 1000 * K), ("rounds", "asis", 100 * K)]),
    "C19": dict(tasks=[("fibers", "default", 2400 * K), ("fibers", "nonuma", 1200 * K)]),
    "C20": dict(tasks=[("placement", "default", 1200 * K), ("placement", "nonuma", 600 * K)]),
    "C21": dict(tasks=[("pool", "default", 1600 * K), ("pool", "norecycle", 800 * K)]),
    "C22": dict(tasks=[("memory", "default", 2400 * K), ("memory", "nonuma", 2400 * K)]),
    "C23": dict(tasks=[("memsafe", "default", 400 * K), ("memsafe", "nonuma", 400 * K), ("memsafe", "nocompact", 200 * K), ("memsafe", "smallring", 100 * K),
                       ("memtwin", "default", 200 * K), ("memtwin", "nonuma", 200 * K), ("memtwin", "debug", 100 * K), ("memsafe", "gcclto", 100 * K)]),
    "C24": dict(tasks=[("reclaim", "default", 600 * K), ("reclaim", "nonuma", 200 * K), ("reclaim_long", "default", 48), ("reclaim", "gcclto", 150 * K)]),
    "C25": dict(tasks=[("instances", "default", 900 * K), ("instances", "smallring", 200 * K), ("instances", "nonuma", 200 * K), ("instances", "gcclto", 100 * K), ("in_turn", "default", 400 * K), ("in_turn", "nonuma", 100 * K)]),
    "C26": dict(tasks=[("prims_seq", "default", 1200 * K), ("prims_conc", "default", 1600 * K), ("prims_seq", "emulate", 1200 * K),
                       ("prims_conc", "emulate", 1600 * K), ("nat_prims", "native", 8000 * K), ("nat_prims", "native-clang", 2000 * K), ("prims_seq", "debug", 400 * K), ("prims_conc", "debug", 400 * K)]),
    "C27": dict(tasks=[("fastrand", "default", 1200 * K), ("fastrand_spread", "default", 80 * K)]),
    "C28": dict(tasks=[("backoff", "default", 1200 * K), ("backoff", "nobackoff", 600 * K)]),
    "C29": dict(tasks=[("tvec_model", "default", 900 * K), ("tvec_toggle", "default", 900 * K), ("tvec_model", "nonuma", 300 * K),
                       ("tvec_toggle", "emulate", 900 * K)]),
    "C30": dict(tasks=[("args", "default", 2400 * K)]),
    "C31": dict(tasks=[("stats", "debug", 600 * K), ("counters", "debug", 1000 * K), ("clock", "default", 200 * K)]),
    "C32": dict(tasks=[("lin_any", "nonuma", 250 * K), ("terminate", "nonuma", 60 * K), ("lin_any", "nocompact", 250 * K), ("terminate", "nocompact", 60 * K), ("lin_any", "norecycle", 250 * K), ("terminate", "norecycle", 60 * K), ("lin_any", "nobackoff", 250 * K), ("terminate", "nobackoff", 60 * K), ("lin_any", "emulate", 250 * K), ("terminate", "emulate", 60 * K), ("lin_any", "debug", 250 * K), ("terminate", "debug", 60 * K), ("lin_lcrq", "smallring", 100 * K), ("waitfree", "nobackoff", 50 * K), ("waitfree", "nonuma", 50 * K), ("waitfree", "debug", 50 * K), ("lin_any", "gcclto", 250 * K), ("terminate", "gcclto", 60 * K), ("lin_any", "gcclto-nonuma", 150 * K), ("terminate", "gcclto-nonuma", 40 * K), ("lin_any", "optimized", 250 * K), ("terminate", "optimized", 60 * K)]),
}
NOT_APPLICABLE = {}
