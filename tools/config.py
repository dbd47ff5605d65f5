"""What each check runs: per property a list of (variant, share of the runs, start seed offset)."""
# quick: (variant, runs); the thorough tier runs the same variants, and those under "more", by time.
SCHED = "sched-native"
C = {
    # property: quick campaigns, further variants of the thorough tier
    "C01": dict(quick=[("sched-native", 9000), ("sched-sse", 3000), ("sched-blas", 3000), ("sched-avx2", 2000)], more=["asan-native"]),
    "C02": dict(quick=[("sched-native", 20000), ("sched-sse", 8000), ("sched-blas", 8000), ("sched-avx2", 5000), ("plain-native", 2000)], more=["asan-native", "asan-sse"]),
    "C03": dict(quick=[("sched-native", 14000), ("sched-sse", 6000), ("sched-blas", 4000), ("sched-avx2", 2500), ("plain-native", 1000)], more=["asan-native"]),
    "C04": dict(quick=[("sched-native", 16000), ("sched-sse", 7000), ("sched-avx2", 4000), ("sched-blas", 4000), ("asan-native", 2000)], more=["plain-native"]),
    "C05": dict(quick=[("sched-native", 18000), ("sched-sse", 4000), ("sched-blas", 3000), ("asan-native", 3000)], more=["plain-native"]),
    "C06": dict(quick=[("sched-native", 16000), ("sched-sse", 8000), ("sched-avx2", 5000), ("sched-blas", 4000), ("plain-native", 3000)], more=["asan-native", "plain-avx2"]),
    "C07": dict(quick=[("sched-native", 16000), ("sched-sse", 8000), ("sched-avx2", 5000), ("sched-blas", 4000), ("plain-native", 3000)], more=["asan-native", "plain-avx2"]),
    "C08": dict(quick=[("sched-native", 20000), ("sched-sse", 6000), ("sched-blas", 4000), ("asan-native", 3000)], more=["sched-avx2"]),
    "C09": dict(quick=[("sched-native", 36000), ("asan-native", 10000)], more=["asan-sse", "plain-native"]),
    "C10": dict(quick=[("sched-native", 24000), ("asan-native", 8000)], more=["asan-sse", "plain-native"]),
    "C11": dict(quick=[("sched-native", 36000), ("asan-native", 16000)], more=["asan-sse", "plain-native"]),
    "C12": dict(quick=[("sched-native", 45000), ("asan-native", 15000)], more=["asan-sse", "plain-native"]),
    "C13": dict(quick=[("sched-native", 24000), ("asan-native", 9000), ("sched-blas", 3000)], more=["asan-sse", "sched-sse", "plain-native"]),
    "C14": dict(quick=[("sched-native", 36000), ("asan-native", 6000)], more=["asan-sse", "plain-native"]),
    "C15": dict(quick=[("sched-native", 50000), ("asan-native", 5000)], more=["plain-native"]),
    "C16": dict(quick=[("sched-native", 40000), ("asan-native", 8000)], more=["asan-sse", "plain-native"]),
    "C17": dict(quick=[("sched-native", 24000), ("asan-native", 8000), ("sched-blas", 3000)], more=["asan-sse", "plain-native"]),
    "C18": dict(quick=[("sched-native", 28000), ("asan-native", 8000), ("sched-blas", 3000)], more=["asan-sse", "plain-native"]),
    "C19": dict(quick=[("sched-native", 14000), ("sched-sse", 5000), ("sched-blas", 4000), ("sched-avx2", 3000), ("asan-native", 2000)], more=["plain-native"]),
    "C20": dict(quick=[("sched-native", 40000), ("plain-native", 15000)], more=["asan-native", "sched-sse"]),
    "C21": dict(quick=[("sched-native", 40000), ("sched-sse", 20000), ("sched-avx2", 15000), ("asan-native", 12000), ("sched-blas", 10000), ("plain-native", 5000)], more=["asan-sse", "plain-avx2"]),
    "C25": dict(quick=[("sched-native", 24000), ("asan-native", 8000), ("sched-sse", 5000), ("sched-blas", 3000)], more=["sched-avx2", "asan-sse", "plain-native"]),
    "C24": dict(quick=[("sched-native", 40000), ("asan-native", 10000)], more=["plain-native"]),
}
QUICK_CAP_S = 420          # time limit of all campaigns of a quick check
THOROUGH_S = 1800          # time of all campaigns of a thorough check (SIMNN_TIME overrides)
TRUST = {
    "sched": "OpenMP runtime, thread scheduler, allocator, file system, clock, rand(), dynamic loader and terminal are the simulator's; a step of the scheduler is a memory access, an allocation or a system call, so orders weaker than sequential consistency are found as data races, not executed",
    "asan": "real AddressSanitizer checks in addition to the simulated arena's own bounds checks; the library runs without preemption inside computation",
    "plain": "the library's own optimisation level (-O3); no preemption inside computation",
}
