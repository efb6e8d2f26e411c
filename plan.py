"""What each check runs: builds of the harness and, per property, jobs (mode, number of cases per worker)."""

BUILDS = {
    # optimised, with debug assertions and overflow checks of the library on
    "rel": {"args": ["--release"], "out": "release/liqpbt"},
    # without threads
    "nothr": {"args": ["--release", "--no-default-features"], "out": "release/liqpbt"},
    # without threads, counting/failing allocator
    "alloc": {"args": ["--release", "--no-default-features", "--features", "alloc"], "out": "release/liqpbt"},
    "alloct": {"args": ["--release", "--features", "alloc"], "out": "release/liqpbt"},
    "large": {"args": ["--release", "--features", "large"], "out": "release/liqpbt"},
    # the C API is called through a shim compiled against libimagequant.h
    "hdr": {"args": ["--release", "--features", "header"], "out": "release/liqpbt"},
    # unoptimised: references to NULL are not exploited by the optimiser
    "dev": {"args": [], "out": "debug/liqpbt"},
    "asan": {"toolchain": "+nightly", "args": ["--release", "--target", "x86_64-unknown-linux-gnu"], "out": "x86_64-unknown-linux-gnu/release/liqpbt",
             "env": {"RUSTFLAGS": "-Zsanitizer=address"}, "run_env": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1"}, "crash_rc": 77},
    # std is rebuilt with the instrumentation; parameters are not checked at call boundaries (C enums as integers)
    "msan": {"toolchain": "+nightly", "args": ["--release", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"], "out": "x86_64-unknown-linux-gnu/release/liqpbt",
             "env": {"RUSTFLAGS": "-Zsanitizer=memory -Cllvm-args=-msan-eager-checks=0"}, "run_env": {"MSAN_OPTIONS": "exitcode=77"}, "crash_rc": 77},
}

LEVEL = {"C18": "fault_enumeration"}
ASSUME = {"*": ["x86-64 with SSE; the harness builds the library from /repo's working tree with debug assertions and overflow checks on",
                "exploration finds violations within the generated space; it does not prove their absence"]}


def J(build="rel", mode="", q=1000, t=None, **k):
    d = {"build": build, "mode": mode, "quick": q, "thorough": t or q * 20}
    d.update(k)
    return d


PLAN = {
    "C01": [J(q=16000), J(mode="long", q=25, t=300), J(mode="tall", q=40, t=400), J(mode="mt", q=1500, threads=4, workers=4), J(mode="big", q=2, t=20, weight=9, workers=8)],
    "C02": [J(q=20000), J(mode="long", q=30, t=300), J(mode="mt", q=1500, threads=4, workers=4), J(mode="big", q=2, t=20, weight=9)],
    "C03": [J(q=20000), J(mode="long", q=30, t=300), J(mode="mt", q=1500, threads=4, workers=4), J(mode="big", q=2, t=20, weight=9), J(mode="huge", q=1, t=2, weight=10, threads=8, workers=1)],
    "C04": [J(q=10000), J(mode="coarse", q=4000), J(mode="mt", q=1200, threads=4, workers=4), J(mode="big", q=1, t=20, weight=9)],
    "C05": [J(q=16000), J(mode="crowd", q=25, t=400), J(mode="mt", q=1500, threads=4, workers=4)],
    "C06": [J(q=14000), J(mode="mt", q=1500, threads=4, workers=4)],
    "C07": [J(q=30000), J(mode="crowd", q=25, t=400), J(mode="mt", q=1500, threads=4, workers=4)],
    "C08": [J(q=20000), J(mode="crowd", q=25, t=400), J(mode="mt", q=1500, threads=4, workers=4)],
    "C09": [J(q=30000), J(mode="long", q=30, t=300), J(mode="mt", q=1500, threads=4, workers=4)],
    "C10": [J(q=16000), J(mode="long", q=30, t=300), J(mode="mt", q=1500, threads=4, workers=4), J(mode="big", q=2, t=20, weight=9)],
    "C11": [J(q=12000), J(mode="long", q=20, t=200), J(mode="big", q=1, t=10, weight=9)],
    "C12": [J(q=16000), J(mode="long", q=40, t=400), J(mode="mt", q=1500, threads=4, workers=4)],
    "C13": [J(q=8000)],
    "C14": [J(q=6000), J(mode="mt", q=200, threads=4, workers=4)],
    "C15": [J(q=1500), J(mode="peer1", q=3000, peer="nothr"), J(mode="peer4", q=1500, peer="rel", peer_threads=4, workers=4), J(mode="mt", q=500, threads=4, workers=4)],
    "C16": [J(build="alloc", q=60000), J(build="asan", mode="asan", q=8000)],
    "C17": [J(build="hdr", q=20000), J(build="hdr", mode="long", q=150, t=3000), J(build="hdr", mode="bad", q=8000), J(build="dev", mode="badnull", q=2500)],
    "C18": [J(build="alloc", q=500), J(build="alloct", mode="mt", q=300, threads=3), J(build="alloc", mode="big", q=1, t=3, weight=9, workers=4)],
    "C19": [J(q=7000), J(mode="mt", q=2000, threads=4, workers=4), J(build="asan", mode="asan", q=2500), J(build="msan", mode="msan", q=2000)],
    "C20": [J(q=60000), J(mode="mt", q=1500, threads=4, workers=4)],
    "C21": [J(q=10000), J(mode="big", q=5, t=60, weight=9), J(mode="mt", q=1500, threads=4, workers=4)],
    "C22": [J(build="large", q=2500), J(build="large", mode="same", q=5000, peer="rel")],
    "C23": [J(q=10000)],
    "C24": [J(q=300), J(mode="more", q=4000), J(mode="groups", q=12000), J(mode="kinds", q=100), J(mode="mt", q=40, threads=4, workers=4)],
    "C25": [J(q=2500, java=True), J(mode="gc", q=3, t=60, java=True, weight=2)],
}
