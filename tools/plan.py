"""What each check builds and how much it explores. n: cases; s: seconds of coverage-guided fuzzing; limit: a cap on
wall time for slow machines (reaching it ends the run early, it never decides anything)."""


def runs(asan, plain=None, tsan=None, fuzz=None, clang=None, **kw):
    """(quick, thorough) case counts per build"""
    r = []

    def add(build, c, key="n"):
        if not c:
            return
        cases = {}
        if c[0]:
            cases["quick"] = {key: c[0], "limit": 75}
        if c[1]:
            cases["thorough"] = {key: c[1], "limit": 500}
        r.append({"build": build, "cases": cases, **kw})

    add("asan", asan)
    add("plain", plain)
    add("tsan", tsan)
    add("clang", clang)
    add("fuzz", fuzz, "s")
    return r


WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=free"]

# what a platform does whose <pthread.h> defines this: the library's locks are on
LOCKED = ["-DPTHREAD_MUTEX_DEFAULT=PTHREAD_MUTEX_DEFAULT"]

# clang lets references to aligned parts of packed structures stand as they are
PACKED = ["-fno-sanitize=alignment"]

PLAN = {
    "C01": {"src": "c01_heap.cpp", "runs": runs((120000, 3000000), (100000, 3000000), fuzz=(0, 120))},
    "C02": {"src": "c02_heap.cpp", "runs": runs((150000, 3000000), (150000, 3000000), fuzz=(0, 120))},
    "C03": {"src": "c03_heap.cpp", "runs": runs((120000, 3000000), (100000, 3000000), fuzz=(0, 120))},
    "C04": {"src": "c04_heap_free.cpp", "runs": runs((120000, 3000000), (100000, 3000000), fuzz=(0, 120))},
    "C05": {"src": "c05_containers.cpp", "runs": runs((60000, 1500000), (100000, 3000000), fuzz=(0, 120))},
    "C06": {"src": "c06_lru.cpp", "runs": runs((150000, 4000000), (150000, 4000000), clang=(0, 1000000), fuzz=(0, 90))
            + runs(None, (40000, 1000000), flags=LOCKED)},
    "C07": {"src": "c07_lru_expiry.cpp", "runs": runs((150000, 4000000), (150000, 4000000), fuzz=(0, 90))
            + runs(None, (40000, 1000000), flags=LOCKED)},
    "C08": {"src": "c08_observer.cpp", "runs": runs((250000, 6000000), (250000, 6000000), fuzz=(0, 90))
            + runs(None, (80000, 2000000), flags=LOCKED)},
    "C09": {"src": "c09_recursion.cpp", "runs": runs((250000, 6000000), (250000, 6000000), fuzz=(0, 90))},
    "C10": {"src": "c10_disconnect.cpp", "runs": runs((250000, 6000000), (250000, 6000000), fuzz=(0, 90))
            + runs(None, (80000, 2000000), flags=LOCKED)},
    "C11": {"src": "c11_static_observer.cpp", "runs": runs((250000, 6000000), (250000, 6000000), fuzz=(0, 60))},
    "C12": {"src": "c12_value.cpp", "runs": runs((150000, 6000000), (150000, 6000000), fuzz=(0, 90))},
    "C13": {"src": "c13_value_registry.cpp", "runs": runs((250000, 6000000), (250000, 6000000), fuzz=(0, 90))},
    "C14": {"src": "c14_value_threads.cpp", "runs": runs(None, (5000, 150000), tsan=(3000, 80000), jobs=2, batch=50)},
    "C15": {"src": "c15_mediator.cpp", "runs": runs((100000, 3000000), (100000, 3000000), fuzz=(0, 90))},
    "C16": {"src": "c16_membership.cpp", "runs": runs((60000, 1500000), (60000, 1500000), fuzz=(0, 90))},
    "C17": {"src": "c17_stage.cpp", "runs": runs(None, (700, 30000), tsan=(2000, 100000), batch=50)
            + runs(None, (300, 10000), tsan=(500, 30000), batch=50, flags=["-DDEBUG"])},
    "C18": {"src": "c18_pool.cpp", "runs": runs(None, (500, 15000), tsan=(1000, 30000), jobs=3, batch=50, hang=45)
            + runs(None, (200, 5000), tsan=(300, 10000), jobs=3, batch=50, hang=45, flags=["-DDEBUG"])},
    "C19": {"src": "c19_telemetry.cpp", "runs": runs((1500, 60000), (5000, 200000), batch=50)
            + runs(None, (1000, 40000), batch=50, flags=["-DDEBUG"])},
    "C20": {"src": "c20_argv.cpp", "runs": runs((400000, 8000000), (400000, 8000000), fuzz=(0, 90))},
    "C21": {"src": "c21_byte_order.cpp", "runs": runs((600000, 10000000), (1500000, 30000000), clang=(0, 3000000))},
    "C22": {"src": "c22_raw_data.cpp", "runs": runs((600000, 10000000), (1500000, 30000000), clang=(0, 3000000))},
    "C23": {"src": "c23_packet.cpp", "runs": runs((150000, 3000000), (500000, 15000000))
            + runs(None, clang=(0, 2000000), fuzz=(0, 60), flags=PACKED)},
    "C24": {"src": "c24_accessor.cpp", "runs": runs((150000, 3000000), (500000, 15000000))
            + runs(None, clang=(0, 2000000), fuzz=(0, 60), flags=PACKED)},
    "C25": {"src": "c25_accessor_hostile.cpp", "runs": runs((200000, 4000000), (600000, 15000000))
            + runs(None, clang=(0, 2000000), fuzz=(0, 60), flags=PACKED)},
    "C26": {"src": "c26_fast_pimpl.cpp", "runs": runs((200000, 5000000), (400000, 10000000), clang=(0, 2000000), fuzz=(0, 60))},
    "C27": {"src": "c27_interval.cpp", "runs": runs((60000, 2000000), (100000, 4000000), tsan=(10000, 200000), batch=100)},
    "C28": {"src": "c28_stop.cpp", "runs": runs((20000, 500000), (20000, 500000), tsan=(15000, 300000), batch=100)},
    "C29": {"src": "c29_locked.cpp", "runs": runs((0, 20000), (1500, 40000), tsan=(800, 20000), jobs=3, batch=50)},
    "C30": {"src": "c30_misuse.cpp", "runs": runs(None, (250, 5000), batch=16, hang=120)},
    "C31": {"src": "c31_raw_messages.cpp", "runs": runs((150000, 4000000), (150000, 4000000), fuzz=(0, 90))},
    "C32": {"src": "c32_no_dynamic.cpp",
            "runs": runs((60000, 1500000), (60000, 1500000), flags=WRAP)
            + runs((30000, 800000), (30000, 800000), flags=[*WRAP, "-DSTATIC_LIST"])},
    "C33": {"src": "c33_release.cpp",
            "runs": runs((60000, 2000000), (60000, 2000000))
            + runs((6000, 150000), (10000, 300000), flags=["-DTHREADS"], batch=50)
            + runs((20000, 500000), flags=LOCKED)},
    "C34": {"src": "c34_faults.cpp", "runs": runs((60000, 1500000), (80000, 2000000), batch=50)
            + runs((20000, 500000), flags=LOCKED, batch=50)},
    "C35": {"src": "c35_headers.cpp", "runs": runs(None, (40, 1500), batch=1, hang=240)},
    "C36": {"src": "c36_dirty.cpp", "runs": runs((40000, 1000000), (60000, 1500000), flags=["-fno-lifetime-dse"], batch=50)
            + runs(None, (20000, 500000), clang=(0, 500000))},
}
