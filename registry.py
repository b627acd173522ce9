"""Which explorers decide which property."""

MODES = {
    # plain: fastest, assertions of the library and of libstdc++ enabled;
    # released memory is filled with garbage
    "plain": {"cflags": ["-O1", "-D_GLIBCXX_ASSERTIONS"], "ldflags": [],
              "engine": ["engine/poison.cpp"]},
    # asan: memory errors and undefined behaviour are failures
    "asan": {"cflags": ["-O1", "-fno-omit-frame-pointer",
                        "-fsanitize=address,undefined",
                        "-fno-sanitize-recover=all"],
             "ldflags": ["-fsanitize=address,undefined"]},
    # threads: instrumented like for ThreadSanitizer, but linked with the
    # controlled scheduler and race detector of engine/sched.cpp
    "threads": {"cflags": ["-O1", "-fsanitize=thread", "-Wno-tsan"],
                "ldflags": ["-ldl", "-lpthread"],
                "engine": ["engine/sched_api.cpp", "engine/sched.cpp"],
                "cflags_of": {"engine/sched.cpp": ["-O1"]}},
}

CHECKS = {}


def check(prop, *bins, **kw):
    CHECKS[prop] = dict(bins=list(bins), **kw)


def b(src, mode, *scenarios, **kw):
    return dict(src=src, mode=mode, scenarios=list(scenarios), **kw)


def named(part):
    """What is passed by name, by property."""
    return b("named.cpp", "plain", cflags=["-DPART=%d" % part])


check("C01", b("cursors.cpp", "plain",
               "values_small", "values_wide", "values_deep"), named(1))
check("C02", b("cursors.cpp", "plain",
               "calls_small", "calls_wide", "calls_deep"), named(2))
check("C03", b("cursors.cpp", "plain",
               "writes_small", "writes_wide", "writes_deep",
               "writes_chain"), named(3))
check("C05",
      b("handles.cpp", "plain",
        "readers2", "cursors2", "readers3", "states_as_handles"),
      b("handles.cpp", "asan",
        "readers2_mem", "cursors2_mem", "states_as_handles"))
check("C06", b("reentrant.cpp", "asan",
               "automatic1", "transactional1", "automatic2", "transactional2",
               "automatic3", "transactional3", "automatic_sequence",
               "transactional_sequence"))
check("C07",
      b("lifetime.cpp", "plain", "transactional", "automatic", "transactional_deep"),
      b("lifetime.cpp", "asan", "transactional_mem", "automatic_mem"))
check("C04",
      b("compose.cpp", "plain", "one_root", "segments", cflags=["-DPART=1"]),
      b("compose.cpp", "plain", "two_roots", cflags=["-DPART=2"]),
      b("compose.cpp", "plain", "subscript", cflags=["-DPART=3"]),
      named(4))
check("C13",
      b("futures.cpp", "plain",
        "two_promises", "three_promises", "with_empty", "two_loops"),
      b("futures.cpp", "asan", "two_promises_mem", "with_empty_mem"),
      b("future_threads.cpp", "threads"), named(8))
check("C14",
      b("queue_threads.cpp", "threads"),
      b("asio_threads.cpp", "threads"))
check("C15",
      b("loops.cpp", "plain"),
      b("loops.cpp", "asan", "manual_mem", "queue_mem", "safe_queue_mem", "asio_mem"),
      b("loops_qt.cpp", "plain", pkg=["Qt5Core", "Qt5Concurrent", "Qt5Quick"],
        cflags=["-fPIC"]),
      b("loops_sdl.cpp", "plain", pkg=["sdl2"]))

check("C08", b("transducers.cpp", "plain"))
check("C09", b("setters.cpp", "plain"), named(5))
STORE_SCENARIOS = {
    "C10": ["pure_automatic", "pure_transactional", "default_tag", "automatic",
            "transactional", "pairs", "exceptions_automatic",
            "exceptions_transactional"],
    "C11": ["default_tag", "automatic", "transactional", "deps",
            "deps_no_futures", "pairs", "exceptions"],
    "C12": ["default_tag", "automatic", "transactional", "deps", "pure",
            "no_futures"],
}
for _prop, _names in STORE_SCENARIOS.items():
    check(_prop,
          *[b("stores.cpp", "plain", *["%s_%s" % (_prop.lower(), n) for n in _names],
              cflags=["-DPART=%d" % part]) for part in (1, 2, 3)],
          *([b("contexts.cpp", "plain", "contexts", "effects_converted",
               "effects_sequenced", "results_converted"), named(7)]
            if _prop == "C11" else []),
          *([b("contexts.cpp", "plain", "contexts_futures", "effects_futures",
               "sequences_futures")] if _prop == "C12" else []),
          *([named(6)] if _prop == "C10" else []))
check("C16", b("deps.cpp", "plain"),
      b("deps.cpp", "plain", cflags=["-DMERGES"]), named(9))
check("C17", b("lens_reuse.cpp", "plain"), *[b("lenses.cpp", "plain", cflags=["-O0", "-g0", "-w", "-DPART=%d" % part])
               for part in (1, 2, 3, 4)])
check("C18", *[b("debugger.cpp", "plain", cflags=["-DPART=%d" % part])
               for part in (1, 2, 3, 4)])
check("C19", b("tree_debugger.cpp", "plain"))
check("C20", b("http.cpp", "plain"))
check("C21", *[b("serialization.cpp", "asan", cflags=["-O0", "-DPART=%d" % part])
               for part in (1, 2, 3, 4)])
check("C22", b("derive.cpp", "plain"))
check("C23", *[b("enhancers.cpp", "plain", cflags=["-DPART=%d" % part])
               for part in (1, 2, 3, 4)])
check("C24", b("qt_props.cpp", "plain", pkg=["Qt5Core", "Qt5Qml"],
               cflags=["-fPIC"], moc=["qt_props.hpp"]))
check("C25", b("match.cpp", "plain", cflags=["-O0"]))
