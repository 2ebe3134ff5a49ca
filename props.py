"""What each check builds and how many simulated runs each tier makes."""

GCC = ["g++", "-std=c++20", "-fpermissive"]
CLANG = ["clang++-18", "-std=c++20"]
import shutil as _sh
if not _sh.which("clang++-18"):
    CLANG = ["clang++", "-std=c++20"]


def single(src, comp, flags):
    def steps(sim, repo, d, exe):
        return [{"stage": 1, "cmd": comp + flags + ["-w", "-I", sim, "-I", repo + "/include", sim + "/" + src, "-o", exe]}]
    return steps


def two(src, extra=[]):
    return [
        {"name": "gcc-O2", "steps": single(src, GCC, ["-O2"] + extra)},
        {"name": "clang-O1", "steps": single(src, CLANG, ["-O1"] + extra)},
    ]


def cluster(sim, repo, d, exe):
    """One shared object per replica build, and the host that simulates the cluster."""
    so = ["-w", "-DNODE_FORMAT", "-I", sim, "-I", repo + "/include", "-fPIC", "-shared", "-fvisibility=hidden", sim + "/node.cpp"]
    nodes = [("gcc-O0", GCC, ["-O0"]), ("gcc-O2", GCC, ["-O2"]), ("gcc-uchar", GCC, ["-O3", "-funsigned-char", "-DNDEBUG"]),
             ("clang-O2", CLANG, ["-O2", "-DNDEBUG"]), ("clang-O0", CLANG, ["-O0"]), ("gcc-avx2", GCC, ["-O3", "-march=haswell"]),
             ("clang-avx2", CLANG, ["-O3", "-march=haswell"]), ("gcc-avx512", GCC, ["-O2", "-march=skylake-avx512"])]
    r = []
    for name, comp, fl in nodes:
        r.append({"stage": 1, "part": name, "cmd": comp + fl + (["-fno-gnu-unique"] if comp is GCC else []) + so + ["-o", d + "/node-" + name + ".so"]})
    r.append({"stage": 1, "cmd": GCC + ["-O1", "-w", "-I", sim, "-I", repo + "/include", sim + "/h_cluster.cpp", "-o", exe, "-rdynamic", "-fno-builtin", "-ldl"]})
    return r


def cpu_flags():
    try:
        for ln in open("/proc/cpuinfo"):
            if ln.startswith("flags"):
                return set(ln.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


def threads(comp, march):
    """The instrumented workload (a shared object beside the executable) and the thread simulator that runs it."""
    need = {"avx2": ["avx2"], "skylake-avx512": ["avx2", "fma", "avx512f", "avx512dq", "avx512vl", "avx512bw", "avx512cd"]}
    if not set(need[march]) <= cpu_flags():
        march = "avx2" if "avx2" in cpu_flags() else ""
    arch = [] if not march else ["-mavx2"] if march == "avx2" else ["-march=" + march]
    wrap = ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "bcmp", "memchr", "strlen", "strcpy", "snprintf",
                                         "__snprintf_chk", "sprintf", "__sprintf_chk", "vsnprintf",
                                         "strncpy", "strcat", "stpcpy", "strcmp", "strncmp", "strchr", "strtol", "strtoul", "strtoll", "strtoull", "strtod", "strtof", "strtold",
                                         "__isoc23_strtol", "__isoc23_strtoul", "__isoc23_strtoll", "__isoc23_strtoull",
                                         "setlocale", "localeconv", "strtok", "drand48", "lrand48", "mrand48", "srand48", "asctime", "ctime", "gmtime", "localtime", "strerror",
                                         "getenv", "setenv", "unsetenv", "lgamma", "_ZNSt6locale6globalERKS_")]

    def steps(sim, repo, d, exe):
        return [
            {"stage": 1, "cmd": comp + ["-O1", "-g", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-fPIC", "-fvisibility=hidden"] + arch +
                ["-I", sim + "/shim", "-I", sim, "-I", repo + "/include", "-c", sim + "/work.cpp", "-o", exe + ".o"]},
            {"stage": 1, "cmd": GCC + ["-O2", "-w", "-I", sim, sim + "/h_threads.cpp", "-o", exe, "-Wl,--dynamic-list=" + sim + "/threads.dyn", "-ldl", "-pthread"]},
            {"stage": 2, "cmd": GCC + ["-shared", "-Wl,-Bsymbolic-functions"] + wrap + [exe + ".o", "-o", exe + ".so"]},
        ]
    return steps


STREAM_ASSUME = ["classic or punctuation-hostile locale; ASCII white space", "std::basic_istream/ostream of libstdc++ are trusted and run for real"]

PROPS = {
    "C01": {
        "oracle": "oracle: exact reference scanner over the delivered characters",
        "level": "exploration", "builds": two("h_istream.cpp"), "runs": {"quick": 1600000, "thorough": 40000000},
        "must_fire": ["chunk_boundary", "transient_eof", "delay", "chained", "custom_traits", "global_locale", "separator_locale", "tied_stream"],
        "rule": "A run is a seeded sequence of numerals, white space and junk cut into chunks with delays and transient ends of input, read back by a seeded sequence of extractions, raw gets and recoveries.",
        "assumptions": STREAM_ASSUME,
    },
    "C02": {
        "oracle": "oracle: reference scanner plus stream-state model",
        "level": "exploration", "builds": two("h_istream.cpp"), "runs": {"quick": 1200000, "thorough": 30000000},
        "must_fire": ["chunk_boundary", "transient_eof", "read_error", "stream_already_failed", "eof_mask"],
        "rule": "As C01 plus read errors thrown by the device at seeded positions, malformed and out-of-range numerals, streams that already failed, and every exception mask.",
        "assumptions": STREAM_ASSUME,
    },
    "C03": {
        "oracle": "oracle: exact positional expansion, device contents and stream state",
        "level": "exploration", "builds": two("h_ostream.cpp"), "runs": {"quick": 2400000, "thorough": 50000000},
        "must_fire": ["iterator_throws", "reentrant_insertion", "sink_error", "sink_throws", "stream_already_failed", "sync_error", "sync_throws", "clean_insert", "failed_insert", "tied_stream", "unit_buffered"],
        "rule": "A run is a seeded history of insertions, flag changes and recoveries on one output stream whose device fails, throws or re-enters at seeded characters.",
        "assumptions": STREAM_ASSUME,
    },
    "C04": {
        "oracle": "oracle: journal model of acknowledged records over a simulated disk",
        "level": "exploration", "builds": two("h_ostream.cpp"), "runs": {"quick": 2400000, "thorough": 50000000},
        "must_fire": ["crash", "disk_full", "fsync_error", "lost_buffer", "lost_tail", "power_loss_mid_write", "read_error", "torn_tail", "acked", "not_acked", "compacted", "recovered"],
        "rule": "A run is a seeded journal of fixed-point values on a simulated disk: appends, syncs, compactions, crashes with lost or torn tails, recoveries through every reader of the library.",
        "assumptions": STREAM_ASSUME + ["the record framing (count and check digits) is the harness's, the value text is the library's"],
    },
    "C05": {
        "oracle": "oracle: independent implementation of the specification grammar and layout",
        "level": "exploration", "builds": two("h_format.cpp"), "runs": {"quick": 2000000, "thorough": 40000000},
        "must_fire": ["alloc_failure", "alloc_failure_persistent", "iterator_throws", "reentrant_format", "reentrant_formatter", "short_buffer", "spec_rejected", "format_after_rejection", "format_history"],
        "rule": "A run is a seeded history of format calls (vformat, format_to, format_to_n, stand-alone and long-lived formatters) with failing allocations, throwing output iterators, re-entrant calls and rejected specifications.",
        "assumptions": ["std::format of libstdc++ is trusted and runs for real", "widths below 20000, precisions below 10000, or too large for an int"],
    },
    "C06": {
        "oracle": "oracle: happens-before race detector and each thread's results when it runs alone",
        "level": "exploration", "builds": [{"name": "gcc", "steps": threads(GCC, "avx2")}, {"name": "clang", "steps": threads(CLANG, "avx2")}],
        "runs": {"quick": 60000, "thorough": 2000000}, "recheck": 200,
        "must_fire": ["preemption", "blocked_on_first_use", "other_cpu", "ops", "first_use", "sync_ops", "accesses"],
        "rule": "A run is two to four threads with seeded programs over every public operation, started in a fresh process and preempted at seeded memory accesses, synchronisation operations and operation boundaries.",
        "assumptions": ["races inside the compiled part of libstdc++ and libc are not tracked", "sequentially consistent values: a missing order is found as a race, not as a stale value",
                        "objects are shared between threads only as constants"],
    },
    "C07": {
        "oracle": "oracle: the simulated processor's own CPUID data and scalar arithmetic",
        "level": "exploration", "builds": [{"name": "gcc-avx2", "steps": threads(GCC, "avx2")}, {"name": "clang-avx512", "steps": threads(CLANG, "skylake-avx512")}],
        "runs": {"quick": 60000, "thorough": 2000000}, "recheck": 200,
        "must_fire": ["preemption", "blocked_on_first_use", "other_cpu", "cpuid", "query"],
        "rule": "A run is two to five threads in a fresh process on a simulated processor with seeded feature bits and highest CPUID leaf, querying features in seeded order and preempted at seeded accesses, guards and CPUID instructions.",
        "assumptions": ["x86 CPUID semantics: a leaf above the highest one answers with the data of the highest", "operating system support for the AVX state is not part of the query"],
    },
    "C08": {
        "oracle": "oracle: exact arithmetic on the stored integers, and bit equality between replicas",
        "level": "exploration", "builds": [{"name": "cluster", "steps": cluster}], "min_parts": 3, "runs": {"quick": 600000, "thorough": 12000000},
        "must_fire": ["crash", "restart", "lost", "duplicated", "reordered", "partition", "heal", "blocked_by_partition", "fp_environment", "other_libm", "x87_precision", "replica_locale",
                      "exact", "agreement", "rejected", "cross_checked", "local_query", "snapshot", "text_snapshot", "resend", "gap"],
        "rule": "A run is a seeded log of fixed-point commands sent to two to five replicas (gcc and clang, -O0 to -O3, signed and unsigned char, with and without AVX2/AVX-512) over a network that loses, duplicates, reorders and partitions, with replica crashes, snapshots, restarts, local queries and changed floating-point environments.",
        "assumptions": ["operands for which an intermediate result leaves the documented integer range are not applied", "x86-64 only"],
    },
    "C09": {
        "oracle": "oracle: reference generator and sequence positions",
        "level": "exploration", "builds": two("h_random.cpp"), "runs": {"quick": 2400000, "thorough": 60000000},
        "must_fire": ["alloc_failure", "crash", "long_skip", "reseed", "sink_error", "sink_throws", "checkpoint", "copy", "restored", "seed_seq", "swap"],
        "rule": "A run is a seeded interleaving of draws, reseeds, skips, copies, swaps, checkpoints, crashes and restores over four engines of one kind; every engine is audited against its reference after every operation.",
        "assumptions": ["classic locale, field width 0", "standard engines and seed_seq of libstdc++ are trusted"],
    },
    "C10": {
        "oracle": "oracle: bounds in force and a fresh twin",
        "level": "exploration", "builds": two("h_random.cpp"), "runs": {"quick": 3200000, "thorough": 60000000},
        "must_fire": ["crash", "entropy_failure", "hostile_entropy", "reparameterised", "per_call_param", "reset", "spread_checked"],
        "rule": "A run is a seeded history of constructions, parameter changes, resets and draws (own or per-call bounds) from one distribution fed with hostile, failing or ordinary entropy; draws are compared with the bounds in force and with a fresh twin.",
        "assumptions": ["uniform_int_distribution of libstdc++ is trusted", "after a hostile prefix the entropy source behaves, or rejection sampling need not end"],
    },
    "C11": {
        "oracle": "oracle: reference scanner over exactly the given range",
        "level": "exploration", "builds": two("h_buffer.cpp"), "runs": {"quick": 4000000, "thorough": 100000000},
        "must_fire": ["damaged_byte", "guard_page_after", "guard_page_before", "stale_digit_after", "short_read", "stale_bytes_inside", "accepted", "malformed", "no_digit", "out_of_range"],
        "rule": "A run is a seeded sequence of messages arriving in pieces, out of order, lost, truncated or damaged in a reused buffer between guard pages, parsed through every buffer parser.",
        "assumptions": ["text without any digit may count as zero or as a failure"],
    },
}

COMPONENTS = {
    "C06": {"real": ["every public operation", "libstdc++ templates, compiled in", "pthreads, thread-local storage"], "simulated": ["thread scheduler", "mutexes, once flags, initialisation guards", "CPUID", "fresh process per run (fork)"]},
    "C07": {"real": ["platform_support queries", "simd_reduce_angle and simd_reduce_angle_2 in AVX2 and AVX-512 builds"], "simulated": ["processor (CPUID)", "thread scheduler", "initialisation guards", "fresh process per run (fork)"]},
    "C08": {"real": ["all arithmetic, comparison, conversion, rounding, math, text and hash operations, in eight builds"], "simulated": ["sequencer and network", "replica crash and restart, snapshots", "floating-point environment, global locale and stack contents", "mathematical library of other platforms"]},
    "C09": {"real": ["permuted_congruential_engine", "fixed_random_engine_adapter", "standard engines"], "simulated": ["allocator", "checkpoint stream and disk", "crash and restart over dirtied memory", "interleaving of engines"]},
    "C10": {"real": ["both distribution adapters", "std::uniform_int_distribution"], "simulated": ["entropy source", "crash and restart over dirtied memory"]},
    "C11": {"real": ["f32_from_cstring", "fixed_from_cstring", "io::parse (both forms)", "run-time string literals"], "simulated": ["receive path and buffer", "memory protection around the buffer"]},
    "C01": {"real": ["operator>> for every fixed type", "std::basic_istream<char/wchar_t>"], "simulated": ["byte source (streambuf)", "reader recovery"]},
    "C03": {"real": ["operator<< for every fixed type", "std::basic_ostream<char/wchar_t>", "num_put of the imbued locale"], "simulated": ["device (streambuf)", "output iterator of a replaced num_put facet"]},
    "C04": {"real": ["operator<<, operator>>, every text parser of the library", "std::basic_ostream/istream"], "simulated": ["disk with cache, torn and lost writes, full disk, read errors", "process crash and restart", "journal framing"]},
    "C05": {"real": ["std::formatter specialisation and fixed_num_formatter", "std::format of libstdc++"], "simulated": ["allocator", "output iterators", "order of use of long-lived formatters"]},
    "C02": {"real": ["operator>> for every fixed type", "std::basic_istream<char/wchar_t>"], "simulated": ["byte source (streambuf) with read errors", "reader recovery"]},
}
