"""Registry of the checks (used by run.py and tools/gen_manifest.py)."""
LIBA = ["The model (harness/ref.cpp, written from RFC 8391 and SP 800-208) and OpenSSL's SHA-2/SHAKE are right.",
        "Sources are compiled with gcc 13 on x86-64 as the Makefile does (-O3); other compilers and platforms are not covered."]
MOCKA = ["In mock stages WOTS+ and the tree hash are replaced at link level by cheap functions of the same inputs; a start-up probe checks that the replacement is reached, otherwise those stages are skipped and counted as such."]

CHECKS = {}
OS_CALLS = "open open64 __open_2 __open64_2 openat read __read_chk close getrandom getentropy sleep usleep nanosleep clock_nanosleep sched_yield poll fopen".split()


def build_os(run, pool):
    """The library with the system calls of its random source redirected to harness/osshim.c."""
    import os
    import threading
    fl = run.BASEFLAGS + ["-O3"]
    objs = run.pmap(pool, lambda s: run.obj("gcc", s, fl), run.repo_sources(False) + [run.HARN + "/osshim.c"])
    dst = os.path.join(run.BUILD, "lib", "os-%s.so" % run.sha("os", " ".join(OS_CALLS), *objs))
    if not os.path.exists(dst):
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        tmp = "%s.%d.%d.tmp" % (dst, os.getpid(), threading.get_ident())
        run.run_cmd(["gcc", "-shared", "-o", tmp, *objs, "-Wl,-Bsymbolic", *["-Wl,--wrap=" + c for c in OS_CALLS], "-lcrypto"])
        run.publish(tmp, dst)
    return ["--so_os=" + dst]


def build_tsan(run, pool):
    """Threads over the library, everything built with ThreadSanitizer."""
    import os
    import threading
    args = []
    for fast in (0, 1):
        for mock in (0, 1):
            fl = run.BASEFLAGS + ["-O1", "-fsanitize=thread", "-DVERIF_NO_COUNT"]
            srcs = run.repo_sources(fast) + [run.HARN + "/tsan_main.c"] + ([run.HARN + "/mock.c"] if mock else [])
            objs = run.pmap(pool, lambda s: run.obj("gcc", s, fl, [run.HARN + "/mockmix.h"] if s.startswith(run.HARN) else ()), srcs)
            name = "tsan_%s%s" % ("mock" if mock else "", "fast" if fast else "basic")
            dst = os.path.join(run.BUILD, "bin", name + "-" + run.sha(name, *objs))
            if not os.path.exists(dst):
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                tmp = "%s.%d.%d.tmp" % (dst, os.getpid(), threading.get_ident())
                run.run_cmd(["gcc", "-fsanitize=thread", "-o", tmp, *objs, "-Wl,--wrap=randombytes", *([run.WRAPS_MOCK] if mock else []), "-lcrypto", "-lpthread"])
                run.publish(tmp, dst)
            args.append("--%s=%s" % (name, dst))
    return args


ALLOC_CALLS = "malloc calloc realloc reallocarray free posix_memalign aligned_alloc memalign strdup strndup mmap munmap".split()


def build_res(run, pool):
    """The library with its allocations counted by harness/resshim.c."""
    import os
    import threading
    args = []
    fl = run.BASEFLAGS + ["-O3"]
    for fast in (0, 1):
        for mock in (0, 1):
            srcs = run.repo_sources(fast) + [run.HARN + "/shim.c", run.HARN + "/resshim.c"] + ([run.HARN + "/mock.c"] if mock else [])
            objs = run.pmap(pool, lambda s: run.obj("gcc", s, fl, [run.HARN + "/mockmix.h"] if s.startswith(run.HARN) else ()), srcs)
            name = "res" + ("mock" if mock else "") + ("fast" if fast else "basic")
            dst = os.path.join(run.BUILD, "lib", "%s-%s.so" % (name, run.sha(name, *objs)))
            if not os.path.exists(dst):
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                tmp = "%s.%d.%d.tmp" % (dst, os.getpid(), threading.get_ident())
                run.run_cmd(["gcc", "-shared", "-o", tmp, *objs, "-Wl,-Bsymbolic", "-Wl,--wrap=randombytes", *["-Wl,--wrap=" + c for c in ALLOC_CALLS], *([run.WRAPS_MOCK] if mock else []), "-lcrypto"])
                run.publish(tmp, dst)
            args.append("--so_%s=%s" % (name, dst))
    return args


# Ways to compile the library for C21: name, compiler, flags, 32-bit, own SHA-2
I386 = "-m32 -static -nostdlib -fno-pic -no-pie -U_FORTIFY_SOURCE -fno-stack-protector -fno-tree-loop-distribute-patterns"
PLATS = [("gcc-O3", "gcc", "-O3", 0), ("gcc-O0-unsigned-char", "gcc", "-O0 -funsigned-char -fno-stack-protector", 0),
         ("gcc-Os-pattern", "gcc", "-Os -ftrivial-auto-var-init=pattern", 0), ("clang-O3-zero", "clang", "-O3 -ftrivial-auto-var-init=zero", 0),
         ("clang-O1-pattern", "clang", "-O1 -ftrivial-auto-var-init=pattern -funsigned-char", 0), ("clang-msan", "clang", "-O2 -g1 -fno-omit-frame-pointer -fsanitize=memory", 2),
         ("gcc-m32-O2", "gcc", "-O2 " + I386, 1), ("gcc-m32-O0", "gcc", "-O0 -funsigned-char " + I386, 1)]


def build_plat(run, pool):
    """Programs that serve requests (harness/plat/plat.c) over the library compiled in the ways of PLATS; a way that cannot be
    built for this tree (another library function needed without a 32-bit C library, say) is left out."""
    import os
    import subprocess
    import threading
    P = run.HARN + "/plat/"

    def one(a):
        (name, cc, flags, own), fast, mock = a
        fl = ["-std=gnu11", "-w", *flags.split(), *(["-I" + P + "inc", "-idirafter", "/usr/include/x86_64-linux-gnu"] if own == 1 else [])]
        sfl = [f if f != "-O0" else "-O1" for f in fl]
        srcs = [(s, sfl if s.endswith("/fips202.c") else fl) for s in run.repo_sources(fast)] + [(P + "plat.c", fl), (P + ("plat_os32.c" if own == 1 else "plat_os.c"), sfl)]
        srcs += [(P + "plat_sha.c", sfl)] + ([(run.HARN + "/mock.c", fl)] if mock else [])
        try:
            objs = [run.obj(cc, s, f, [run.HARN + "/mockmix.h"] if s.startswith(run.HARN) else ()) for s, f in srcs]
            tag = "plat_%s%s-%s" % ("mock" if mock else "", "fast" if fast else "basic", name)
            dst = os.path.join(run.BUILD, "bin", tag + "-" + run.sha(tag, *objs))
            if not os.path.exists(dst):
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                tmp = "%s.%d.%d.tmp" % (dst, os.getpid(), threading.get_ident())
                run.run_cmd([cc, *flags.split(), "-o", tmp, *objs, "-Wl,--wrap=randombytes", *([run.WRAPS_MOCK] if mock else []), *([] if own else ["-lcrypto"])])
                run.publish(tmp, dst)
            # does it run here at all?
            if subprocess.run([dst], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode:
                raise run.BuildError(name + " does not run")
        except (run.BuildError, OSError, subprocess.TimeoutExpired) as e:
            print("C21: build %s left out: %s" % (name, str(e)[-300:]))
            return None
        return ("mock" if mock else "") + ("fast" if fast else "basic"), "%s=%s" % (name, dst)

    got = [x for x in run.pmap(pool, one, [(v, f, m) for v in PLATS for f in (0, 1) for m in (0, 1)]) if x]
    return ["--plat_%s=%s" % (f, ";".join(p for g, p in got if g == f)) for f in ("basic", "fast", "mockbasic", "mockfast")]


CHECKS["C04"] = dict(
    src="c04.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], level="exploration",
    technique="property-based differential testing against an independent RFC 8391 / SP 800-208 model",
    rule="Generated seeds, indices, messages and addresses per hash function, w and tree shape; every output byte is compared with the model.",
    assumptions=LIBA + MOCKA)
CHECKS["C05"] = dict(
    src="c05.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], level="exploration",
    technique="model-based differential testing of whole signing histories (fast vs plain signer vs model)",
    rule="Histories from key generation; each signature's bytes are compared with the plain signer's and/or the model's.",
    assumptions=LIBA + MOCKA)
CHECKS["C06"] = dict(
    src="c06.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], level="exploration",
    technique="stateful property-based testing of signing histories with an invariant over one-time key use",
    rule="Histories of signing calls; after each call index sequence, key fields and the value signed by every one-time key seen so far are checked.",
    assumptions=LIBA + MOCKA)
CHECKS["C07"] = dict(
    src="c07.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], level="exploration",
    technique="stateful property-based testing of histories that run to and past exhaustion",
    rule="Histories that reach the last index and go on; status, validity of the last signatures, refusals and erasure are checked.",
    assumptions=LIBA + MOCKA)
CHECKS["C01"] = dict(
    src="c01.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], level="exploration",
    technique="property-based round-trip testing (sign, then verify with both builds) over whole signing histories",
    rule="Histories from key generation and keys placed at generated indices; every signing call's status, length and message, and verification by both builds.",
    assumptions=LIBA + MOCKA)
CHECKS["C02"] = dict(
    src="c02.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], level="exploration",
    technique="property-based differential testing of verification on synthesised valid signatures and their mutations against the model's verdict",
    rule="Valid signatures synthesised at any index of every set, changed in one generated way; accept exactly when the model's root equals the key's, zeroed output otherwise.",
    assumptions=LIBA + MOCKA)
CHECKS["C08"] = dict(
    src="c08.cpp", flavours=["basic", "fast"], level="exploration",
    technique="property-based testing of one-time signature round trips and of an order invariant over pairs of digests",
    rule="Generated digests (extremes, dominating pairs with chosen checksum differences), seeds and addresses; recomputed keys equal or differ, chain positions are incomparable.",
    assumptions=LIBA)
CHECKS["C09"] = dict(
    src="c09.cpp", flavours=["basic", "fast"], level="exploration",
    technique="property-based differential testing against OpenSSL's SHAKE over a length grid and generated lengths, between guard pages",
    rule="Input and output lengths enumerated around block boundaries and generated beyond; output bytes, exact writes and reads.",
    assumptions=["OpenSSL's SHAKE128/256 are right."])
CHECKS["C10"] = dict(
    src="c10.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], level="exploration",
    technique="exhaustive enumeration of identifiers and property-based testing of names and parameters against the standard's tables",
    rule="All 2^32 identifiers per family; standard names with edits; custom parameters; produced sizes.",
    assumptions=["The tables of RFC 8391 and SP 800-208 as transcribed in harness/ref.cpp are right."] + MOCKA)
CHECKS["C11"] = dict(
    src="c11.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], level="exploration",
    technique="property-based testing of key generation against a scripted random source, with metamorphic regeneration",
    rule="Generated random streams and buffer contents; layout, seeds as disjoint parts of the stream, root, and equality under regeneration.",
    assumptions=LIBA + MOCKA)
CHECKS["C03"] = dict(
    src="c03.cpp", flavours=["basic", "fast", "mockbasic", "mockfast", "asanbasic", "asanfast", "asanmockbasic", "asanmockfast"], asan=True, fuzz="fuzz_open.cpp",
    level="exploration",
    technique="coverage-guided fuzzing (libFuzzer, ASan) and property-based testing of verification on arbitrary and nearly valid bytes, with guard pages",
    rule="Generated signed messages of any length, keys and identifiers; sanitizer and guard pages judge accesses, the standard's sizes judge the verdict.",
    assumptions=LIBA + MOCKA + ["An error that neither AddressSanitizer (stack, heap, globals) nor an inaccessible page next to the buffers sees goes unnoticed."])
CHECKS["C12"] = dict(
    src="c12.cpp", flavours=["basic", "fast", "mockbasic", "mockfast", "asanbasic", "asanfast", "asanmockbasic", "asanmockfast"], asan=True, level="exploration",
    technique="property-based testing of call histories with exactly sized guarded buffers and AddressSanitizer as the oracle for accesses",
    rule="Generated keys, indices, messages and call histories; every buffer has exactly the announced size, sits next to an inaccessible page (or sanitizer redzone), inputs are read-only and compared afterwards.",
    assumptions=LIBA + MOCKA + ["Reads of uninitialised parts of the library's own storage are not this property's concern (C11, C16 see their effects)."])
CHECKS["C13"] = dict(
    src="c13.cpp", extra_build=build_os, level="fault_enumeration",
    technique="fault injection with enumerated and generated fault sequences behind open/read, against a scripted source (property-based testing)",
    rule="Sequences of requests under scripted results of open and read; delivered bytes are consecutive unused bytes of the source, nothing else is written, the call ends once the source is healthy.",
    assumptions=["The random source uses open/openat/fopen, read or getrandom/getentropy, and sleeps through the C library; these calls are redirected at link level."])
CLI = [(mt, fast, kind) for mt in (0, 1) for fast in (0, 1) for kind in ("", "mock")]
CLIA = LIBA + MOCKA + ["The tools are compiled from ui/*.c with the Makefile's sources and optimisation; their random source is replaced by a seeded one so that cases can be replayed."]
CHECKS["C14"] = dict(
    src="c14.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], cli=CLI, level="exploration",
    technique="stateful property-based testing of tool runs over files, compared with the library in process",
    rule="Generated keys, message files, histories of signatures, alterations and names; exit status, output bytes and key file bytes after every run.",
    assumptions=CLIA)
CHECKS["C15"] = dict(
    src="c15.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], cli=CLI, level="fault_enumeration",
    technique="enumerated crash points and write faults (ptrace of the tool's own process) over generated keys, indices and messages, with an invariant over output and key file",
    rule="Each system call after the key file is opened as crash point, each write as fault; released bytes imply the advanced key in the file, success implies both complete.",
    assumptions=CLIA + ["A crash is the end of the process (SIGKILL) at a system call boundary or in the middle of a write; loss of power with unflushed page cache is not covered.",
                        "Where tracing a child is not possible, the traced stages are skipped and counted as such."])
CHECKS["C18"] = dict(
    src="c18.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], cli=[(mt, fast, kind) for mt in (0, 1) for fast in (0, 1) for kind in ("", "mock", "asan")], level="exploration",
    technique="property-based testing (structured fuzzing) of tool runs on generated malformed files, also with AddressSanitizer builds",
    rule="Generated malformed files and arguments; the tool exits nonzero by itself without memory error, signing outputs nothing and leaves the key file as it was.",
    assumptions=CLIA)
CHECKS["C16"] = dict(
    src="c16.cpp", flavours=["basic", "fast", "mockbasic", "mockfast", "yieldbasic", "yieldfast", "yieldmockbasic", "yieldmockfast"], extra_build=build_tsan, level="exploration",
    technique="stateful property-based testing of interleaved histories and generated schedules against each call alone in a freshly loaded copy, plus ThreadSanitizer runs",
    rule="Histories over several keys in one copy of the library, interruptions inside calls under a generated schedule, threads; every call's results equal those of the same call alone in a fresh copy.",
    assumptions=LIBA + MOCKA + ["Schedules interrupt calls at hash computations; other points of interruption are only reached by real threads and judged by ThreadSanitizer.",
                                "The real random source (its lazily opened descriptor) is replaced in these runs."])
CHECKS["C17"] = dict(
    src="c17.cpp", flavours=["basic", "fast"], level="exploration",
    technique="property-based differential testing of message lengths (grid, generated, beyond 2^31 and 2^32) against the model, with metamorphic changes of the message",
    rule="Message lengths enumerated and generated up to beyond 4 GiB; signature bytes against the model over the whole message, verification, and rejection of messages changed, extended or cut anywhere.",
    assumptions=LIBA + ["Inputs beyond 4 GiB consist of repeated 16 MiB blocks with different ends; lengths above 2^33 are not reached."])
CHECKS["C19"] = dict(
    src="c19.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], cli=CLI, level="fault_enumeration",
    technique="enumerated write faults (ptrace of the tool's own process, full devices, size limits, vanished readers) over generated parameter sets, with an invariant over output and exit status",
    rule="Each write of the tool as fault, for all parameter sets of at most height 10 per tree; exit status 0 implies that the complete key pair was delivered.",
    assumptions=CLIA + ["Errors reported only when a file is closed or synchronised are not injected.",
                        "Where tracing a child is not possible, the traced stages are skipped and counted as such."])
CHECKS["C20"] = dict(
    src="c20.cpp", flavours=["basic", "fast", "mockbasic", "mockfast", "yieldbasic", "yieldfast"], level="exploration",
    technique="stateful property-based testing of signing histories with an invariant on the work of each call (counted at the one-time and hash functions)",
    rule="Histories from key generation and keys placed at generated indices, generated inputs to verification; the leaves, one-time signatures, tree nodes and hash computations of every call against the bound.",
    assumptions=LIBA + MOCKA + ["Work is counted in calls of the one-time, tree-hash and hash functions, not in time."])
CHECKS["C21"] = dict(
    src="c21.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], extra_build=build_plat, level="exploration",
    technique="property-based differential testing between builds of the library (compilers, optimisation, char signedness, 32/64 bit, initial memory contents, MemorySanitizer)",
    rule="Generated keys, indices, messages, histories and verification inputs, sent to every build; all results byte for byte equal, no build ends, no decision or output depends on uninitialised memory.",
    assumptions=MOCKA + ["Little-endian x86 only (i386 and x86-64 are what runs here); SHA-2 of the builds is OpenSSL's interface implemented in harness/plat/plat_sha.c.",
                         "A build that cannot be made for a tree (32-bit code has no C library here) is left out and not counted."])
CHECKS["C22"] = dict(
    src="c22.cpp", extra_build=build_res, level="exploration",
    technique="stateful property-based testing of repeated generated operations with an invariant on held memory and descriptors, and a metamorphic relation between message length and memory needed",
    rule="Generated rounds of successful, refused and failing calls; allocations (counted at link level) and descriptors must stop growing; stack (painted) and heap of calls with small and large messages.",
    assumptions=MOCKA + ["Memory that libcrypto holds is not counted."])
CHECKS["C23"] = dict(
    src="c23.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], cli=CLI, level="fault_enumeration",
    technique="enumerated faults of every reading, measuring, opening and allocating system call (ptrace of the tool's own process) and generated files of unusual kinds, with an invariant over output, exit status and key file",
    rule="Each such call of the tools as fault; output is only ever the signed content of the message file, and only valid files are accepted.",
    assumptions=CLIA + ["The content of a file is what a reader gets that reads to its end; files that change while they are read are not covered.",
                        "Where tracing a child is not possible, the traced stages are skipped and counted as such."])
CHECKS["C24"] = dict(
    src="c24.cpp", flavours=["basic", "fast", "mockbasic", "mockfast"], cli=CLI, level="exploration",
    technique="controlled-schedule exploration (ptrace of the check's own processes, system call by system call) of concurrent signing runs with generated and enumerated schedules and kills, with an invariant over all outputs and the key file",
    rule="Schedules of two or three signing runs on one key file; released signatures carry different indices, the key file ends advanced past all of them.",
    assumptions=CLIA + ["Runs are on one machine and switch at system calls; network file systems are not covered.",
                        "Where tracing a child is not possible, the traced stages are skipped and counted as such."])
