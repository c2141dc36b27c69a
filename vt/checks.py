"""One function per property: which builds, which generators, how many cases."""
import os, sys
from . import build as B
from .check import Check, Job, SEED, TIER

KAT = B.KAT
QUICK = TIER != "thorough"


def runnable(c, vs):
    out = []
    for v in vs:
        if v.target == "avx512" and not B.have_avx512():
            c.skipped[v.name] = "this CPU has no AVX-512"
            continue
        out.append(v)
    return out


def variants(c, pred=lambda v: True):
    return [v for v in runnable(c, B.discover()) if pred(v)]


def x86(v):
    return v.target == "x86"


# ---------------------------------------------------------------- configurations
def clang_x86(v):
    # clang rejects a non-constant rotate count in the AVX-512 code
    return ["gcc", "-march=x86-64-v4"] if v.target == "avx512" else ["clang"]


def host_cc(v):
    return ["gcc"] if v.target == "avx512" else ["clang"]


# without optimisation every access in the source is still there; the rotate intrinsics of the AVX-512 code need -O1
ASAN = B.Config("asan", cc=clang_x86, opt=lambda v: ["-O1" if v.target == "avx512" else "-O0", "-g", "-fsanitize=address,undefined",
                "-fno-sanitize=alignment,nonnull-attribute,pointer-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], hopt=["-O2"], wrap=(),
                hcc=host_cc)
# the ARM runtime of the sanitizers is a shared library
ASANARM = B.Config("asan-arm", opt=["-O1", "-g", "-fsanitize=address,undefined", "-fsanitize=alignment", "-fno-sanitize=nonnull-attribute,pointer-overflow",
                   "-fno-sanitize-recover=all"], hopt=["-O2"], wrap=(), dynamic=True, link=["-latomic"],
                   runner=lambda v: ["qemu-arm", "-L", "/usr/arm-linux-gnueabi"])
UBALIGN = B.Config("align", cc=clang_x86, opt=["-O2", "-g", "-fsanitize=alignment", "-fno-sanitize-recover=all"], hopt=["-O2"],
                   hcc=host_cc)


# Coverage callbacks. gcc has only block and comparison callbacks (used for the AVX-512 code);
# the ARM implementations are compiled by clang for the same target and run under emulation.
CLANG_ARM = {"armv6": ["clang", "--target=arm-linux-gnueabi", "-march=armv6", "-marm"],
             "armv7": ["clang", "--target=arm-linux-gnueabi", "-march=armv7-a", "-mthumb"]}


def cov_cc(v):
    return CLANG_ARM[v.target] if v.arm else clang_x86(v)


def cov_opt(level):
    def f(v):
        fl = ["-O1" if v.target == "avx512" and level == "-O0" else level, "-DNDEBUG", "-g", "-fno-builtin", "-fno-inline-functions"]
        if cov_cc(v)[0] == "gcc":
            return fl + ["-fsanitize-coverage=trace-pc,trace-cmp"]
        return fl + ["-fsanitize-coverage=trace-pc-guard,trace-cmp,trace-loads,trace-stores"]
    return f


def cov_link(v):
    return [] if v.arm else ["-no-pie"]


COVWRAP = ["malloc", "calloc", "realloc", "free", "memcmp", "bcmp", "strcmp", "strncmp"]


def cov_cfg(name, level):
    return B.Config(name, cc=cov_cc, opt=cov_opt(level), hopt=["-O2", "-DSANCOV", "-DTRACE", "-DGUIDED"], harness=["props_core", "props_trace", "sancov", "guided"],
                    wrap=COVWRAP + ["memcpy", "memmove", "memset"], link=cov_link)


COV1 = cov_cfg("cov1", "-O1")
COV0 = cov_cfg("cov0", "-O0")


def guide_opt(v):
    fl = ["-O1", "-DNDEBUG", "-g1", "-fno-builtin", "-fno-inline-functions"]
    return fl + ["-fsanitize-coverage=" + ("trace-pc,trace-cmp" if cov_cc(v)[0] == "gcc" else "trace-pc-guard,trace-cmp")]


GUIDE = B.Config("guide", cc=cov_cc, opt=guide_opt, hopt=["-O2", "-DSANCOV", "-DGUIDED"], harness=["props_core", "sancov", "guided"],
                 wrap=COVWRAP, link=cov_link)
# the real binaries, followed instruction by instruction (harness/step.c, armtrace.c)
STEP = B.Config("step", hopt=["-O2", "-DSTEP"], harness=["props_core", "props_trace", "step"], link=lambda v: [] if v.arm else ["-no-pie"], step=True,
                runner=lambda v: [B.armtrace(), "qemu-arm"] if v.arm else [])
# the real binaries, with instructions replaced by traps
CONV = B.Config("conv", hopt=["-O2", "-DCONV"], harness=["props_core", "props_conv"], link=lambda v: [] if v.arm else ["-no-pie"], step=True)
LONG = B.Config("long", hopt=["-O2", "-DLONG"], harness=["props_core", "props_long"])


# ---- C13: other ways to build the same source
def cfg13(name, cc, opt, only, runner=None, hcc=None, hopt=("-O2",), strip=(), link=()):
    c = B.Config("b-" + name, cc=cc, opt=opt, runner=runner, hcc=hcc, hopt=hopt, strip_flags=strip, link=link, wrap=())
    c.only = only
    return c


def _x(v):
    return not v.arm


def _x64(v):
    return v.target == "x86"


def _arm(v):
    return v.arm


AV = lambda v: ["-march=x86-64-v4"] if v.target == "avx512" else []
GCC = lambda v: ["gcc"] + AV(v)
CLANG = lambda v: ["clang"] + AV(v)
ARMGCC = ["arm-linux-gnueabi-gcc"]
QEMU = lambda v: ["qemu-arm"]
HARM = lambda v: ["arm-linux-gnueabi-gcc", "-march=armv7-a", "-mthumb"]
HARM6 = lambda v: ["arm-linux-gnueabi-gcc", "-march=armv6", "-marm"]
MSAN = ["-O1", "-g", "-fsanitize=memory", "-fno-sanitize-recover=all", "-DNDEBUG"]
CFG13 = [
    cfg13("gcc-O0", GCC, ["-O0"], _x),
    cfg13("gcc-O2-unsigned-char", GCC, ["-O2", "-funsigned-char", "-DNDEBUG"], _x),
    cfg13("gcc-Os-pattern", GCC, ["-Os", "-ftrivial-auto-var-init=pattern"], _x),
    cfg13("gcc-O3-native-lto", lambda v: ["gcc", "-march=native"], ["-O3", "-DNDEBUG", "-flto"], _x),
    cfg13("clang-O1-pattern", CLANG, ["-O1", "-ftrivial-auto-var-init=pattern"], _x64),
    cfg13("clang-O3-native", lambda v: ["clang", "-march=native"], ["-O3", "-DNDEBUG"], _x64),
    cfg13("gcc-O3-debug", GCC, ["-O3", "-DDEBUG=1"], lambda v: "isapxv20" in v.name, strip=("-DDEBUG=0",)),
    cfg13("clang-msan", CLANG, MSAN, _x64, hcc=CLANG, hopt=["-O1", "-fsanitize=memory"], link=["-fsanitize=memory"]),
    cfg13("armv7-O2", lambda v: ARMGCC + ["-march=armv7-a", "-mthumb"], ["-O2", "-DNDEBUG"], _x64, runner=QEMU, hcc=HARM, link=["-static"]),
    cfg13("arm-O0", None, ["-O0"], _arm),
    cfg13("arm-O2", None, ["-O2"], _arm),
    cfg13("arm-Os-pattern", None, ["-Os", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"], _arm),
    cfg13("arm-clang-O2", lambda v: CLANG_ARM[v.target], ["-O2", "-DNDEBUG"], _arm),
]
MORE13 = [
    cfg13("gcc-O1", GCC, ["-O1", "-DNDEBUG"], _x),
    cfg13("gcc-O2", GCC, ["-O2"], _x),
    cfg13("gcc-Os", GCC, ["-Os", "-DNDEBUG"], _x),
    cfg13("gcc-O3-unroll", GCC, ["-O3", "-funroll-all-loops", "-fno-inline", "-DNDEBUG"], _x),
    cfg13("gcc-O3-pic", GCC, ["-O3", "-fPIC", "-fstack-protector-all", "-fsigned-char", "-DNDEBUG"], _x),
    cfg13("gcc-Ofast", GCC, ["-Ofast", "-DNDEBUG"], _x),
    cfg13("gcc-c99", GCC, ["-O3", "-std=c99", "-DNDEBUG"], _x),
    cfg13("gcc-O3-strict", GCC, ["-O3", "-fstrict-aliasing", "-fipa-pta", "-ftree-vectorize", "-mtune=native"], _x),
    cfg13("gcc-noalias", GCC, ["-O3", "-fno-strict-aliasing", "-fwrapv", "-DNDEBUG"], _x),
    cfg13("clang-O0", CLANG, ["-O0"], _x64),
    cfg13("clang-O2", CLANG, ["-O2", "-DNDEBUG"], _x64),
    cfg13("clang-Os", CLANG, ["-Os"], _x64),
    cfg13("clang-Oz-unsigned-char", CLANG, ["-Oz", "-funsigned-char"], _x64),
    cfg13("clang-O3-zero", CLANG, ["-O3", "-ftrivial-auto-var-init=zero"], _x64),
    cfg13("armv6-O3", lambda v: ARMGCC + ["-march=armv6", "-marm"], ["-O3", "-DNDEBUG"], _x64, runner=QEMU, hcc=HARM6, link=["-static"]),
    cfg13("armv7-Os", lambda v: ARMGCC + ["-march=armv7-a", "-mthumb"], ["-Os"], _x64, runner=QEMU, hcc=HARM, link=["-static"]),
    cfg13("armv7-noua", lambda v: ARMGCC + ["-march=armv7-a", "-marm", "-mno-unaligned-access"], ["-O3", "-DNDEBUG"], lambda v: True if v.target != "avx512" else False, runner=QEMU, hcc=HARM, link=["-static"]),
    cfg13("arm-O1", None, ["-O1", "-DNDEBUG"], _arm),
    cfg13("arm-O3-frame", None, ["-O3", "-fno-omit-frame-pointer", "-DNDEBUG"], _arm),
    cfg13("arm-clang-O1", lambda v: CLANG_ARM[v.target], ["-O1"], _arm),
    cfg13("arm-clang-O3", lambda v: CLANG_ARM[v.target], ["-O3", "-DNDEBUG"], _arm),
    cfg13("arm-clang-Os", lambda v: CLANG_ARM[v.target], ["-Os", "-DNDEBUG"], _arm),
]
CONFIGS = {c.name: c for c in (KAT, ASAN, ASANARM, UBALIGN, COV1, COV0, GUIDE, STEP, CONV, LONG, *CFG13, *MORE13)}

SCALE = 1 if QUICK else 12


def engine_check(prop, rule, pairs_fn, cases, time_s, harness_prop=None, minimum=1000, extra=None, assumptions=(), guided=0, guided_cfg=None, guided_prop=None, walk=None):
    """The common shape: build, run the engine on every build, report."""
    if guided:
        rule += (" [guided] builds: the same generator and oracle, the inputs changed where the operands of executed comparisons are found in them "
                 "(comparison-guided search); evaluations there are runs of the oracle.")
    c = Check(prop, rule, assumptions=assumptions)
    pairs = pairs_fn(c)
    gcfg = guided_cfg or GUIDE
    gpairs = [(v, gcfg) for v in dict.fromkeys(v for v, _ in pairs)] if guided else []
    cmds = c.build(pairs + [p for p in gpairs if p not in pairs])
    jobs = []
    for v, cfg in gpairs:
        if (v.name, cfg.name) in cmds:
            t = guided * (1 if QUICK else 15)
            jobs.append(Job(v, cfg, cmds[v.name, cfg.name], guided_prop or prop,
                            ["--guided", 1, "--cases", 1000000, "--time", t, "--walk", 700], timeout=3 * t + 300, label=f"{v.name} [guided]"))
    for v, cfg in pairs:
        if (v.name, cfg.name) not in cmds:
            continue
        n = cases(v, cfg)
        if isinstance(n, int):
            n = [(harness_prop or prop, n, [])]
        for hp, k, args in n:
            jobs.append(Job(v, cfg, cmds[v.name, cfg.name], hp,
                            ["--cases", k * SCALE, "--time", time_s * (1 if QUICK else 8)] + (["--walk", walk] if walk else []) + args,
                            timeout=time_s * (4 if QUICK else 12) + 300))
    # slow (emulated) builds first
    jobs.sort(key=lambda j: (not j.variant.arm, "128v20" not in j.variant.name))
    c.run(jobs)
    if extra:
        extra(c, pairs)
    c.finish(minimum)


def C01():
    engine_check("C01", "A case is key, nonce, associated data and message drawn from a structured generator (all lengths walked, then random, "
                 "block and power-of-two boundaries, patterned contents, chosen ciphertexts). Non-trivial: the message or the associated data is not empty; "
                 "distinct by key, nonce, lengths and contents.",
                 lambda c: [(v, KAT) for v in variants(c)],
                 lambda v, cfg: 900 if v.arm else 12000, 40, walk=4400, guided=12)


def C02():
    engine_check("C02", "As C01; the genuine ciphertext comes from the independent model (3/4) or from the implementation itself (1/4). Non-trivial: the message or the associated data is not empty.",
                 lambda c: [(v, KAT) for v in variants(c)],
                 lambda v, cfg: 900 if v.arm else 8000, 40, walk=2600, guided=10)


def C03():
    engine_check("C03", "A genuine message is generated and changed in one of 24 weighted ways (every tag bit is walked; byte, word and cancelling changes of the tag, "
                 "related tags, changed, cut, extended or exchanged ciphertext, associated data, nonce, key, moved boundary). The model decides whether the result is a forgery; "
                 "non-trivial: it is. Distinct by the forged input.",
                 lambda c: [(v, KAT) for v in variants(c)],
                 lambda v, cfg: 700 if v.arm else 8000, 40, walk=1200, guided=12)


def C04():
    engine_check("C04", "Genuine messages with random contents, changed in one of the 24 ways of C03. What an eager decryption would compute is taken from the model; the plaintext buffer is "
                 "inaccessible or filled, stack, static data and heap are searched for any 8 bytes of plaintext or keystream after the call, and in coverage builds also during it. "
                 "[cov0] and [step] builds also compare the work (blocks, loads and stores, or instructions) that a longer ciphertext costs when it is rejected with that of authenticating and of decrypting as many bytes. "
                 "Non-trivial: a forgery whose plaintext is recognisable (at least 8 bytes with 6 distinct values, not occurring in the public inputs).",
                 lambda c: [(v, cfg) for v in variants(c) for cfg in ((KAT, COV1, STEP) if v.arm else (KAT, COV1, COV0, STEP) if v.target == "avx512" or not QUICK else (KAT, COV1, COV0))],
                 lambda v, cfg: (400 if v.arm else 3000) if cfg is KAT else [("C04w", 3 if v.arm else 12, ["--batch", 2, "--cpu", 300])] if cfg is STEP
                 else [("C04", (20, 300)[not v.arm], [])] + [("C04w", 60, ["--batch", 10])] * (cfg is COV0 and v.target != "avx512"), 25, guided=6)


def C05():
    engine_check("C05", "A ciphertext of 0 to 15 bytes (prefix or end of genuine data, or arbitrary bytes) against a guard page, with any associated data. Every case is non-trivial.",
                 lambda c: [(v, KAT) for v in variants(c)],
                 lambda v, cfg: 300 if v.arm else 3000, 25, guided=5)


def C06():
    engine_check("C06", "Encryption, genuine and forged decryption with every buffer of exactly the documented size against an inaccessible page (either side), inputs read-only, "
                 "surroundings filled; second build with AddressSanitizer and UBSan. Non-trivial: message or associated data not empty.",
                 lambda c: [(v, KAT) for v in variants(c)] + [(v, ASANARM if v.arm else ASAN) for v in variants(c)],
                 lambda v, cfg: 120 if cfg is ASANARM else 700 if v.arm else 4000 if cfg is KAT else 1500, 30, walk=1500, guided=8)


def C07():
    engine_check("C07", "Encryption, genuine and forged decryption with key, nonce, associated data, message and ciphertext at drawn offsets 0-63 from a 64-byte boundary. "
                 "Non-trivial: at least one buffer is not 8-byte aligned.",
                 lambda c: [(v, KAT) for v in variants(c)] + [(v, ASANARM if v.arm else UBALIGN) for v in variants(c)],
                 lambda v, cfg: 100 if cfg is ASANARM else 500 if v.arm else 5000 if cfg is KAT else 1500, 30, guided=6)


def C08():
    engine_check("C08", "Input bytes of every length 0-1200 (walked) and random lengths up to 1 MiB, random offsets, guard pages. Non-trivial: the input is not empty.",
                 lambda c: [(v, KAT) for v in variants(c, lambda v: v.has_hash)],
                 lambda v, cfg: 1500 if v.arm else 14000, 60, walk=8300, guided=15)


def C09():
    engine_check("C09", "A history of 2-17 calls (encrypt, decrypt genuine, decrypt forged, hash) over four related keys and nonces and three data buffers at fixed addresses that are "
                 "mutated in place between calls; every call is compared with the model's answer for that call alone. Non-trivial: at least two calls.",
                 lambda c: [(v, KAT) for v in variants(c)],
                 lambda v, cfg: [("C09", 150 if v.arm else 3000, []), ("C09L", 2 if v.arm else 16, ["--batch", 1])], 30, guided=8)


def C10():
    engine_check("C10", "Two or three concurrent calls on different data; a drawn schedule switches between them at drawn program points (every basic block, load, store and comparison is a "
                 "possible switch point; points are drawn both uniformly over the run and over distinct code locations). Non-trivial: at least one switch happened while a call was unfinished.",
                 # gcc has no load and store callbacks, so the AVX-512 code is followed by instruction; every x86 build is in the thorough tier
                 lambda c: [(v, cfg) for v in variants(c) for cfg in (COV1, COV0)] + [(v, STEP) for v in variants(c, lambda v: v.target == "avx512" if QUICK else not v.arm)],
                 lambda v, cfg: [("C10", (40 if cfg is COV1 else 15) if v.arm else 60 if cfg is STEP else 1500 if cfg is COV1 else 150, ["--batch", 1])], 25)


def C11():
    engine_check("C11", "Pairs of calls with the same public inputs, lengths and addresses but other keys, messages or wrong tags; the sequences of executed blocks and of load and store addresses must be equal. [step] builds: the project's own compilation, every instruction and the address of its memory operand.",
                 lambda c: [(v, cfg) for v in variants(c) for cfg in (COV1, COV0, STEP)],
                 lambda v, cfg: [("C11", 24, ["--batch", 4, "--cpu", 300])] if cfg is STEP else 40 if v.arm else 300, 20, guided=8, guided_cfg=COV1)


def C12():
    c = Check("C12", "Lengths at 2^16, 2^17, 2^18, 2^20, 2^22, 2^24 +- 100 of every input, processed completely (2^16 and 2^17 only under emulation); lengths at and up to 5000 beyond 2^31 and 2^32, "
                     "cut off after a time (code that lost upper bits of the length returns at once, with a wrong result) or, on the fastest builds and in the thorough tier, processed completely; 2^25 to 2^30 and 2^33 to 2^37, cut off (2^25 to 2^27 completely in the thorough tier). "
                     "Every case is non-trivial.")
    pairs = [(v, LONG) for v in variants(c)]
    cmds = c.build(pairs)
    jobs, heavy = [], []
    until = ["--until", int(c.t0 + 400)] if QUICK else []
    for v, cfg in pairs:
        ops = [0, 1, 2, 4] + [3] * v.has_hash

        def job(arg, n, extra=(), timeout=900):
            return Job(v, cfg, cmds[v.name, cfg.name], "C12", ["--arg", arg, "--cases", n, "--time", 200 if QUICK else 3000, "--batch", 4, "--cpu", 3000] + list(extra), timeout=timeout)
        # well over two minutes for 2^31 bytes
        slow8 = lambda v: any(x in v.name for x in ("bi_8", "opt_8")) or "isapk" in v.name and "ref" in v.name
        slow = any(x in v.name for x in ("ref", "bi_8", "opt_8", "tiny"))
        for op in ops:
            jobs.append(job(32 + op, (4 if v.arm else 3 if slow else 6) * (1 if QUICK else 8)))
            if v.arm and op in (1, 2):
                continue
            if not v.arm:
                jobs.append(job(64 + op, 8 if QUICK else 60))
                if not QUICK:
                    jobs.append(job(128 + op, 6))
            for b in (0, 8):
                if b == 8 and v.arm:
                    continue
                jobs.append(job(b + op, 1 if QUICK else 6))
                # complete runs
                fast = "opt_64" in v.name and "compact" not in v.name or v.target == "avx512"
                if v.arm or (slow and op == 1):
                    continue
                if QUICK and b == 0 and not slow8(v) and (op == 2 or op == 3 and not fast or op == 0 and v.name.endswith("ref")):
                    heavy.append(job(16 + op, 1, until))
                    continue
                if (QUICK and fast and b == 8 and (op in (0, 3) or op == 4 and "128av20" in v.name)) or not QUICK and (b == 8 or fast):
                    heavy.append(job(b + 16 + op, 1, until, timeout=6000))
    # a complete encryption needs the memory for its output
    mem = [j for j in heavy if int(j.args[1]) & 7 == 2]
    light = [j for j in heavy if int(j.args[1]) & 7 != 2]
    c.run(jobs + light)
    c.run(mem, workers=8 if QUICK else 4)
    c.finish(300)


def C13():
    def pairs(c):
        vs = variants(c)
        cfgs = CFG13 if QUICK else CFG13 + MORE13
        return [(v, cfg) for cfg in cfgs for v in vs if cfg.only(v)]
    engine_check("C13", "The cases of C01, C02, C03 and C08, on builds with other compilers, optimisation levels, targets and switches. Non-trivial as there.",
                 pairs, lambda v, cfg: 150 if v.arm or "arm" in cfg.name else 900, 15)


def C14():
    engine_check("C14", "Sixteen wrong tags at 1-3 bits from the right one and sixteen random ones, under random keys.",
                 lambda c: [(v, cfg) for v in variants(c, lambda v: v.stp) for cfg in (COV1, COV0, STEP)],
                 lambda v, cfg: [("C14", 8, ["--cpu", 300])] if cfg is STEP else 10 if v.arm else 100, 25, minimum=10)


def C15():
    engine_check("C15", "An encryption, decryption (genuine or forged) or hash called with generated values in all registers that hold no argument, and interrupted at up to 31 drawn instructions of the code under test "
                 "(first or later execution); the interrupt overwrites 1 KiB below the stack pointer and, in a third of the cases, makes another call of the library with other data. Non-trivial: at least one interrupt took place.",
                 lambda c: [(v, CONV) for v in variants(c)],
                 lambda v, cfg: 500 if v.arm else 20000, 30)


def C16():
    engine_check("C16", "Stack high-water mark (painted stack) and heap use of a call with long inputs against the maximum over all short lengths. Non-trivial: an input longer than 2100 bytes.",
                 lambda c: [(v, KAT) for v in variants(c)],
                 lambda v, cfg: [("C16", 40 if v.arm else 300, [])] + [("C16h", 40 if v.arm else 300, [])] * v.has_hash, 25, minimum=200)


def main(prop):
    f = globals().get(prop)
    if not f or not prop.startswith("C"):
        print("unknown property", prop, file=sys.stderr)
        sys.exit(2)
    f()
