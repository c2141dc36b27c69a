"""Finds the implementations in /repo's working tree and builds them together with the harness.

Nothing here names an implementation: directories, sources and build targets are discovered the way
tests/test_all.sh and the README use them, so added, moved or split source files are picked up."""
import bisect, glob, hashlib, os, re, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, "build"))
CORES = os.cpu_count() or 4

ALGS = {"isapa128av20": 0, "isapa128v20": 1, "isapk128av20": 2, "isapk128v20": 3}


class BuildError(Exception):
    pass


class Variant:
    """One implementation of one instance, as a user would compile it."""

    def __init__(self, name, dir, alg, target, sources, flags, has_aead=True, has_hash=False, stp=False):
        self.name, self.dir, self.alg, self.target = name, dir, alg, target
        self.sources, self.flags = sources, flags
        self.has_aead, self.has_hash, self.stp = has_aead, has_hash, stp

    @property
    def arm(self):
        return self.target.startswith("arm")

    def __repr__(self):
        return self.name


TARGETS = {
    "x86": (["gcc"], []),
    "avx512": (["gcc", "-march=x86-64-v4"], []),
    "armv6": (["arm-linux-gnueabi-gcc", "-march=armv6", "-marm"], ["qemu-arm"]),
    # qemu-arm runs no M-profile code: the Cortex-M variants are built as ARMv7-A Thumb-2
    "armv7": (["arm-linux-gnueabi-gcc", "-march=armv7-a", "-mthumb"], ["qemu-arm"]),
}


def have_avx512():
    try:
        fl = re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split()
    except Exception:
        return False
    return all(f in fl for f in ("avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512cd"))


def discover():
    out = []
    for d in sorted(glob.glob(os.path.join(REPO, "crypto_aead*/*/*/"))):
        d = d.rstrip("/")
        rel = os.path.relpath(d, REPO)
        top, algname, impl = rel.split("/")
        if algname == "isapxv20":
            srcs = sorted(glob.glob(d + "/*.c") + glob.glob(d + "/lib/*/*.c"))
            if not srcs:
                continue
            for size, perm, alg in (("ISAP128A", "ASCON", "isapa128av20"), ("ISAP128", "ASCON", "isapa128v20"),
                                    ("ISAP128A", "KECCAKP400", "isapk128av20"), ("ISAP128", "KECCAKP400", "isapk128v20")):
                out.append(Variant(f"{rel}:{alg}", d, ALGS[alg], "x86", srcs, ["-D" + size, "-D" + perm, "-DDEBUG=0"]))
            continue
        if algname not in ALGS:
            continue
        srcs = sorted(glob.glob(d + "/*.[csS]"))
        if not srcs:
            continue
        target = "avx512" if "avx" in impl else "armv6" if impl.endswith("_armv6") else "armv7" if "arm" in impl else "x86"
        inc = ["-I" + d, "-I" + os.path.join(REPO, "tests")]
        h = top == "crypto_aead_hash"
        out.append(Variant(rel, d, ALGS[algname], target, srcs, inc + ["-DCRYPTO_AEAD"] + ["-DCRYPTO_HASH"] * h,
                           True, h, "stp" in impl))
    return out


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


_ver = {}
_verlock = threading.Lock()


def version(cc):
    with _verlock:
        if cc not in _ver:
            _ver[cc] = run([cc, "--version"]).stdout
    return _ver[cc]


def treehash(d):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d, followlinks=True):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            try:
                h.update(open(p, "rb").read())
            except OSError:
                pass
    return h.digest()


class Config:
    """How the code under test and the harness are compiled.

    cc      compiler command for the code under test (None: the variant's own target compiler)
    opt     its optimisation and instrumentation flags
    hcc     compiler for the harness (None: the same compiler, no instrumentation)
    hopt    flags for the harness
    link    link flags
    """

    def __init__(self, name, opt=("-O3", "-DNDEBUG"), cc=None, hopt=("-O2",), link=(), harness=("props_core",),
                 runner=None, wrap=("malloc", "calloc", "realloc", "free"), strip_flags=(), lto=False, hcc=None, dynamic=False, step=False):
        self.name, self.opt, self.cc, self.hopt, self.link = name, opt, cc, list(hopt), link
        self.harness, self.runner, self.wrap, self.strip_flags = list(harness), runner, list(wrap), strip_flags
        self.hcc = hcc
        self.dynamic = dynamic          # ARM programs are linked statically otherwise
        self.step = step                # the program comes with a table of its instructions that access memory (harness/step.c)


KAT = Config("kat")


_locks = {}
_locklock = threading.Lock()


def _keylock(k):
    with _locklock:
        return _locks.setdefault(k, threading.Lock())


def compile_obj(cmd, src, tag):
    """Compiles src, reusing an object whose preprocessed text, command and compiler are the same."""
    if src.endswith(".c") or src.endswith(".S"):
        pre = subprocess.run(cmd + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if pre.returncode:
            raise BuildError(f"{' '.join(cmd)} -E {src}\n{pre.stderr.decode(errors='replace')[:2000]}")
        text = pre.stdout
    else:
        text = open(src, "rb").read() + treehash(os.path.dirname(src))
    key = hashlib.sha256(repr((version(cmd[0]), cmd, src)).encode() + text).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    with _keylock(key):
        if not os.path.exists(obj):
            os.makedirs(os.path.dirname(obj), exist_ok=True)
            tmp = obj + f".{os.getpid()}.tmp.o"
            r = run(cmd + ["-c", src, "-o", tmp])
            if r.returncode:
                raise BuildError(f"{' '.join(cmd)} -c {src}\n{r.stdout.decode(errors='replace')[:2000]}")
            os.rename(tmp, obj)
    return obj, key


def has_main(obj):
    r = run(["nm", obj])
    return re.search(rb" [Tt] main$", r.stdout, re.M) is not None


def target_of(v, cfg):
    cc, runner = TARGETS[v.target]
    if cfg.cc is not None:
        cc = cfg.cc(v) if callable(cfg.cc) else cfg.cc
    if cfg.runner is not None:
        runner = cfg.runner(v) if callable(cfg.runner) else cfg.runner
    return list(cc), list(runner)


def build(v, cfg, pool=None):
    """Returns (command prefix to run the program, None) or raises BuildError."""
    cc, runner = target_of(v, cfg)
    opt = list(cfg.opt(v) if callable(cfg.opt) else cfg.opt)
    vflags = [f for f in v.flags if f not in cfg.strip_flags]
    cmd = cc + list(opt) + vflags
    defs = ["-DHAVE_AEAD"] * v.has_aead + ["-DHAVE_HASH"] * v.has_hash + ["-DWRAP_HEAP"] * ("malloc" in cfg.wrap)
    if cfg.hcc is not None:
        hcc = list(cfg.hcc(v))
    else:
        hcc = TARGETS["armv7"][0] if v.arm else ["gcc"]
        if v.arm and "armv6" in " ".join(cc):
            hcc = TARGETS["armv6"][0]
    hcmd = list(hcc) + list(cfg.hopt) + ["-I" + HARN, "-g1"] + defs
    jobs = [(cmd, s, "impl") for s in v.sources]
    jobs += [(hcmd, os.path.join(HARN, f + ".c"), "harn") for f in ["engine", "model", "aead", "patch", "watch"] + cfg.harness]
    jobs += [(hcc + ["-O1"], os.path.join(HARN, f + ".c"), "mark") for f in ("mark_lo", "mark_hi")]
    if pool:
        futs = [pool.submit(compile_obj, *j) for j in jobs]
        res = [f.result() for f in futs]
    else:
        res = [compile_obj(*j) for j in jobs]
    impl = [r for r, j in zip(res, jobs) if j[2] == "impl" and not has_main(r[0])]
    harn = [r for r, j in zip(res, jobs) if j[2] == "harn"]
    lo, hi = res[-2], res[-1]
    objs = harn + [lo] + impl + [hi]
    link = list(cfg.link(v) if callable(cfg.link) else cfg.link)
    if v.arm and not cfg.dynamic:
        link = ["-static"] + link
    wrap = ["-Wl," + ",".join("--wrap=" + w for w in cfg.wrap)] if cfg.wrap else []
    lcmd = cc + [f for f in opt if f.startswith(("-fsanitize=", "-flto", "-O", "-m"))] + [o for o, _ in objs] + wrap + link
    key = hashlib.sha256(repr((lcmd, [k for _, k in objs]) + (TABLES,) * cfg.step).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "exe", re.sub(r"[^A-Za-z0-9_.-]", "_", f"{cfg.name}-{v.name}")[:120] + "-" + key)
    with _keylock(key):
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = f"{exe}.{os.getpid()}.tmp"
            r = run(lcmd + ["-lpthread", "-o", tmp])
            if r.returncode:
                raise BuildError(f"link {exe}\n{r.stdout.decode(errors='replace')[:2000]}")
            if cfg.step:
                access_table(tmp, exe + ".mem", v.arm)
            os.rename(tmp, exe)
    return runner + [exe]


X86 = {r: i + 1 for i, r in enumerate("rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split())}
ARMREG = dict({f"r{i}": i + 1 for i in range(16)}, sb=10, sl=11, fp=12, ip=13, sp=14, lr=15, pc=16)
CONDS = "eq ne cs cc mi pl vs vc hi ls ge lt gt le".split()


TABLES = 2                              # version of what the next function writes


def access_table(exe, out, arm):
    """Every instruction between the two marks, with the registers its memory operand is addressed by."""
    pre = "arm-linux-gnueabi-" if arm else ""
    syms = {}
    for l in run([pre + "nm", exe]).stdout.decode(errors="replace").splitlines():
        f = l.split()
        if len(f) == 3 and f[2] in ("vt_text_lo", "vt_text_hi"):
            syms[f[2]] = int(f[0], 16) & (~1 if arm else ~0)
    lo, hi = syms["vt_text_lo"], syms["vt_text_hi"]
    dis = run([pre + "objdump", "-d", "--no-show-raw-insn", f"--start-address={lo}", f"--stop-address={hi}", exe]).stdout.decode(errors="replace")
    rows = [f"range {lo:x} {hi:x}"]
    ins, pcs = list(rows), []
    modes = []                          # ARM: where code for either instruction set, or data, begins
    if arm:
        for l in run([pre + "nm", "--special-syms", exe]).stdout.decode(errors="replace").splitlines():
            f = l.split()
            if len(f) == 3 and f[2][:2] in ("$a", "$t", "$d"):
                modes.append((int(f[0], 16) & ~1, f[2][1]))
        modes.sort()
    for l in dis.splitlines():
        m = re.match(r"\s*([0-9a-f]+):\s+(\S+)\s*(.*)", l)
        if not m:
            continue
        pc, mn, ops = m.groups()
        if mn.startswith("."):
            continue
        ops = re.split(r"\s[;@#]\s", ops)[0]
        if arm:
            b = i = sh = c = 0
            # a conditional access takes place or not
            if re.match(r"(ldr|str|ldm|stm|push|pop|vld|vst|vpush|vpop)", mn):
                cm = re.match(r"\w+?(" + "|".join(CONDS) + r")(\.[nw]|\.\d+)?$", mn)
                if cm:
                    c = CONDS.index(cm.group(1)) + 1
            mm = re.search(r"\[(\w+)(?:(?::\d+)?(?:, (-?\w+)(?:, lsl #(\d+))?)?)?", ops)
            if mm and mm.group(1) in ARMREG:
                b, i, sh = ARMREG[mm.group(1)], ARMREG.get(mm.group(2) or "", 0), int(mm.group(3) or 0)
            elif re.match(r"(ldm|stm|vldm|vstm)", mn):
                b = ARMREG.get(re.split(r"[!,]", ops)[0].strip(), 0)
            elif re.match(r"v?(push|pop)", mn):
                b = ARMREG["sp"]
            rows.append(f"{pc} {b} {i} {sh} {c}")
            k = bisect.bisect_right(modes, (int(pc, 16), "z")) - 1
            if k >= 0 and modes[k][1] != "d":
                pcs.append((int(pc, 16), modes[k][1]))
        else:
            b = i = sc = 0
            while mn in ("lock", "rep", "repz", "repnz", "notrack", "bnd", "cs", "ds", "data16"):
                mn, _, ops = ops.partition(" ")
            mm = re.search(r"\((%\w+)?(?:,(%\w+)(?:,(\d))?)?\)", ops)
            if mm and not mn.startswith(("lea", "nop", "prefetch")):
                b, sc = X86.get((mm.group(1) or "")[1:], 0), int(mm.group(3) or 1)
                ix = (mm.group(2) or "")[1:]
                i = X86.get(ix, 0) or (32 + int(ix[3:]) % 16 if re.match(r"[xyz]mm\d+$", ix) else 0)
            rows.append(f"{pc} {b} {i} {sc}")
            if mn != "(bad)":
                ins.append(f"{pc} 1")
    # length: 2 and 4 for Thumb, 8 for the four bytes of the other instruction set
    for (pc, mode), nxt in zip(pcs, pcs[1:] + [(hi, "")]):
        if mode == "a":
            ins.append(f"{pc:x} 8")
        elif nxt[0] - pc in (2, 4):     # not where data follows: its length is not known
            ins.append(f"{pc:x} {nxt[0] - pc}")
    with open(out[:-4] + ".ins", "w") as f:
        f.write("\n".join(ins) + "\n")
    with open(out + ".tmp", "w") as f:
        f.write("\n".join(rows) + "\n")
    os.rename(out + ".tmp", out)


def armtrace():
    """Builds the program that runs an ARM program and reads the emulator's log."""
    src = os.path.join(HARN, "armtrace.c")
    hdr = os.path.join(HARN, "weights.h")
    key = hashlib.sha256(open(src, "rb").read() + open(hdr, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "exe", "armtrace-" + key)
    with _keylock(key):
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            subprocess.check_call(["gcc", "-O2", src, "-o", exe + ".tmp"])
            os.rename(exe + ".tmp", exe)
    return exe


def build_all(pairs, optional=()):
    """pairs: [(variant, config)] -> {(variant name, config name): command}; failures in optional configs are returned."""
    out, failed = {}, {}
    inner = ThreadPoolExecutor(CORES)
    # the big Keccak files take longest: start them first
    order = sorted(pairs, key=lambda p: (0 if "isapk" in p[0].name and "opt_64" in p[0].name else 1, p[0].name))

    def one(p):
        v, c = p
        try:
            return p, build(v, c, inner), None
        except BuildError as e:
            return p, None, str(e)
    with ThreadPoolExecutor(max(CORES * 3, 8)) as outer:
        for (v, c), cmd, err in outer.map(one, order):
            if err is None:
                out[v.name, c.name] = cmd
            else:
                failed[v.name, c.name] = err
    inner.shutdown()
    return out, failed
