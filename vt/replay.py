import gzip, json, os, subprocess, sys
from . import build as B


def replay(path):
    from . import checks
    d = json.load(open(path))
    vs = {v.name: v for v in B.discover()}
    if d["how"] == "custom":
        print("replay data:", json.dumps(d["data"], indent=1))
        return 0
    v, cfg = vs[d["variant"]], checks.CONFIGS[d["config"]]
    cmd = B.build(v, cfg)
    if d["how"] == "fuzz":
        import binascii, tempfile
        f = tempfile.NamedTemporaryFile(delete=False)
        f.write(binascii.unhexlify(d["data"]))
        f.close()
        env = dict(os.environ, FUZZ_PROP=d["prop"], FUZZ_ALG=str(v.alg), FUZZ_VERBOSE="1")
        r = subprocess.run(cmd + [f.name], env=env)
        os.unlink(f.name)
        return 1 if r.returncode else 0
    args = ["--prop", d["prop"], "--variant", d["label"], "--alg", str(v.alg), "--slow", "1" if v.arm else "0", "--seed", str(d["seed"])]
    keep = d["args"]
    for o in ("--arg", "--cpu", "--walk", "--guided"):
        if o in keep:
            args += [o, keep[keep.index(o) + 1]]
    if d["how"] == "range":
        args += ["--range", d["range"]]
    else:
        args += ["--replay", d["choices"]]
    return subprocess.run(cmd + args).returncode


def setup():
    """Builds the model and compares it with the official test vectors kept in kat/."""
    os.makedirs(B.BUILD, exist_ok=True)
    exe = os.path.join(B.BUILD, "modelkat")
    subprocess.check_call(["gcc", "-O2", os.path.join(B.HARN, "model.c"), os.path.join(B.HARN, "modelkat.c"), "-o", exe])
    bad = 0
    for name, arg in [(n, str(i)) for n, i in B.ALGS.items()] + [("hash", "hash")]:
        want = gzip.open(os.path.join(B.VERIF, "kat", name + ".txt.gz")).read().split()
        got = subprocess.run([exe, arg], stdout=subprocess.PIPE).stdout.split()
        ok = want == got
        print("model", name, "agrees with the official vectors" if ok else "DISAGREES")
        bad += not ok
    return 1 if bad else 0
