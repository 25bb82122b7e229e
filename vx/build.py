"""Builds the MIR driver and dumps the MIR of the witness crate against /repo's working tree."""
import fcntl, json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
REPO = "/repo"
OWN = ["crabslab", "crabslab-derive", "craballoc", "witness"]

class BuildError(Exception):
    pass

def sh(cmd, env=None, cwd=None, timeout=850):
    e = dict(os.environ)
    e.update(env or {})
    e.pop("RUSTC_WRAPPER", None)
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout

_sysroot = None
def sysroot():
    global _sysroot
    if _sysroot is None:
        rc, out = sh(["rustc", "+nightly", "--print", "sysroot"])
        if rc: raise BuildError("no nightly toolchain: " + out)
        _sysroot = out.strip()
    return _sysroot

def driver():
    src = os.path.join(ROOT, "driver", "main.rs")
    exe = os.path.join(BUILD, "driver")
    stamp = exe + ".src"
    text = open(src).read()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == text:
        return exe
    os.makedirs(BUILD, exist_ok=True)
    rc, out = sh(["rustc", "+nightly", "-O", "--edition", "2021", "--cap-lints", "allow", src, "-o", exe])
    if rc: raise BuildError("driver does not build:\n" + out[-4000:])
    open(stamp, "w").write(text)
    return exe

def environment(kind, out_dir):
    return {
        "RUSTC_WORKSPACE_WRAPPER": driver(), "VERIF_DUMP": out_dir, "VERIF_CRATE": "witness",
        "LD_LIBRARY_PATH": sysroot() + "/lib", "CARGO_TARGET_DIR": os.path.join(BUILD, "target-" + kind),
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums --cap-lints allow", "CARGO_NET_OFFLINE": "true",
    }
WITNESS = os.path.join(ROOT, "witness")
def features(kind): return ["--features", "alloc"] if kind == "alloc" else []

class Dump(str):
    """The directory of a dump, with the parts of the witness crate that did not compile."""
    rejected = ()

def dump(kind):
    """Dumps the witness crate; returns the directory of the dump. kind: core, alloc."""
    out_dir = os.path.join(BUILD, "dump-" + kind)
    target = os.path.join(BUILD, "target-" + kind)
    env = environment(kind, out_dir)
    wit = WITNESS
    # never trust file times: the crates under analysis are always compiled anew
    args = [x for p in OWN for x in ("-p", p)]
    feats = features(kind)
    if os.path.isdir(target):
        sh(["cargo", "+nightly", "clean", "--offline"] + args, env=env, cwd=wit)
    rejected = {}
    while True:
        shutil.rmtree(out_dir, ignore_errors=True)
        env["VERIF_CFG"] = " ".join("skip_" + g for g in sorted(rejected))
        rc, out = sh(["cargo", "+nightly", "check", "--offline", "--lib", "--message-format=short"] + feats, env=env, cwd=wit)
        if rc == 0 and os.path.exists(os.path.join(out_dir, "index.json")): break
        # leave out the groups of deriving types that the errors are in, and try again
        new = {}
        for l in out.split("\n"):
            m = re.match(r"src/derived/(\w+)\.rs:(\d+):\d+: error(.*)", l)
            if m and m.group(1) not in rejected: new.setdefault(m.group(1), []).append("witness/src/derived/%s.rs:%s: error%s" % m.groups())
        if not new: raise BuildError("the entry points do not compile against /repo:\n" + out[-6000:])
        rejected.update(new)
        sh(["cargo", "+nightly", "clean", "--offline", "-p", "witness"], env=env, cwd=wit)
    d = Dump(out_dir)
    d.rejected = rejected
    return d

def dump_spirv():
    """Dumps the witness crate and the library as configured for a shader: target_arch = "spirv", with a stand-in for spirv-std.
    Cargo cannot set the configuration for these crates alone, so the compiler is called directly."""
    core = dumped("core")
    env = environment("core", os.path.join(BUILD, "dump-core"))
    rc, out = sh(["cargo", "+nightly", "check", "--offline", "--lib", "--message-format=json"], env=env, cwd=WITNESS)
    libs = {}
    for l in out.split("\n"):
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("reason") != "compiler-artifact": continue
        for f in m["filenames"]:
            if f.endswith((".rmeta", ".so")): libs[m["target"]["name"].replace("-", "_")] = f
    tmp, out_dir = os.path.join(BUILD, "spirv"), os.path.join(BUILD, "dump-spirv")
    for d in (tmp, out_dir):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    e = dict(env, VERIF_DUMP=out_dir)
    flags = env["RUSTFLAGS"].split() + ["--edition", "2021", "--emit=metadata", "--crate-type", "lib", "--out-dir", tmp, "-C", "debug-assertions=on", "-C", "overflow-checks=on"]
    gpu = ["--cfg", 'target_arch="spirv"', "--cfg", 'feature="glam"', "-Aexplicit_builtin_cfgs_in_flags"]
    ext = lambda *ns: [x for n in ns for x in ("--extern", "%s=%s" % (n, os.path.join(tmp, "lib%s.rmeta" % n) if n in ("spirv_std", "crabslab") else libs.get(n, "")))]
    deps = [x for d in [tmp] + sorted({os.path.dirname(f) for f in libs.values()}) for x in ("-L", "dependency=" + d)]
    rc, out = sh(["rustc", "+nightly"] + flags + ["--crate-name", "spirv_std", os.path.join(WITNESS, "spirv", "spirv_std.rs")], env=e)
    if rc: raise BuildError("stand-in for spirv-std: " + out[-2000:])
    rc, out = sh(["rustc", "+nightly"] + flags + gpu + deps + ext("spirv_std", "glam", "crabslab_derive") + ["--crate-name", "crabslab", os.path.join(REPO, "crates/crabslab/src/lib.rs")], env=e)
    if rc: raise BuildError("the shader configuration does not compile:\n" + out[-4000:])
    for g in core.rejected: gpu += ["--cfg", "skip_" + g]
    rc, out = sh([driver(), os.path.join(sysroot(), "bin", "rustc")] + flags + gpu + deps + ext("crabslab", "glam") + ["--crate-name", "witness", os.path.join(WITNESS, "src", "lib.rs")], env=dict(e, VERIF_CFG=""))
    if rc or not os.path.exists(os.path.join(out_dir, "index.json")): raise BuildError("the entry points do not compile in the shader configuration:\n" + out[-4000:])
    d = Dump(out_dir)
    d.rejected = {}
    return d

def check_witness(kind, cfg):
    """Compiles the witness crate, which was dumped before, with more cfgs; -> (compiled, messages)."""
    out_dir = os.path.join(BUILD, "dump-tmp")
    env = environment(kind, out_dir)
    env["VERIF_CFG"] = cfg
    sh(["cargo", "+nightly", "clean", "--offline", "-p", "witness"], env=env, cwd=WITNESS)
    rc, out = sh(["cargo", "+nightly", "check", "--offline", "--lib", "--message-format=short"] + features(kind), env=env, cwd=WITNESS)
    shutil.rmtree(out_dir, ignore_errors=True)
    return rc == 0, out

def compile_fail(prop, kind):
    """The programs that must not compile: [(name, what, verdict, detail)]; verdict True, False or None."""
    d = dumped(kind)
    skip = " ".join("skip_" + g for g in d.rejected)
    todo = []
    for f in sorted(os.listdir(os.path.join(WITNESS, "src", "fail"))):
        head = open(os.path.join(WITNESS, "src", "fail", f)).readline()
        m = re.match(r"// (\S+) property=(\w+) (?:kind=(\w+) )?(.*)", head)
        if m and m.group(2) == prop and (m.group(3) or "core") == kind: todo.append((f[:-3], m.group(1).split("|"), m.group(4)))
    def verdict(name, codes, out):
        errs = re.findall(r"(?m)^src/fail/%s\.rs:\d+:\d+: (error\[\w+\]|error)(.*)" % name, out)
        hit = [e for e in errs if e[0] in codes]
        return (True, "".join(hit[0])) if hit else (None, "".join(errs[0]) if errs else "")
    res = []
    if not todo: return res
    ok, out = check_witness(kind, "fail_all " + skip)
    for name, codes, what in todo:
        v, why = verdict(name, codes, out)
        if v is None:
            # no error of its own among the others: decide it alone
            ok1, out1 = check_witness(kind, "fail_one fail_%s %s" % (name, skip))
            if ok1: v, why = False, "this program compiles"
            else:
                v, why = verdict(name, codes, out1)
                if v is None: why = "fails for another reason: " + (why or out1[-300:])
        res.append((name, what, v, why))
    return res

NOT_THREADED = r"cannot be (sent|shared)|lifetime may not live|may not live long enough|not general enough"
def compile_pass(prop, kind):
    """The programs that must compile: [(name, what, verdict, detail)]; only an error of the expected kind is a violation."""
    d = dumped(kind)
    skip = " ".join("skip_" + g for g in d.rejected)
    todo = []
    for f in sorted(os.listdir(os.path.join(WITNESS, "src", "pass"))):
        head = open(os.path.join(WITNESS, "src", "pass", f)).readline()
        m = re.match(r"// (\S+) property=(\w+) (?:kind=(\w+) )?(.*)", head)
        if m and m.group(2) == prop and (m.group(3) or "core") == kind: todo.append((f[:-3], m.group(1).split("|"), m.group(4)))
    if not todo: return []
    ok, _ = check_witness(kind, "pass_all " + skip)
    if ok: return [(n, w, True, "this program compiles") for n, c, w in todo]
    res = []
    for name, codes, what in todo:
        ok, out = check_witness(kind, "pass_one pass_%s %s" % (name, skip))
        if ok: res.append((name, what, True, "this program compiles")); continue
        errs = re.findall(r"(?m)^src/pass/%s\.rs:\d+:\d+: (error\[\w+\]|error)(.*)" % name, out)
        hit = [e for e in errs if e[0] in codes and re.search(NOT_THREADED, e[1])]
        res.append((name, what, False, "".join(hit[0])) if hit else (name, what, None, "fails for another reason: " + ("".join(errs[0]) if errs else out[-300:])))
    return res

_done = {}
def dumped(kind):
    """The dump, made once per run."""
    if kind not in _done: _done[kind] = dump_spirv() if kind == "spirv" else dump(kind)
    return _done[kind]

if __name__ == "__main__":
    if sys.argv[1] == "setup":
        driver(); print(dump("core"))
    else: print(dump(sys.argv[1]))
