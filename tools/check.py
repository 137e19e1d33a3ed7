#!/usr/bin/env python3
"""Decides one property: builds the harnesses from /repo's current working tree,
runs them, judges what the monitors recorded, writes evidence/<id>.json.

  tools/check.py C03            (tier from VERIF_TIER, seed from VERIF_SEED)
  tools/check.py --build-only   builds every harness (setup_cmd)

exit 0: held on everything explored; 1: VIOLATION; 2: no answer (build failure,
harness error, out of memory, nothing observed)."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
B = os.environ.get("VT_BUILD", os.path.join(V, "build"))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS  # noqa: E402

JOBS = os.cpu_count() or 4
FLAVORS = {
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-O1 -g1",
    "memcheck": "-O1 -g -fno-omit-frame-pointer -fno-inline-functions -DVT_MEMCHECK",
}
# (the newer of the two race detectors installed)
CXX = {"tsan": "clang++"}
LIBS = "-lrocksdb -lspdlog -lfmt -laio -lpthread -ldl"
CORE_EXCLUDE = re.compile(r"crypto/|dbparser/|sodium")


def gen_config():
    """configure.hpp from its template, with libaio present."""
    d = os.path.join(B, "gen", "sse")
    os.makedirs(d, exist_ok=True)
    text = open(f"{REPO}/lib/include/sse/configure.hpp.in").read()
    text = re.sub(r"#cmakedefine\s+(\w+)(.*)", r"#define \1\2", text)
    p = os.path.join(d, "configure.hpp")
    if not os.path.exists(p) or open(p).read() != text + "\n":
        open(p, "w").write(text + "\n")
    return os.path.join(B, "gen")


def lib_sources():
    text = re.sub(r"#[^\n]*", "", open(f"{REPO}/lib/CMakeLists.txt").read())
    m = re.search(r"add_library\([ \n]*schemes[ \n][^)]*\)", text)
    return ["lib/" + s for s in re.findall(r"[\w/.-]+\.cpp", m.group(0))]


CRYPTO_SRC = {"utils/db_generator.cpp", "sophos/sophos_common.cpp", "sophos/sophos_client.cpp",
              "sophos/sophos_server.cpp", "diana/diana_common.cpp", "janus/janus_client.cpp",
              "janus/janus_server.cpp", "oceanus/cuckoo.cpp", "pluto/rocksdb_store.cpp"}


RUNNER_SRC = ["lib/sophos/sophos_client_runner.cpp", "lib/sophos/sophos_server_runner.cpp",
              "lib/diana/client_runner.cpp", "lib/diana/server_runner.cpp"]


def gen_protos():
    """The messages (by protoc) and the services (over the stand-in for gRPC)."""
    import protogen
    d = os.path.join(B, "gen", "protos")
    os.makedirs(d, exist_ok=True)
    out = []
    for f in sorted(glob.glob(f"{REPO}/lib/protos/*.proto")):
        stem = os.path.basename(f)[:-len(".proto")]
        text = open(f).read()
        with tempfile.TemporaryDirectory(dir=B) as t:
            r = subprocess.run(["protoc", f"-I{REPO}/lib", f"--cpp_out={t}", f], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise RuntimeError(f"protoc failed: {f}\n{r.stdout[-2000:]}")
            made = {n: open(f"{t}/protos/{n}").read() for n in (f"{stem}.pb.h", f"{stem}.pb.cc")}
        made[f"{stem}.grpc.pb.h"] = protogen.generate(text, stem)
        for n, x in made.items():
            if not os.path.exists(f"{d}/{n}") or open(f"{d}/{n}").read() != x:
                open(f"{d}/{n}", "w").write(x)
        out.append(f"{d}/{stem}.pb.cc")
    return out


def is_crypto_source(s):
    return s[len("lib/"):] in CRYPTO_SRC


def includes(kind):
    inc = [f"-I{REPO}/lib/include", f"-I{B}/gen", f"-I{REPO}/lib", f"-I{B}/gen/sse",
           f"-I{REPO}/lib/include/sse/schemes", f"-I{REPO}/lib/include/sse/runners", f"-I{V}/harness", f"-isystem{V}/shim"]
    return " ".join(inc)


def sha(path, cache={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in cache:
        cache[k] = hashlib.sha1(open(path, "rb").read()).hexdigest()
    return cache[k]


def compile_obj(src, flavor, extra=""):
    """Compiles src (absolute) and returns the object path; cached by content."""
    cmd = (f"{CXX.get(flavor, 'g++')} -std=gnu++17 {FLAVORS[flavor]} -w -fPIC "
           f"-Dnew_table_reader_for_compaction_inputs=is_fd_close_on_exec "
           f"-DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL {includes('')} {extra}")
    name = hashlib.sha1((src + cmd).encode()).hexdigest()[:12] + "_" + os.path.basename(src)
    d = os.path.join(B, "obj", flavor)
    os.makedirs(d, exist_ok=True)
    o, stamp = os.path.join(d, name + ".o"), os.path.join(d, name + ".stamp")
    if os.path.exists(o) and os.path.exists(stamp):
        deps = json.load(open(stamp))
        if all(sha(p) == h for p, h in deps.items()):
            return o
    dep = o + ".d"
    r = subprocess.run(f"{cmd} -MD -MF {dep} -c {src} -o {o}", shell=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError(f"compile failed: {src}\n{r.stdout[-4000:]}")
    deps = re.sub(r"\\\n", " ", open(dep).read()).split(":", 1)[1].split()
    deps = {p: sha(p) for p in deps if p.startswith((REPO + "/", V + "/", B + "/gen/"))}
    json.dump(deps, open(stamp, "w"))
    return o


def build(targets):
    """targets: list of (harness source, flavor, options) -> {(src, flavor): binary}"""
    gen_config()
    protos = gen_protos() if any(o.get("rpc") for _, _, o in targets) else []
    jobs = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for src, flavor, o in targets:
            srcs = [(f"{V}/harness/{src}", o.get("cflags", ""))]
            srcs += [(f"{V}/harness/{s}", o.get("cflags", "")) for s in o.get("more", [])]
            for s in lib_sources():
                if o.get("crypto") or not is_crypto_source(s):
                    srcs.append((f"{REPO}/{s}", o.get("libflags", "")))
            for s in o.get("repo_extra", []):
                srcs.append((f"{REPO}/{s}", o.get("libflags", "")))
            if o.get("rpc"):
                srcs += [(f"{REPO}/{s}", "") for s in RUNNER_SRC] + [(s, "") for s in protos]
            if o.get("crypto"):
                for s in sorted(glob.glob(f"{V}/shim/*.cpp")):
                    srcs.append((s, ""))
            jobs[(src, flavor)] = [(s, flavor, fl) for s, fl in srcs]
        # long ones (the harnesses) first
        order = []
        for l in jobs.values():
            order += [x for x in l if x[0].startswith(V)]
        for l in jobs.values():
            order += [x for x in l if not x[0].startswith(V)]
        futs = {}
        for x in order:
            if x not in futs:
                futs[x] = ex.submit(compile_obj, *x)
        bins, links = {}, {}
        for (src, flavor), l in jobs.items():
            objs = [futs[x].result() for x in l]
            o = [t for t in targets if t[0] == src and t[1] == flavor][0][2]
            links[(src, flavor)] = ex.submit(link, src, flavor, objs, o)
        for k, f in links.items():
            bins[k] = f.result()
    return bins


def link(src, flavor, objs, o):
    d = os.path.join(B, "bin")
    os.makedirs(d, exist_ok=True)
    key = hashlib.sha1(("".join(x + sha(x) for x in objs)).encode()).hexdigest()[:12]
    out = os.path.join(d, f"{os.path.splitext(src)[0]}.{flavor}.{key}")
    if os.path.exists(out):
        return out
    for old in glob.glob(os.path.join(d, f"{os.path.splitext(src)[0]}.{flavor}.*")):
        try:
            os.remove(old)
        except OSError:
            pass
    libs = o.get("libs", "") + " " + LIBS + (" -lcrypto -lgmp" if o.get("crypto") else "") + (" -lprotobuf" if o.get("rpc") else "")
    # objects named explicitly except the library's, which go in an archive, so
    # that unused ones are not linked
    main = [x for x in objs if "/harness/" in x or True]
    r = subprocess.run(f"{CXX.get(flavor, 'g++')} {FLAVORS[flavor]} {' '.join(main)} -o {out}.tmp {libs}", shell=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError(f"link failed: {src}\n{r.stdout[-4000:]}")
    os.rename(out + ".tmp", out)
    return out


def frames(text):
    """function names of the frames that lie in the library or a harness"""
    fr = []
    for m in re.finditer(r"^\s+#\d+ (?:0x[0-9a-f]+ (?:in )?)?(.*?) (/\S+?)(?::\d+)*(?: \(|$)", text, re.M):
        fr.append((m.group(1), m.group(2)))
    return fr


def fname(sig):
    """A function's own name: no template arguments, no parameter list."""
    sig = re.sub(r"(?<!operator)\(.*", "", sig.replace("(anonymous namespace)::", ""))
    while re.search(r"<[^<>]*>", sig):
        sig = re.sub(r"<[^<>]*>", "", sig)
    return sig.split()[-1] if sig.split() else sig


def sanitizer_findings(text):
    """-> list of (key, detail) found in a sanitizer log"""
    out = []
    for m in re.finditer(r"ERROR: AddressSanitizer: (\S+).*?(?=\n==\d+==ABORTING|\Z)", text, re.S):
        kind = m.group(1)
        fr = [fname(f) for f, p in frames(m.group(0)) if p.startswith(REPO)]
        out.append((f"asan:{kind}:{fr[0] if fr else '?'}", m.group(0)[:3000]))
    if "ERROR: LeakSanitizer: detected memory leaks" in text:
        t = text[text.index("ERROR: LeakSanitizer"):]
        seen = set()
        for blk in re.split(r"\n(?=(?:Direct|Indirect) leak)", t)[1:]:
            if not blk.startswith("Direct"):
                continue
            fr = [fname(f) for f, p in frames(blk) if p.startswith(REPO)]
            k = f"leak:{fr[0] if fr else '?'}"
            if k not in seen:
                seen.add(k)
                out.append((k, blk[:2000]))
        if not seen:
            out.append(("leak:?", t[:2000]))
    for m in re.finditer(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", text, re.M):
        out.append((f"ubsan:{os.path.basename(m.group(1))}:{re.sub(r'0x[0-9a-f]+|[0-9]+', 'N', m.group(3))[:80]}",
                    m.group(0)))
    for m in re.finditer(r"WARNING: ThreadSanitizer: (.*?) \(pid=\d+\)(.*?)(?==================|\Z)", text, re.S):
        body = m.group(2)
        # the two accesses
        parts = re.split(r"\n  (?=(?:Previous )?(?:atomic )?(?:[Rr]ead|[Ww]rite|Location|Thread|Mutex|As if))", body)
        tops = []
        for ptxt in parts:
            if re.match(r"\s*(?:Previous )?(?:atomic )?(?:read|write) of", ptxt.strip(), re.I):
                fr = frames(ptxt)
                tops.append(next((fname(f) for f, p in fr if p.startswith(REPO)), None))
        names = sorted({t for t in tops if t})
        if not names:
            names = [next((fname(f) for f, p in frames(body) if p.startswith(REPO)), None)]
        if not names[0]:
            # only memory the harness shares with the library's callbacks
            names = [next((fname(f) for f, p in frames(body) if p.startswith(V)), None)]
        if not names[0]:
            continue  # neither the library nor its caller takes part
        out.append((f"tsan:{m.group(1).replace(' ', '-')}:{'|'.join(names)}", m.group(0)[:4000]))
    for m in re.finditer(r"^.*Assertion .* failed\.?$", text, re.M):
        out.append(("assert:" + re.sub(r"\s+", " ", re.sub(r"^.*?(\S+): Assertion|^\S+:\d+: ", r"\1", m.group(0)))[:120],
                    m.group(0)))
    return out


MEMCHECK_KINDS = re.compile(r"^(Conditional jump|Use of uninit|Syscall param|Invalid |Mismatched|Source and dest|Uninitialised byte|"
                            r"Jump to the invalid|Argument )")


def memcheck_findings(text):
    """-> list of (key, detail) found in a valgrind log"""
    out, seen = [], set()
    text = re.sub(r"^==\d+== ?", "", text, flags=re.M)
    for blk in re.split(r"\n\s*\n", text):
        fr = re.findall(r"^\s+(?:at|by) 0x[0-9A-F]+: (.*?) \((?:in )?(\S+?)(?::\d+)?\)$", blk.split("Address 0x")[0], re.M)
        names = [fname(f) for f, p in fr if p.startswith(REPO)]
        head = next((l for l in blk.split("\n") if MEMCHECK_KINDS.search(l)), None)
        if not names or not head:
            continue
        k = f"memcheck:{re.sub(r'[^A-Za-z]+', '-', head)[:60]}:{names[0]}"
        if k not in seen:
            seen.add(k)
            out.append((k, blk[:3000]))
    return out


def run_one(job):
    """One harness process. job: dict(bin, flavor, args, shard, ...)"""
    d = tempfile.mkdtemp(prefix="r", dir=os.path.join(B, "run"))
    out = os.path.join(d, "vt.json")
    env = dict(os.environ)
    env.update({
        "ASAN_OPTIONS": "alloc_dealloc_mismatch=1:detect_leaks=%d:abort_on_error=0:exitcode=66:allocator_may_return_null=0:"
                        "max_allocation_size_mb=4096:detect_stack_use_after_return=1:log_path=%s/san"
                        % (1 if job.get("leaks", True) else 0, d),
        "LSAN_OPTIONS": f"suppressions={V}/tools/lsan.supp:print_suppressions=0:exitcode=67:log_path={d}/san",
        "UBSAN_OPTIONS": f"print_stacktrace=1:halt_on_error=1:exitcode=68:log_path={d}/san",
        "TSAN_OPTIONS": f"suppressions={V}/tools/tsan.supp:halt_on_error=0:exitcode=69:second_deadlock_stack=1:"
                        f"history_size=4:log_path={d}/san",
        "TMPDIR": d,
    })
    os.mkdir(os.path.join(d, "w"))
    pre = []
    if job["flavor"] == "memcheck":
        pre = ["valgrind", "--tool=memcheck", "-q", "--error-exitcode=0", "--leak-check=no", "--num-callers=30", "--fullpath-after=",
               "--fair-sched=try", "--read-inline-info=yes", "--error-limit=no", f"--suppressions={V}/tools/memcheck.supp", f"--log-file={d}/vg.%p"]
    args = pre + [job["bin"], "--out", out, "--dir", os.path.join(d, "w")] + job["args"]
    t0 = time.time()
    timed_out = False
    with open(os.path.join(d, "stdout"), "wb") as so, open(os.path.join(d, "stderr"), "wb") as se:
        p = subprocess.Popen(args, stdout=so, stderr=se, env=env, cwd=os.path.join(d, "w"),
                             start_new_session=True)
        try:
            rc = p.wait(timeout=job.get("timeout", 600))
        except subprocess.TimeoutExpired:
            timed_out = True
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    txt = ""
    for f in sorted(glob.glob(os.path.join(d, "san*"))):
        txt += open(f, errors="replace").read() + "\n"
    err = open(os.path.join(d, "stderr"), errors="replace").read()
    vg = "".join(open(f, errors="replace").read() + "\n" for f in sorted(glob.glob(os.path.join(d, "vg.*"))))
    res = None
    try:
        res = json.load(open(out))
    except Exception:
        pass
    case = ""
    try:
        case = open(out + ".case", "rb").read().split(b"\0")[0].decode(errors="replace")
    except Exception:
        pass
    viol, errors = [], []
    if res:
        viol += [(v["key"], v["detail"], f'{v["index"]}: {v["case"]}') for v in res["violations"]]
    found = sanitizer_findings(txt + "\n" + "\n".join(
        l for l in err.splitlines() if "runtime error" in l or "Assertion" in l))
    found += memcheck_findings(vg)
    viol += [(k, dd, case) for k, dd in found]
    if timed_out:
        errors.append(f"timeout after {job.get('timeout', 600)} s in case {case}")
    elif rc not in (0, 1, 3, 4):
        if not found and not (res and res["violations"]):
            if rc == -9:
                errors.append("killed (out of memory?)")
            elif rc is not None and rc < 0:
                viol.append((f"crash:signal{-rc}", f"harness died of signal {-rc}; stderr: {err[-1500:]}", case))
            else:
                errors.append(f"exit {rc}: {err[-1500:]} {txt[-1500:]}")
    elif not res or (rc == 0 and not res["complete"]):
        errors.append(f"exit {rc} without a complete result file: {err[-500:]} {vg[-1500:]}")
    job = dict(job)
    job.update(rc=rc, res=res, viol=viol, errors=errors, wall=time.time() - t0, cmd=" ".join(args))
    shutil.rmtree(d, ignore_errors=True)
    return job


def load_known():
    out = []
    p = os.path.join(V, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m:
            out.append(dict(property=m.group(1), key=m.group(2), what=m.group(3)))
    return out


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(B, "run"), exist_ok=True)
    targets, seen = [], set()
    for r in c["runs"]:
        if tier not in r.get("tiers", ("quick", "thorough")):
            continue
        k = (r["src"], r.get("flavor", "asan"))
        if k not in seen:
            seen.add(k)
            targets.append((k[0], k[1], r.get("opts", {})))
    try:
        bins = build(targets)
    except RuntimeError as e:
        print(f"ERROR property={prop}: {e}")
        return 2
    tb = time.time() - t0
    jobs = []
    for r in c["runs"]:
        if tier not in r.get("tiers", ("quick", "thorough")):
            continue
        shards = r.get("shards", 1)
        for s in range(shards):
            a = ["--seed", str(seed), "--shard", str(s), "--shards", str(shards)]
            if r.get("mode"):
                a += ["--mode", r["mode"]]
            if tier == "thorough":
                a += ["--thorough"]
            n = r.get(tier)
            if n is not None:
                a += ["--cases", str(n)]
            a += r.get("args", [])
            jobs.append(dict(bin=bins[(r["src"], r.get("flavor", "asan"))], flavor=r.get("flavor", "asan"),
                             args=a, mode=r.get("mode", ""), leaks=r.get("leaks", True), src=r["src"],
                             timeout=r.get("timeout", 500 if tier == "quick" else 3000),
                             weight=r.get("weight", 1)))
    par = c.get("parallel", JOBS)
    with cf.ThreadPoolExecutor(par) as ex:
        done = list(ex.map(run_one, jobs))
    # a timeout is inconclusive: run it once more, alone
    for i, j in enumerate(done):
        if j["errors"] and not j["viol"] and any("timeout" in e or "killed" in e for e in j["errors"]):
            done[i] = run_one(jobs[i])
    if os.environ.get("VT_TIMES"):
        for j in sorted(done, key=lambda j: -j["wall"])[:25]:
            print(f'{j["wall"]:.1f}s {j["src"]} {j["mode"]} {j["flavor"]}', file=sys.stderr)
    ev, dist, counters, maxima, samples = 0, set(), {}, {}, []
    viol, errors = [], []
    for j in done:
        if j["res"]:
            ev += j["res"]["evaluations"]
            dist |= {j["mode"] + ":" + h for h in j["res"]["distinct_hashes"]}
            for k, n in j["res"]["counters"].items():
                k = k if not j["mode"] else f'{j["mode"]}.{k}'
                counters[k] = counters.get(k, 0) + n
            for k, n in j["res"]["maxima"].items():
                k = k if not j["mode"] else f'{j["mode"]}.{k}'
                maxima[k] = max(maxima.get(k, 0), n)
            samples += j["res"]["samples"][:2]
        viol += [(k, d, cs, j) for k, d, cs in j["viol"]]
        errors += [f'{j["src"]} {j["mode"]}: {e}' for e in j["errors"]]
    known = load_known()
    pre, only, others = c.get("ignore_keys"), c.get("only_keys"), {}
    bad, kf = {}, {}
    for k, d, cs, j in viol:
        if pre and re.search(pre, k):
            continue
        if only and not re.search(only, k):
            others[k] = others.get(k, 0) + 1
            continue
        m = next((x for x in known if x["property"] == prop and x["key"] == k.replace(" ", "_")), None)
        if m:
            kf[m["key"]] = m
        else:
            bad.setdefault(k, (d, cs, j))
    for k in c.get("must", []):
        if not bad and not errors and not any(counters.get(x, 0) for x in k.split("|")):
            errors.append(f"nothing observed: counter {k} is zero")
    if ev == 0 and not bad and not errors:
        errors.append("nothing evaluated")
    rd = os.path.join(V, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    for f in glob.glob(os.path.join(rd, prop + "-*")):
        os.remove(f)
    lines = []
    for n, (k, (d, cs, j)) in enumerate(sorted(bad.items())):
        rp = os.path.join(rd, f"{prop}-{n}.txt")
        with open(rp, "w") as f:
            f.write(f"property: {prop}\nkey: {k}\ncase: {cs}\nseed: {seed}\n"
                    f"replay: tools/check.py {prop}   (or: {j['cmd']} --case <index>)\n\n{d}\n")
        lines.append(f"VIOLATION property={prop} replay={os.path.relpath(rp, V)} key={k}")
    json.dump(dict(property=prop, tier=tier, seed=seed, level="exploration",
                   coverage=dict(evaluations=ev, distinct_nontrivial=len(dist), rule=c["rule"],
                                 samples=samples[:8] or ["(none)"],
                                 observed=dict(sorted(counters.items())), maxima=dict(sorted(maxima.items())),
                                 processes=len(done), sanitizers=sorted({j["flavor"] for j in done}),
                                 build_s=round(tb, 1), errors=errors[:5],
                                 findings_about_other_properties=sorted(others),
                                 known_findings=sorted(kf)),
                   assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 1),
                   violations=len(bad)),
              open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for x in known:
        if x["property"] == prop and x["key"] in kf:
            print(f'KNOWN-FINDING: property={prop} {x["what"]}')
    for l in lines:
        print(l)
    if bad:
        for k, (d, cs, j) in sorted(bad.items()):
            print(f"--- {k}\n    case {cs}\n    {d[:1500]}")
        return 1
    if errors:
        for e in errors:
            print(f"ERROR property={prop}: {e}")
        return 2
    print(f"OK property={prop} tier={tier} seed={seed} evaluations={ev} distinct={len(dist)} "
          f"processes={len(done)} wall={time.time() - t0:.1f}s (build {tb:.1f}s)")
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build-only":
        targets, seen = [], set()
        for p in CHECKS:
            for r in CHECKS[p]["runs"]:
                k = (r["src"], r.get("flavor", "asan"))
                if k not in seen:
                    seen.add(k)
                    targets.append((k[0], k[1], r.get("opts", {})))
        try:
            build(targets)
        except RuntimeError as e:
            print(e)
            return 1
        print(f"built {len(targets)} harnesses")
        return 0
    rc = 0
    for p in a:
        rc = max(rc, check(p))
    return rc


if __name__ == "__main__":
    sys.exit(main())
