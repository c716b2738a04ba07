"""Driver for the runtime monitors: builds a harness from /repo's working tree, runs it in
shards, collects what the monitors observed, compares against the known findings and writes
the evidence file.  Standard library only."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 8
LIB = ["Biquad", "Butterworth", "Cascade", "ChebyshevI", "ChebyshevII", "Custom", "PoleFilter", "RBJ"]
REG = ["reg"] + ["reg_%s%s" % (f, k) for f in ("B", "C1", "C2") for k in "abc"]

VARIANTS = {
    # as the library is normally built (RelWithDebInfo)
    "plain": ("g++", "-std=c++17 -O2 -g -DNDEBUG", ""),
    "plain_ndbg": ("g++", "-std=c++17 -O2 -DNDEBUG", ""),
    # without -DNDEBUG and at -O1: cheap to compile
    "o1": ("g++", "-std=c++17 -O1", ""),
    "o0": ("g++", "-std=c++17 -O0 -g", ""),
    "vg": ("g++", "-std=c++17 -O1 -g -DVF_VALGRIND=1", ""),
    "gasan": ("g++", "-std=c++17 -O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined "
              "-fsanitize=float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -DVF_ASAN=1", ""),
    "casan": ("clang++", "-std=c++17 -O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow "
              "-fno-sanitize-recover=all -fsanitize-address-use-after-return=always -D_GLIBCXX_ASSERTIONS -DVF_ASAN=1", ""),
    "msan": ("clang++", "-std=c++17 -O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins=2 "
             "-D_GLIBCXX_EXTERN_TEMPLATE=0 -DVF_MSAN=1", ""),
    "tsan": ("g++", "-std=c++17 -O1 -g -fsanitize=thread -DVF_TSAN=1", "-pthread"),
    "ctsan": ("clang++", "-std=c++17 -O1 -g -fsanitize=thread -DVF_TSAN=1", "-pthread"),
    "noexc": ("g++", "-std=c++17 -O1 -g -DIIR1_NO_EXCEPTIONS -fno-exceptions -DVF_NOEXC=1", ""),
    "zinit": ("g++", "-std=c++17 -O1 -ftrivial-auto-var-init=zero", ""),
    "pinit": ("g++", "-std=c++17 -O1 -ftrivial-auto-var-init=pattern", ""),
    "cov": ("g++", "-std=c++17 -O1 -fsanitize-coverage=trace-pc -DVF_COV=1", "-Wl,-z,now"),
    "coverage": ("g++", "-std=c++17 -O0 -g --coverage", "--coverage"),
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:detect_invalid_pointer_pairs=2:"
                    "strict_init_order=1:check_initialization_order=1:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=203:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "MSAN_OPTIONS": "exitcode=99:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:second_deadlock_stack=1:history_size=4",
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


_tree = {}


def tree_hash():
    """content of every header that a translation unit may include"""
    if "h" not in _tree:
        parts = []
        for base in (os.path.join(REPO, "iir"), HARN):
            for n in sorted(os.listdir(base)):
                if n.endswith(".h"):
                    parts += [n, read(os.path.join(base, n))]
        parts.append(read(os.path.join(REPO, "Iir.h")))
        _tree["h"] = sha(*parts)
    return _tree["h"]


def compile_one(src, variant, extra=""):
    cxx, flags, _ = VARIANTS[variant]
    cmd = [cxx] + flags.split() + extra.split() + ["-I", REPO, "-I", os.path.join(REPO, "iir"), "-I", HARN]
    key = sha(" ".join(cmd), src, read(src), tree_hash())
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, os.path.basename(src)[:-4] + "-" + variant + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp.o" % os.getpid()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("%s\n%s" % (" ".join(cmd + ["-c", src]), r.stdout.decode(errors="replace")[-6000:]))
        os.replace(tmp, obj)
    return obj


def lib_sources():
    """the library's translation units: whatever .cpp files are in /repo/iir"""
    d = os.path.join(REPO, "iir")
    return [os.path.join(d, n) for n in sorted(os.listdir(d)) if n.endswith(".cpp")]


def build(name, sources, variant, reg=False, extra="", link="", lib_variant=None, prog_extra=""):
    """sources: harness files (without .cpp).  Returns the path of the program."""
    harn = [os.path.join(HARN, s + ".cpp") for s in sources]
    if reg:
        harn += [os.path.join(HARN, s + ".cpp") for s in REG]
    jobs = [(s, variant, (extra + " " + prog_extra).strip()) for s in harn] + [(s, variant, extra) for s in lib_sources()]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    cxx, flags, lflags = VARIANTS[variant]
    key = sha(link, *objs)
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, name + "-" + variant + "-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = [cxx] + flags.split() + objs + lflags.split() + link.split() + ["-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
        os.replace(tmp, exe)
    return exe


def read_status(path):
    try:
        b = read(path)
        _, case, done, part, desc = struct.unpack_from("<8sQQ64s1024s", b)
        z = lambda s: s.split(b"\0")[0].decode(errors="replace")
        return dict(case=case, done=done, part=z(part), desc=z(desc))
    except Exception:
        return dict(case=-1, done=0, part="?", desc="")


def crash_key(err):
    m = re.search(r"SUMMARY: (\w+): (\S+)", err)
    if m:
        return "%s:%s" % (m.group(1), m.group(2))
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "UBSan:" + re.sub(r"[^a-z]+", "-", m.group(1).lower())[:50]
    return None


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.viol = []      # dict(key, msg, replay info)
        self.counts, self.maxima = {}, {}
        self.samples, self.hashes = [], set()
        self.evals = 0
        self.assumptions = []
        self.notes = {}
        self.replaying = False
        self.work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.deadline = self.t0 + (820 if tier == "quick" else 12 * 3600)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add(self, key, msg, **info):
        self.viol.append(dict(key=key, msg=msg, **info))

    def one(self, label, cmd, i, n, args, env, timeout):
        out = os.path.join(self.work, "%s-%d.out" % (label, i))
        st = os.path.join(self.work, "%s-%d.status" % (label, i))
        for p in (out, st):
            if os.path.exists(p):
                os.unlink(p)
        full = cmd + ["--seed", str(self.seed), "--tier", self.tier, "--shard", "%d/%d" % (i, n),
                      "--out", out, "--status", st] + args
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(env or {})
        so = open(os.path.join(self.work, "%s-%d.stdout" % (label, i)), "w+b")
        se = open(os.path.join(self.work, "%s-%d.stderr" % (label, i)), "w+b")
        try:
            r = subprocess.run(full, stdout=so, stderr=se, stdin=subprocess.DEVNULL, env=e, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        so.seek(0); se.seek(0)
        stdout, stderr = so.read().decode(errors="replace"), se.read().decode(errors="replace")
        so.close(); se.close()
        return full, rc, stdout, stderr, read_status(st), out

    def run(self, label, exe, shards=None, args=(), env=None, wrapper=(), timeout=None, key_prefix="", crash_ok=False):
        """Runs all shards of a harness and collects the verdicts of its monitors."""
        n = shards or JOBS
        left = max(30, self.deadline - time.time())
        timeout = min(timeout or left, left)
        cmd = list(wrapper) + [exe]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda i: self.one(label, cmd, i, n, list(args), env, timeout), range(n)))
        for i, (full, rc, so, se, st, out) in enumerate(res):
            if rc == 97 or rc == "timeout":
                # a case that used up its CPU time: repeat that shard to be sure
                full, rc2, so, se, st, out = self.one(label, cmd, i, n, list(args), env, timeout)
                if rc2 not in (97, "timeout"):
                    rc = rc2
                elif rc == 97 and rc2 == 97:
                    self.add(key_prefix + "hang", "a single case did not finish in its CPU time limit: part %s case %s %s"
                             % (st["part"], st["case"], st["desc"]), run=label, exe=os.path.basename(exe), **{"part": st["part"], "case": st["case"]})
                    continue
                else:
                    raise RuntimeError("%s did not finish in time" % label)
            done = False
            if os.path.exists(out):
                with open(out) as f:
                    for line in f:
                        p = line.rstrip("\n").split("\t")
                        if p[0] == "evaluations": self.evals += int(p[1])
                        elif p[0] == "count": self.counts[label + "." + p[1]] = self.counts.get(label + "." + p[1], 0) + int(p[2])
                        elif p[0] == "max":
                            k = label + "." + p[1]
                            self.maxima[k] = max(self.maxima.get(k, float("-inf")), float(p[2]))
                        elif p[0] == "sample":
                            if len(self.samples) < 12: self.samples.append(p[1])
                        elif p[0] == "h": self.hashes.add(p[1])
                        elif p[0] == "done": done = True
            nv = 0
            for line in so.splitlines():
                if line.startswith("VF_VIOLATION\t"):
                    p = line.split("\t")
                    nv += 1
                    self.add(key_prefix + p[1], p[4] if len(p) > 4 else "", run=label, part=p[2], case=int(p[3]), exe=os.path.basename(exe))
            if rc not in (0, 1) or not done:
                if rc == 2 and not st["part"]:
                    raise RuntimeError("harness usage error: %s %s" % (full, se[-500:]))
                if isinstance(rc, int) and rc == -9:
                    raise RuntimeError("%s was killed" % label)
                k = crash_key(se) or ("signal%d" % -rc if isinstance(rc, int) and rc < 0 else "exit%s" % rc)
                self.add(key_prefix + "crash:" + k, "process ended with %s in part %s case %s: %s | %s"
                         % (rc, st["part"], st["case"], st["desc"], " ".join(se[-4000:].split())[:3000]),
                         run=label, part=st["part"], case=st["case"], exe=os.path.basename(exe))
            elif rc == 1 and not nv:
                self.add(key_prefix + "unknown", "harness reported failure without a message", run=label, part="?", case=-1)

    def known(self):
        out = []
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self, rule, level="exploration", extra=None):
        if not self.viol and (self.evals == 0 or not self.hashes) and not self.replaying:
            raise RuntimeError("the monitors observed nothing")
        known = dict(self.known())
        hit, new = {}, []
        for v in self.viol:
            if v["key"] in known: hit.setdefault(v["key"], v)
            else: new.append(v)
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.hashes), rule=rule, samples=self.samples or ["none"],
                   observed={k: v for k, v in sorted(self.counts.items())},
                   maxima={k: v for k, v in sorted(self.maxima.items())})
        cov.update(self.notes)
        if extra: cov.update(extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        for k in sorted(hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
        rc = 0
        if new:
            rc = 1
            rp = os.path.join(VERIF, "replays")
            os.makedirs(rp, exist_ok=True)
            rf = os.path.join(rp, "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
            with open(rf, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, violations=new[:200],
                               replay="bin/check %s --tier %s --seed %d --only RUN:PART:CASE" % (self.pid, self.tier, self.seed)), f, indent=1)
            seen = set()
            for v in new:
                if v["key"] in seen: continue
                seen.add(v["key"])
                if len(seen) <= 12:
                    print("  %s [%s %s #%s] %s" % (v["key"], v.get("run", ""), v.get("part", ""), v.get("case", ""), v["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rf))
        else:
            print("%s: held on %d cases, %d distinct (%.1f s)" % (self.pid, self.evals, len(self.hashes), time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        return rc


def prune():
    """old objects and programs"""
    for sub in ("obj", "bin"):
        d = os.path.join(BUILD, sub)
        if not os.path.isdir(d): continue
        fs = sorted(((os.path.getmtime(os.path.join(d, n)), n) for n in os.listdir(d)), reverse=True)
        keep = 900 if sub == "obj" else 80
        for _, n in fs[keep:]:
            try: os.unlink(os.path.join(d, n))
            except OSError: pass
