"""Shared machinery of the checks: build harnesses from /repo, run TLC, validate traces, write evidence."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "gwmodelpp")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)

CORE = ["spatialweight/*.cpp", "BandwidthSelector.cpp", "VariableForwardSelector.cpp", "SpatialAlgorithm.cpp",
        "SpatialMonoscaleAlgorithm.cpp", "SpatialMultiscaleAlgorithm.cpp", "GWRBase.cpp"]


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


MPI_ENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_hwloc_base_binding_policy": "none", "OMPI_MCA_plm": "isolated",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
}


def run_env(extra=None):
    e = dict(os.environ)
    e.update({"OPENBLAS_NUM_THREADS": "1", "OMP_WAIT_POLICY": "passive"})
    e.pop("OMP_NUM_THREADS", None)
    if extra:
        e.update(extra)
    return e


def cxxflags(extra=()):
    mpi = sh(["mpicxx", "--showme:compile"]).stdout.split()
    return ["-std=c++17", "-O1", "-w", "-fopenmp", "-DENABLE_OPENMP", "-DENABLE_MPI", "-DM_PI=3.14159265358979323846",
            "-DM_PI_2=1.57079632679489661923", "-DDOUBLE_EPS=1e-8", "-DDBL_MAX=__DBL_MAX__", "-DARMA_USE_LAPACK",
            "-DARMA_USE_BLAS", "-DARMA_DONT_USE_WRAPPER",
            "-I" + REPO + "/include", "-I" + REPO + "/include/gwmodelpp", "-I" + REPO + "/include/gwmodelpp/utils",
            "-I" + REPO + "/include/gwmodelcuda", "-I" + VERIF + "/harness"] + mpi + list(extra)


def ldflags():
    mpi = sh(["mpicxx", "--showme:link"]).stdout.split()
    return ["-larmadillo", "-llapack", "-lblas", "-lgsl", "-lgslcblas", "-lgomp", "-lpthread"] + mpi


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.spec = os.path.join(self.dir, "spec")
        os.makedirs(self.spec)
        for f in glob.glob(os.path.join(VERIF, "spec", "*")):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(f, self.spec)
        r = sh(["javac", "-cp", TLAJAR, "-d", self.spec] + sorted(glob.glob(os.path.join(VERIF, "spec", "*.java"))))
        if r.returncode:
            raise ToolError("javac failed:\n" + r.stdout)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.rejections = []
        self.design = []
        self.notes = {}
        self.binary = None

    # ---------------------------------------------------------------- build
    def _expand(self, pats):
        out = []
        for p in pats:
            g = sorted(glob.glob(os.path.join(SRC, p)))
            if not g:
                # a source file was renamed or merged: fall back to everything
                return self._all()
            out += g
        return list(dict.fromkeys(out))

    def _all(self):
        out = sorted(glob.glob(os.path.join(SRC, "*.cpp")) + glob.glob(os.path.join(SRC, "spatialweight", "*.cpp")) +
                     glob.glob(os.path.join(SRC, "utils", "*.cpp")))
        skip = ("CudaUtils.cpp", "cumat.cpp")
        return [s for s in out if os.path.basename(s) not in skip]

    def build(self, name, libs, harness, extra=(), ld=None, out=None):
        """Compile the listed library sources of /repo's working tree and the harness, link them."""
        out = out or os.path.join(self.dir, name)
        odir = os.path.join(self.dir, "obj-" + name)
        os.makedirs(odir, exist_ok=True)
        flags = cxxflags(extra)
        hs = [os.path.join(VERIF, "harness", h) for h in harness]

        def cc(src):
            o = os.path.join(odir, hashlib.md5(src.encode()).hexdigest()[:10] + "-" + os.path.basename(src) + ".o")
            if os.path.exists(o):
                return o, None
            r = sh(["g++"] + flags + ["-c", src, "-o", o])
            return o, (r.stdout if r.returncode else None)

        def attempt(sources):
            sources = sorted(sources, key=lambda f: -os.path.getsize(f))
            with ThreadPoolExecutor(NCPU) as ex:
                res = list(ex.map(cc, sources))
            bad = [m for _, m in res if m]
            if bad:
                raise ToolError("compilation failed:\n" + "\n".join(bad)[:1500])
            r = sh(["g++", "-fopenmp", "-o", out] + [o for o, _ in res] + (ld if ld is not None else ldflags()) + list(extra))
            return r

        libsrc = self._expand(libs)
        r = attempt(hs + libsrc)
        if r.returncode:
            r = attempt(hs + self._all())
        if r.returncode:
            raise ToolError("link failed:\n" + r.stdout[:1500])
        self.objdir = odir
        return out

    # ----------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, args=(), workers=1, heap="2500m", timeout=800, cwd=None):
        cwd = cwd or self.spec
        cfg = cfg or module + ".cfg"
        meta = tempfile.mkdtemp(prefix="meta-", dir=self.dir)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-cp", ":".join([self.spec, TLAJAR, CMJAR]), "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-deadlock", "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
        e = run_env(env)
        e["JAVA_TOOL_OPTIONS"] = "-Djava.io.tmpdir=" + meta
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd, env=e,
                               timeout=timeout)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as ex:
            out = ex.stdout.decode() if isinstance(ex.stdout, bytes) else (ex.stdout or "")
            rc = 124
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    @staticmethod
    def counts(out):
        m = None
        for m in re.finditer(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found", out):
            pass
        if not m:
            m2 = re.findall(r"(\d[\d,]*) states checked", out)
            if m2:
                n = int(m2[-1].replace(",", ""))
                return n, n
            return 0, 0
        return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))

    def model_check(self, module, cfg=None, env=None, workers=NCPU, timeout=600, heap="6g", args=()):
        """Exhaustive check of a design model; the design must satisfy its invariants."""
        rc, out = self.tlc(module, cfg, env, workers=workers, timeout=timeout, heap=heap, args=args)
        gen, dist = self.counts(out)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("design model %s (%s) failed, rc=%s\n%s" % (module, cfg, rc, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.design.append({"module": module, "config": cfg or module + ".cfg", "states": dist, "transitions": gen})
        return dist

    def generate(self, module, cfg=None, env=None, args=(), timeout=600, simulate=None, depth=None, heap="4g"):
        """Scenarios (lists of operations) printed by a generator or by a simulated design model."""
        env = dict(env or {})
        env.setdefault("TIER", self.tier)
        env.setdefault("SEED", str(self.seed))
        a = list(args)
        if simulate:
            a += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed * 7919 + 13)]
        rc, out = self.tlc(module, cfg, env, a, timeout=timeout, heap=heap)
        if rc != 0:
            raise ToolError("generator %s failed rc=%s\n%s" % (module, rc, out[-3000:]))
        scn = []
        for line in out.splitlines():
            if line.startswith('"SCN'):
                scn.append(json.loads(json.loads(line)[3:]))
        if not scn:
            raise ToolError("generator %s produced no scenario\n%s" % (module, out[-2000:]))
        gen, dist = self.counts(out)
        self.states += dist
        self.transitions += gen
        return scn

    # ------------------------------------------------------------ scenarios
    @staticmethod
    def _tok(v):
        if isinstance(v, bool):
            return "1" if v else "0"
        if isinstance(v, list):
            if v and isinstance(v[0], list):
                return ";".join(",".join(Ctx._tok(x) for x in r) for r in v)
            return ",".join(Ctx._tok(x) for x in v)
        return str(v)

    @staticmethod
    def to_text(sid, ops):
        lines = ["scn %s" % sid]
        for op in ops:
            lines.append(" ".join([op["op"]] + ["%s=%s" % (k, Ctx._tok(v)) for k, v in op.items() if k != "op"]))
        lines.append("end")
        return "\n".join(lines) + "\n"

    def run_harness(self, binary, shard_txt, out_path, env=None, timeout=600, prefix=()):
        with open(out_path, "w") as fo:
            try:
                r = subprocess.run(list(prefix) + [binary, shard_txt], stdout=fo, stderr=subprocess.PIPE, text=True,
                                   env=run_env(env), timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("harness timed out on " + shard_txt)
        if r.returncode:
            raise ToolError("harness failed rc=%s: %s" % (r.returncode, r.stderr[-2000:]))

    def validate(self, binary, module, scenarios, cfg=None, env=None, tenv=None, shards=None, timeout=700, tag="t",
                 heap="2500m", confirm=True, prefix=(), rounds=1):
        """Replay scenarios into the real code and check every recorded trace against a trace specification.

        scenarios: list of (id, ops). Returns list of rejections {id, l, bad}."""
        shards = shards or NCPU
        shards = max(1, min(shards, len(scenarios)))
        groups = [scenarios[i::shards] for i in range(shards)]

        def one(k):
            txt = os.path.join(self.dir, "%s-%d.txt" % (tag, k))
            with open(txt, "w") as f:
                for sid, ops in groups[k]:
                    f.write(self.to_text(sid, ops))
            nd = os.path.join(self.dir, "%s-%d.ndjson" % (tag, k))
            self.run_harness(binary, txt, nd, env, timeout, prefix)
            return nd

        with ThreadPoolExecutor(shards) as ex:
            nds = list(ex.map(one, range(shards)))
        rej = self.check_traces(module, nds, cfg, tenv, timeout, heap)
        byid = dict(scenarios)
        self.traces += len(scenarios)
        if not self.samples:
            self.samples = [{"scenario": self.to_text(*scenarios[i]).splitlines()[:12]} for i in
                            sorted({0, len(scenarios) // 2, len(scenarios) - 1})]
        if rej and confirm:
            known = self.known()
            fresh = [r["id"] for r in rej if match_known(known, dict(r, ops=byid[r["id"]])) is None]
            old = [r["id"] for r in rej if r["id"] not in set(fresh)]
            ids = list(dict.fromkeys(fresh))[:40] + list(dict.fromkeys(old))[:8]
            for _ in range(rounds):   # what depends on the schedule may take several attempts to come back
                again = self.validate(binary, module, [(i, byid[i]) for i in ids], cfg, env, tenv, shards, timeout,
                                      tag + "-confirm", heap, confirm=False, prefix=prefix)
                if again:
                    break
            self.traces -= len(ids)
            seen = {r["id"] for r in again}
            lost = [i for i in ids if i not in seen]
            if lost:
                self.notes.setdefault("unconfirmed_rejections", []).extend(lost)
            for r in again:
                r["ops"] = byid[r["id"]]
                r["module"] = module
            self.rejections += again
            return again
        return rej

    def check_traces(self, module, nds, cfg=None, tenv=None, timeout=700, heap="2500m"):
        def one(nd):
            e = dict(tenv or {})
            e["TRACE"] = nd
            extra = []
            for _ in range(6):
                rc, out = self.tlc(module, cfg, e, timeout=timeout, heap=heap)
                if rc == 0 or rc == 124:
                    break
                # TLC could not evaluate the specification on one trace (a value of an unforeseen shape):
                # take that trace out, report it as rejected, and check the others.
                m = re.findall(r"/\\ s = (\d+)", out)
                if not m or "is involved" in out:
                    break
                lines = open(nd).read().splitlines()
                k = int(m[-1]) - 1
                if k >= len(lines):
                    break
                extra.append({"id": json.loads(lines[k])["id"], "l": 0, "bad": ["trace not evaluable by the specification"],
                              "tlc": out[-1500:]})
                del lines[k]
                with open(nd, "w") as f:
                    f.write("".join(x + "\n" for x in lines))
                if not lines:
                    return nd, 0, None, extra
            return nd, rc, out, extra

        rej = []
        with ThreadPoolExecutor(max(1, len(nds))) as ex:
            for nd, rc, out, extra in ex.map(one, nds):
                rej += extra
                for x in extra:
                    log("trace of %s not evaluable: %s" % (x["id"], x.pop("tlc", "")[-600:]))
                if out is None:
                    continue
                expect = 0
                with open(nd) as f:
                    for line in f:
                        n = line.count('{"ev":"')
                        expect += n + 1
                        self.events += n
                gen, dist = self.counts(out)
                if rc != 0 or "No error has been found" not in out:
                    raise ToolError("trace validation %s on %s failed rc=%s\n%s" % (module, nd, rc, out[-4000:]))
                if dist != expect:
                    raise ToolError("trace validation %s consumed %d of %d events in %s\n%s" %
                                    (module, dist, expect, nd, out[-2000:]))
                self.states += dist
                self.transitions += gen
                for line in out.splitlines():
                    if line.startswith('"REJ'):
                        rej.append(json.loads(json.loads(line)[3:]))
        return rej

    # -------------------------------------------------------------- verdict
    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)).get("findings", []) if k["property"] == self.prop]

    def finish(self, level="model_checking", assumptions=(), extra=None):
        known = self.known()
        viol, hit = [], {}
        for r in self.rejections:
            k = match_known(known, r)
            if k is not None:
                hit[k["what"]] = k
            else:
                viol.append(r)
        for w in hit:
            log("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_checked": self.events, "samples": self.samples[:3], "design_models": self.design,
               "known_findings_seen": sorted(hit)}
        cov.update(self.notes)
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if viol:
            rdir = os.path.join(VERIF, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-seed%d.txt" % (self.prop, self.seed))
            with open(path, "w") as f:
                for r in viol[:50]:
                    f.write("# rejected at event %s by %s: %s\n" % (r["l"], r.get("module"), json.dumps(r["bad"])))
                    if isinstance(r.get("ops"), list):
                        f.write(self.to_text(r["id"], r["ops"]))
                    else:
                        f.write("# %s %s\n" % (r["id"], r.get("ops")))
            clauses = sorted({c for r in viol for c in r["bad"]})
            log("rejected scenarios: %d; clauses: %s" % (len({r["id"] for r in viol}), ", ".join(clauses)[:1500]))
            log("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        log("%s %s seed=%d traces=%d events=%d states=%d wall=%.1fs violations=%d" %
            (self.prop, self.tier, self.seed, self.traces, self.events, self.states, time.time() - self.t0, len(viol)))
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(self.dir, ignore_errors=True)
        else:
            log("kept " + self.dir)
        return rc


def match_known(known, r):
    """A listed finding matches a rejection when every clause of the rejection is listed and the scenario fits."""
    text = Ctx.to_text(r["id"], r["ops"]) if isinstance(r.get("ops"), list) else str(r.get("ops"))
    for k in known:
        if all(re.fullmatch(k["clause"], c) for c in r["bad"]) and re.search(k["scenario"], text, re.S):
            return k
    return None
