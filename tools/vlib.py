"""Shared machinery of all checks: building harnesses from /repo's working
tree, running them, model checking with TLC and validating recorded traces
against TLA+ trace specifications with TLC."""
import glob, json, os, re, shutil, subprocess, sys, time, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OSK_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 8)
# development only (mutation runs): skip the models, stop at the first violation
FAST = bool(os.environ.get("VERIF_FAST"))

CORE = ["src/core/*.c", "src/util/*.c", "src/util/port/*.c"]
EXCLUDE = {"log_stdio.c", "net_common-winsock.c", "mmap-windows.c"}


class Broken(Exception):
    """the check itself could not be carried out"""


def sh(cmd, timeout=None, cwd=None, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, cwd=cwd, env=env)
    return p.returncode, p.stdout.decode("utf8", "replace")


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER") or "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED") or 1)
        self.t0 = time.time()
        base = os.path.join(VERIF, ".build")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "models": [], "conformance": []}
        self.violations = []
        self.known_hit = []
        self._hcount = 0
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop] \
            if os.path.exists(kf) else []

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, q, t):
        return t if self.thorough() else q

    # ------------------------------------------------------------ build --
    def _config(self, version=None):
        d = os.path.join(self.work, "cfg" + (version or ""))
        if not os.path.isdir(d):
            os.makedirs(d)
            ac = open(os.path.join(REPO, "configure.ac")).read()
            m = re.search(r"AC_INIT\(\[?openskyd\]?,\s*\[?([^\]\),\s]+)", ac)
            self.version = version or (m.group(1) if m else "0")
            t = open(os.path.join(HARN, "config.h.in")).read().replace("@VERSION@", self.version)
            open(os.path.join(d, "config.h"), "w").write(t)
        return d

    def build(self, name, harness, repo=None, flavor="asan", extra_repo=(), cflags=(), exclude=(),
              libs=(), nowrap=(), cxx=False, version=None):
        """compile the harness sources and /repo's sources, return the binary"""
        cfg = self._config(version)
        od = os.path.join(self.work, "o-" + name + "-" + flavor)
        os.makedirs(od, exist_ok=True)
        srcs = []
        for pat in list(repo if repo is not None else CORE) + list(extra_repo):
            got = sorted(glob.glob(os.path.join(REPO, pat)))
            if not got:
                raise Broken("no source matches " + pat)
            srcs += [s for s in got if (os.path.basename(s) not in EXCLUDE or "*" not in pat)
                     and os.path.basename(s) not in exclude]
        common = ["-g", "-O1", "-w", "-DHAVE_CONFIG_H", "-D_GNU_SOURCE", "-I" + cfg, "-I" + HARN,
                  "-I" + os.path.join(REPO, "src"), "-pthread", "-fno-omit-frame-pointer"] + list(cflags)
        san = {"asan": ["-fsanitize=address", "-fno-sanitize-recover=all"], "plain": [],
               "mem": ["-fsanitize=thread"]}[flavor]
        lsan = ["-fsanitize=address"] if flavor == "asan" else []
        hs = [h if os.path.isabs(h) else os.path.join(HARN, h) for h in harness]
        jobs = []
        for i, s in enumerate(srcs):
            o = os.path.join(od, "r%d_%s.o" % (i, os.path.basename(s)))
            cc = ["g++", "-std=gnu++11"] if s.endswith(".cc") else ["gcc", "-std=gnu11"]
            jobs.append((o, cc + common + san + ["-c", s, "-o", o]))
        hobj = []
        for i, s in enumerate(hs):
            o = os.path.join(od, "h%d_%s.o" % (i, os.path.basename(s)))
            cc = ["g++", "-std=gnu++11"] if s.endswith(".cc") else ["gcc", "-std=gnu11"]
            hobj.append(o)
            jobs.append((o, cc + common + ["-c", s, "-o", o]))
        with ThreadPoolExecutor(CPUS) as ex:
            for (o, c), (rc, out) in zip(jobs, ex.map(lambda j: sh(j[1]), jobs)):
                if rc:
                    raise Broken("compilation failed: %s\n%s" % (" ".join(c), out[-3000:]))
        rc, out = sh(["nm", "-g", "--defined-only"] + hobj)
        wraps = sorted(set(re.findall(r"\b__wrap_(\w+)", out)) - set(nowrap))
        lib = os.path.join(od, "librepo.a")
        if srcs:
            sh(["ar", "rcs", lib] + [o for o, _ in jobs[:len(srcs)]])
        binp = os.path.join(self.work, name + "-" + flavor)
        link = [("g++" if cxx or any(s.endswith(".cc") for s in srcs + hs) else "gcc")] + lsan + \
            ["-pthread", "-o", binp] + hobj + ([lib] if srcs else []) + \
            ["-Wl,--wrap=" + w for w in wraps] + list(libs) + ["-lm"]
        rc, out = sh(link)
        if rc and "undefined reference" in out:
            # the code uses a file which is not in the list (e.g. a new one): offer all others of the same directories
            dirs = {os.path.dirname(s) for s in srcs} | {os.path.join(REPO, "src", d) for d in ("core", "util", "util/port")}
            more = []
            for s in sorted(x for d in dirs for x in glob.glob(os.path.join(d, "*.c")) + glob.glob(os.path.join(d, "*.cc"))):
                if s not in srcs and os.path.basename(s) not in EXCLUDE:
                    o = os.path.join(od, "m%d_%s.o" % (len(more), os.path.basename(s)))
                    cc = ["g++", "-std=gnu++11"] if s.endswith(".cc") else ["gcc", "-std=gnu11"]
                    if sh(cc + common + san + ["-c", s, "-o", o])[0] == 0:
                        more.append(o)
            if more:
                lib2 = os.path.join(od, "libmore.a")
                sh(["ar", "rcs", lib2] + more)
                link[link.index("-lm"):] = [lib2] + ([lib] if srcs else []) + ["-lm"]
                rc, out = sh(link)
        if rc:
            raise Broken("link failed: " + out[-3000:])
        return binp

    # -------------------------------------------------------------- run --
    def run(self, binp, *args, timeout=800):
        """run a harness, returns (summary, path of the trace file)"""
        self._hcount += 1
        out = os.path.join(self.work, "tr%d.ndjson" % self._hcount)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:handle_segv=0:handle_abort=0:" \
            "handle_sigfpe=0:handle_sigbus=0:detect_stack_use_after_return=0:use_sigaltstack=0:" \
            "allocator_may_return_null=1:quarantine_size_mb=16:thread_local_quarantine_size_kb=64"
        cmd = [binp, "--out", out, "--jobs", str(CPUS)] + [str(a) for a in args]
        if "--seed" not in cmd:
            cmd += ["--seed", str(self.seed)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=env, cwd=self.work)
        if p.returncode:
            raise Broken("harness failed (%d): %s\n%s" % (
                p.returncode, " ".join(cmd), p.stderr.decode("utf8", "replace")[-2000:]))
        return json.loads(p.stdout.decode().strip().splitlines()[-1]), out, cmd

    # -------------------------------------------------------------- TLC --
    def tlc(self, spec, cfg=None, workers=1, env=None, extra=(), timeout=850, heap="3g"):
        md = tempfile.mkdtemp(prefix="md-", dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        cfgp = cfg if cfg and os.path.isabs(cfg) else os.path.join(SPEC, cfg or spec + ".cfg")
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + md, "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if workers > 1 else "-Dx=y",
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md,
               "-deadlock", "-config", cfgp] + list(extra) + [spec]
        try:
            rc, out = sh(cmd, timeout=timeout, cwd=SPEC, env=e)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on " + spec)
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        st = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        return rc, out, st

    def model(self, spec, cfg=None, workers=CPUS, heap="12g", timeout=850, env=None):
        """exhaustive model check; a failure is a defect of the specification"""
        if FAST:
            return ""
        t = time.time()
        rc, out, (gen, dist) = self.tlc(spec, cfg, workers=workers, heap=heap, timeout=timeout, env=env)
        if rc != 0 or "No error has been found" not in out:
            raise Broken("model %s/%s fails:\n%s" % (spec, cfg, out[-4000:]))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["models"].append({"model": spec, "cfg": cfg or spec + ".cfg", "distinct_states": dist,
                                   "transitions": gen, "wall_s": round(time.time() - t, 1)})
        return out

    def graph(self, spec, cfg=None, timeout=600):
        """state graph of a model: (nodes {id: label}, edges [(a, b, action)], inits)"""
        dot = os.path.join(self.work, "g-%s.dot" % (cfg or spec).replace("/", "_"))
        rc, out, (gen, dist) = self.tlc(spec, cfg, workers=1, heap="8g", timeout=timeout,
                                        extra=["-dump", "dot,actionlabels", dot])
        if rc != 0 or "No error has been found" not in out:
            raise Broken("model %s/%s fails:\n%s" % (spec, cfg, out[-4000:]))
        nodes, edges, inits = {}, [], []
        for line in open(dot):
            m = re.match(r'(-?\d+) -> (-?\d+) \[label="([^"]*)"', line)
            if m:
                edges.append((m.group(1), m.group(2), m.group(3)))
                continue
            m = re.match(r'(-?\d+) \[label="(.*)"(,style = filled)?\];?\s*$', line)
            if m:
                nodes[m.group(1)] = m.group(2).replace("\\n", "\n").replace('\\"', '"').replace("\\\\", "\\")
                if m.group(3):
                    inits.append(m.group(1))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["models"].append({"model": spec, "cfg": cfg or spec + ".cfg", "distinct_states": dist,
                                   "transitions": gen, "graph_edges": len(edges)})
        return nodes, edges, inits

    def _validate_chunk(self, spec, cfg, lines, idx, env):
        f = os.path.join(self.work, "chunk-%s-%d-%s.ndjson" % (spec, os.getpid(), idx))
        with open(f, "w") as o:
            o.writelines(lines)
        e = dict(env or {})
        e["TRACES"] = f
        rc, out, st = self.tlc(spec, cfg, env=e)
        os.unlink(f)
        if "TLC was evaluating the nested" in out and re.search(r"^Error:", out, re.M):
            # events which the specification cannot even interpret: find the traces they belong to
            self._bad = getattr(self, "_bad", 0)
            if len(lines) == 1 or self._bad >= 4:
                self._bad += 1
                return set(), st, out
            h = len(lines) // 2
            a, b = (self._validate_chunk(spec, cfg, x, "%s%d" % (idx, k), env) for k, x in enumerate((lines[:h], lines[h:])))
            return a[0] | {k + h for k in b[0]}, tuple(x + y for x, y in zip(a[1], b[1])), b[2]
        ok = set(int(x) for x in re.findall(r'<<"OK", (\d+)>>', out))
        if "Model checking completed" not in out and "states generated" not in out or \
                re.search(r"^Error:", out, re.M):
            raise Broken("trace validation with %s broke:\n%s" % (spec, out[-6000:]))
        return ok, st, out

    def validate(self, spec, path, cfg=None, env=None, what="", limit_bytes=60_000_000):
        """validate all traces of a file; returns the rejected trace lines"""
        t = time.time()
        # an execution without any event (all random operations were unobservable) says nothing
        lines = [l for l in open(path) if '"ev":[]' not in l]
        if not lines:
            raise Broken("no traces recorded for " + spec)
        # balance by size
        n = max(1, min(CPUS, len(lines)))
        size = sum(map(len, lines))
        while size / n > 6_000_000 and n < len(lines):
            n += CPUS
        n = min(n, len(lines))
        chunks = [[] for _ in range(n)]
        load = [0] * n
        for i in sorted(range(len(lines)), key=lambda i: -len(lines[i])):
            k = load.index(min(load))
            chunks[k].append(i)
            load[k] += len(lines[i]) + 50
        rej, states, trans = [], 0, 0
        with ThreadPoolExecutor(CPUS) as ex:
            res = list(ex.map(lambda k: self._validate_chunk(spec, cfg, [lines[i] for i in chunks[k]], k, env),
                              range(n)))
        for k in range(n):
            ok, (gen, dist), out = res[k]
            states += dist
            trans += gen
            rej += [chunks[k][j] for j in range(len(chunks[k])) if j + 1 not in ok]
        self.cov["states"] += states
        self.cov["transitions"] += trans
        self.cov["traces_validated_against_impl"] += len(lines) - len(rej)
        nev = sum(l.count('"e":') for l in lines)
        self.cov["conformance"].append({"spec": spec, "what": what, "traces": len(lines), "events": nev,
                                        "rejected": len(rej), "states": states,
                                        "wall_s": round(time.time() - t, 1)})
        if len(self.cov["samples"]) < 6:
            l = min(lines, key=lambda x: abs(len(x) - 1500))
            self.cov["samples"].append(l[:1800].strip())
        return [lines[i] for i in sorted(rej)]

    def progress(self, spec, line, cfg=None, env=None):
        """longest accepted prefix of a rejected trace (number of events)"""
        d = json.loads(line)
        lo, hi = 0, len(d["ev"])
        e = dict(env or {})
        # bisect over prefixes, all in one TLC run per round would be faster; few rounds suffice
        def okset(ks):
            f = os.path.join(self.work, "pref.ndjson")
            with open(f, "w") as o:
                for k in ks:
                    x = dict(d)
                    x["upto"] = k
                    o.write(json.dumps(x) + "\n")
            e["TRACES"] = f
            rc, out, st = self.tlc(spec, cfg, env=e)
            return set(ks[int(i) - 1] for i in re.findall(r'<<"OK", (\d+)>>', out))
        try:
            while hi - lo > 1:
                ks = sorted(set(lo + (hi - lo) * i // 9 for i in range(1, 9)) - {lo, hi})
                if not ks:
                    break
                ok = okset(ks)
                good = [k for k in ks if k in ok]
                bad = [k for k in ks if k not in ok]
                if good:
                    lo = max(lo, max(good))
                if bad:
                    hi = min(hi, min(b for b in bad if b > lo) if any(b > lo for b in bad) else hi)
                if not good and not bad:
                    break
        except Exception:
            pass
        return lo

    def conform(self, spec, binp, args, cfg=None, env=None, what="", timeout=800, classify=None,
                kf=None, also=()):
        """run the harness with args, validate the traces, confirm and report rejections.
        kf = (finding id, environment): a rejected trace which the specification accepts when it
        admits the listed known finding is reported as that finding.
        also: further specifications the same traces have to satisfy"""
        summ, path, cmd = self.run(binp, *args, timeout=timeout)
        for sp in also:
            self._reject(sp, self.validate(sp, path, None, None, what), binp, args, None, None, None)
        rej = self.validate(spec, path, cfg, env, what)
        if rej and kf and any(f["id"] == kf[0] for f in self.known):
            f = os.path.join(self.work, "kf.ndjson")
            open(f, "w").writelines(rej)
            left = self.validate(spec, f, cfg, dict(env or {}, **kf[1]), what + " (admitting %s)" % kf[0])
            if len(left) < len(rej):
                self.known_hit += [x for x in self.known if x["id"] == kf[0] and x not in self.known_hit]
            rej = left
            env = dict(env or {}, **kf[1])
        self.cov["conformance"][-1]["driver"] = summ
        self._reject(spec, rej, binp, args, cfg, env, classify)
        return rej

    def _reject(self, spec, rej, binp, args, cfg, env, classify):
        for line in rej[:40]:
            d = json.loads(line)
            if len(self.violations) >= 3:
                break
            # run the very same execution again: a report must be reproducible
            ra = [str(a) for a in args]
            for o in ("--n", "--dfs"):
                if o in ra:
                    i = ra.index(o)
                    del ra[i:i + 2]
            ra += ["--only", str(d["scen"])]
            if d["mode"] == "random":
                ra += ["--xseed", d["xseed"]]
            else:
                ra += ["--choices", d.get("choices", "") or "0", "--n", "0"]
            s2, p2, cmd2 = self.run(binp, *ra)
            l2 = open(p2).readlines()
            if not any(json.loads(x)["ev"] == d["ev"] for x in l2):
                # not reproduced exactly: is the re-execution rejected as well?
                f = os.path.join(self.work, "again.ndjson")
                open(f, "w").writelines(l2)
                if not l2 or not self.validate(spec, f, cfg, env, "confirmation"):
                    self.cov.setdefault("unconfirmed", 0)
                    self.cov["unconfirmed"] += 1
                    continue
            self.report(spec, d, cmd2, cfg, env, classify)

    def report(self, spec, d, cmd, cfg=None, env=None, classify=None):
        line = json.dumps(d)
        k = self.progress(spec, line, cfg, env)
        at = d["ev"][k] if k < len(d["ev"]) else {"e": "end-of-trace"}
        kid = classify(d, k) if classify else None
        for f in self.known:
            if kid is not None and f["id"] == kid:
                if kid not in [x["id"] for x in self.known_hit]:
                    self.known_hit.append(f)
                return
        self.violation({"spec": spec, "command": cmd, "rejected_event_index": k, "rejected_event": at,
                        "context": d["ev"][max(0, k - 25):k + 1], "trace": d, "kind": kid})

    def violation(self, info):
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        txt = json.dumps(info, indent=1)
        p = os.path.join(rd, "%s-%s.json" % (self.prop, hashlib.sha1(txt.encode()).hexdigest()[:10]))
        open(p, "w").write(txt)
        self.violations.append(p)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        print("  rejected by %s: %s" % (info.get("spec"), json.dumps(info.get("rejected_event"))[:600]), flush=True)
        if FAST:
            shutil.rmtree(self.work, ignore_errors=True)
            os._exit(1)

    # ------------------------------------------------------------ finish --
    def finish(self, level, extra=None):
        if extra:
            self.cov.update(extra)
        for f in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]), flush=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 1),
              "violations": self.violations, "known_findings": [f["id"] for f in self.known_hit]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        if not os.environ.get("KEEP_WORK"):
            shutil.rmtree(self.work, ignore_errors=True)
        if not self.violations:
            print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (
                self.prop, self.tier, self.cov["states"], self.cov["traces_validated_against_impl"],
                time.time() - self.t0))
        return 1 if self.violations else 0
