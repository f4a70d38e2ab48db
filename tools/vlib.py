"""Shared machinery of the checks: build drivers against /repo, run them, have
TLC validate the recorded traces and explore the models, write the evidence."""
import concurrent.futures as cf
import json, os, random, re, shutil, signal, subprocess, sys, threading, time, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
CORES = int(os.environ.get("VERIF_CORES", str(os.cpu_count() or 8)))
CXX = shutil.which("g++-14") or shutil.which("g++")


class CompileError(Exception):
    """The code under test no longer compiles for a supported configuration."""


class ToolError(Exception):
    pass


def _find_tlc():
    """Class path of TLC with the community modules."""
    cands = [JARS]
    d = os.path.dirname(JARS)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and os.path.join(d, f) != JARS:
            cands.append(os.path.join(d, f))
    return ":".join(cands)


TLC_CP = _find_tlc()


def popen(cmd, timeout, cwd=None, env=None, stdout=subprocess.PIPE):
    """Run in its own process group; returns (rc, output); rc None = timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=stdout,
                         stderr=subprocess.STDOUT, start_new_session=True,
                         text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out or ""
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out or ""


class Rejected(Exception):
    pass


def parse_histories(out):
    """Runs printed by BTreeSim: lists of (insert?, place, kind of step, depth)."""
    hs = []
    flat = re.sub(r"\s+", " ", out)
    for turn, ins, g, lab, deep in re.findall(
            r'<< ?"step", (\d+), (\d), (\d+), \d+, << ?((?:"\w+",? ?)*)>>, (\d+) ?>>', flat):
        if turn == "0":
            hs.append([])
        hs[-1].append((int(ins), int(g), lab.replace('"', "").strip(), int(deep)))
    return hs


def render_history(h, rnd):
    """Keys for the elements of a history: ranks in the order of all elements
    ever present; an insertion sometimes brings back an element erased."""
    order, alive, ops = [], [], []      # element numbers, in key order
    fresh = 0
    for ins, g, lab, _ in h:
        mark = not re.match(r"put|cut, (root|easy)", lab)
        if ins:
            lo = order.index(alive[g - 2]) + 1 if g > 1 else 0
            hi = order.index(alive[g - 1]) if g <= len(alive) else len(order)
            if hi > lo and (rnd.random() < 0.6 or fresh > 900):
                e = order[rnd.randrange(lo, hi)]
            else:
                e = fresh
                fresh += 1
                order.insert(rnd.randint(lo, hi), e)
            alive.insert(g - 1, e)
            ops.append((1, e, mark))
        else:
            ops.append((-1, alive.pop(g - 1), mark))
    rank = {e: i + 1 for i, e in enumerate(order)}
    return " ".join("%s%d" % ("!" if m else "", s * rank[e]) for s, e, m in ops), fresh


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "build", prop)
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        self.pool = cf.ThreadPoolExecutor(CORES)
        self.side = cf.ThreadPoolExecutor(4)
        self.lock = threading.Lock()
        self.builds = {}      # name -> future
        self.traces = []      # futures of trace dicts
        self.models = []      # futures
        self.rejections = []  # (trace or model, detail)
        self.counts = {"states": 0, "transitions": 0,
                       "traces_validated_against_impl": 0}
        self.info = {"models": [], "drivers": [], "events": 0}
        self.samples = []
        self.assumptions = []

    # ------------------------------------------------------------- building
    def build(self, name, main, flags=(), headers=("drv_map.hpp",), opt="-O1"):
        """Compile a driver: `main` is the body of the translation unit."""
        if name in self.builds:
            return self.builds[name]
        src = os.path.join(self.dir, name + ".cpp")
        exe = os.path.join(self.dir, name)
        with open(src, "w") as f:
            for h in headers:
                f.write('#include "%s"\n' % h)
            f.write("using namespace vh;\n" + main + "\n")

        def job():
            cmd = [CXX, "-std=c++23", opt, "-w", "-pipe", "-I", REPO + "/include",
                   "-I", HARNESS, *flags, src, "-o", exe, "-pthread"]
            rc, out = popen(cmd, 600)
            if rc is not None and rc > 0 and " error: " in out and REPO + "/include" in out:
                rc, out = popen(cmd, 600)       # again: not a passing condition of this machine
                if rc is not None and rc > 0 and " error: " in out:
                    raise CompileError(name, src, out[-8000:])
            if rc != 0:
                raise ToolError("cannot compile %s:\n%s" % (name, out[-4000:]))
            return exe
        fut = self.pool.submit(job)
        self.builds[name] = fut
        return fut

    # -------------------------------------------------------------- driving
    def run_driver(self, exe, args, out, timeout, env=None):
        """Run a driver; the trace ends with a crash event if it failed."""
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1",
                  "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=1",
                  "TSAN_OPTIONS": "halt_on_error=1:exitcode=66"})
        if env:
            e.update(env)
        rc, msg = popen([exe, "-o", out, *map(str, args)], timeout, env=e,
                        cwd=self.dir)
        if rc == 77 or "HARNESS-ERROR" in msg:
            raise ToolError("driver %s %s: %s" % (exe, args, msg[-500:]))
        if not os.path.exists(out):
            raise ToolError("driver %s %s wrote no trace: rc=%s %s" % (exe, args, rc, msg[-500:]))
        if rc != 0:
            with open(out, "rb") as f:
                data = f.read().rstrip(b"\0")
            cut = data.rfind(b"\n") + 1
            what = "timeout" if rc is None else "exit %d" % rc
            lines = [x for x in msg.splitlines() if x.strip()]
            key = [x for x in lines if re.search(r"Assert|ERROR|runtime error|terminate|what\(\)", x)]
            note = re.sub(r"[^ -~]|[\"\\]", "'", (key or lines or [""])[0])[:300]
            with open(out, "wb") as f:
                f.write(data[:cut])
                f.write(json.dumps(["crash", 0, what + ": " + note]).encode() + b"\n")
        return rc, msg

    def sanitizer_works(self, kind):
        """Whether programs built with -fsanitize=kind run in this environment."""
        src, exe = os.path.join(self.dir, "probe.cpp"), os.path.join(self.dir, "probe")
        with open(src, "w") as f:
            f.write("#include <thread>\nint main() { std::thread t([] {}); t.join(); return 3; }\n")
        try:
            subprocess.run(["g++", "-fsanitize=" + kind, src, "-o", exe, "-pthread"], check=True,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            return all(subprocess.run([exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                      timeout=60).returncode == 3 for _ in range(3))
        except (subprocess.SubprocessError, OSError):
            return False

    def trace(self, build, args, U=0, NO=1, spec="OMapTrace", consts=None,
              timeout=60, label=None, env=None, after=None):
        """Schedule a driver run whose trace `spec` must accept."""
        i = len(self.traces)
        out = os.path.join(self.dir, "t%04d.ndjson" % i)
        tr = {"build": build, "args": list(args), "U": U, "NO": NO, "spec": spec,
              "consts": consts or {}, "timeout": timeout, "env": env,
              "label": label or "%s %s" % (build, " ".join(map(str, args))),
              "path": out}

        def job():
            exe = self.builds[build].result()
            if after is not None:
                after.result()
            rc, msg = self.run_driver(exe, args, out, timeout, env)
            tr["rc"] = rc
            tr["msg"] = msg[-1500:]
            with open(out, "rb") as f:
                tr["lines"] = sum(b.count(b"\n") for b in iter(lambda: f.read(1 << 20), b""))
            tr["bytes"] = os.path.getsize(out)
            return tr
        self.traces.append((tr, job))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg_text, name, timeout, workers=1, env=None, extra=(),
            heap="2g", jvm=()):
        meta = os.path.join(self.dir, "meta-" + name)
        os.makedirs(meta, exist_ok=True)
        cfg = os.path.join(meta, name + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        e = dict(os.environ)
        if env:
            e.update(env)
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
               "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", *jvm,
               "-Djava.io.tmpdir=" + meta,
               "-DTLA-Library=" + SPEC, "-cp", TLC_CP, "tlc2.TLC", "-config", cfg,
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               *extra, os.path.join(SPEC, module + ".tla")]
        rc, out = popen(cmd, timeout, cwd=meta, env=e)
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    def trace_cfg(self, tr_group):
        t = tr_group[0]
        c = dict(t["consts"])
        if t["U"]:
            c["U"] = max(x["U"] for x in tr_group)
            c["NO"] = max(x["NO"] for x in tr_group)
        s = "SPECIFICATION TSpec\n"
        if c:
            s += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in c.items())
        s += "VIEW TView\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
        return s

    def validate(self, group, name, timeout=600):
        """Returns None if every trace of the group is accepted, else
        (trace, line number in it, TLC output)."""
        path = os.path.join(self.dir, name + ".batch")
        with open(path, "wb") as f:
            for t in group:
                with open(t["path"], "rb") as g:
                    shutil.copyfileobj(g, f)
        total = sum(t["lines"] for t in group)
        rc, out = self.tlc(group[0]["spec"], self.trace_cfg(group), name, timeout,
                           env={"TRACE": path})
        os.remove(path)
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        if rc == 0 and m and int(m.group(1)) == total + 1:
            return None
        if rc is None:
            raise ToolError("TLC timed out on %s" % name)
        done = None
        if m and ("ostcondition" in out or "Accepted" in out):
            done = int(m.group(1)) - 1
        elif rc in (12, 13, 75, 76, 77) or "TLC encountered" in out or "Error: Evaluating" in out:
            # an event no action can even be evaluated on: rejected there
            ms = re.findall(r"^/\\ l = (\d+)", out, re.M)
            if ms:
                done = int(ms[-1]) - 1
            elif re.search(r"(\d+) states generated", out):
                done = int(re.findall(r"(\d+) distinct states", out)[-1]) - 1
        if done is None or done >= total:
            raise ToolError("TLC failed on %s (rc %s):\n%s" % (name, rc, out[-3000:]))
        for t in group:
            if done < t["lines"]:
                return t, done + 1, out
            done -= t["lines"]
        raise ToolError("inconsistent TLC result on %s" % name)

    def validate_all(self, group, name):
        """Validate a group, continuing after each rejected trace."""
        group = list(group)
        k = 0
        while group:
            r = self.validate(group, "%s-%d" % (name, k))
            if r is None:
                break
            t, line, out = r
            with self.lock:
                self.rejections.append((t, line))
            # stop here: one confirmed rejection decides the check
            break
        with self.lock:
            for t in group:
                if not any(t is x for x, _ in self.rejections):
                    self.counts["traces_validated_against_impl"] += 1
                    self.info["events"] += t["lines"]

    # --------------------------------------------------------------- models
    def model(self, module, cfg_text, name, timeout=300, workers=2, expect=None,
              extra=(), heap="4g"):
        """Exhaustively check a design model; its invariants must hold."""
        def job():
            rc, out = self.tlc(module, cfg_text, name, timeout, workers, extra=extra, heap=heap)
            m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states", out)
            if expect is not None:      # a variant of the model that must be refuted
                if not re.search(r"(Invariant|Action property) %s is violated" % expect, out):
                    raise ToolError("model %s does not violate %s (rc %s):\n%s" % (name, expect, rc, out[-3000:]))
                with self.lock:
                    self.info["models"].append({"model": name, "violates_as_it_should": expect})
                return out
            if rc != 0 or "No error has been found" not in out:
                raise ToolError("model %s failed (rc %s):\n%s" % (name, rc, out[-3000:]))
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
            with self.lock:
                self.counts["states"] += dist
                self.counts["transitions"] += gen
                self.info["models"].append({"model": name, "states": dist, "generated": gen})
            return out
        f = self.pool.submit(job)
        self.models.append(f)
        return f

    def programs(self, model, name, pat, render, keep=None, parts=4):
        """Files of test programs, one per line, from the transitions TLC printed
        while it explored `model` (a future); optionally a sample of them."""
        paths = [os.path.join(self.dir, "%s-%d.prog" % (name, i)) for i in range(parts)]

        def job():
            out = model.result()
            seen = sorted({render(x) for x in re.findall(pat, out)})
            if not seen:
                raise ToolError("model printed no programs for " + name)
            take = seen
            if keep and len(seen) > keep:
                r = random.Random(zlib.crc32(repr((SEED, name)).encode()))
                take = r.sample(seen, keep)
            for i, path in enumerate(paths):
                with open(path, "w") as f:
                    f.write("".join(x + "\n" for x in take[i::parts]))
            with self.lock:
                self.info.setdefault("programs", {})[name] = {"from_model": len(seen), "replayed": len(take)}
            return paths
        f = self.pool.submit(job)
        return paths, f

    def histories(self, name, caps, top, ids, num, depth, keep, parts=2, jvms=2):
        """Files of tree histories from random runs of BTreeSim (whose invariants
        are checked on the way), chosen so that every kind of step the runs show
        is replayed several times."""
        cfg = ("CONSTANTS\nLC = %d\nIC = %d\nMaxN = %d\nMaxId = %d\nWrong = 0\nSPECIFICATION SSpec\n"
               "INVARIANTS Refines SSound\nCHECK_DEADLOCK FALSE\n" % (*caps, top, ids))
        paths = [os.path.join(self.dir, "%s-%d.hist" % (name, i)) for i in range(parts)]

        def sim(i):
            s = zlib.crc32(repr((SEED, self.prop, name, i)).encode()) % 1000000
            rc, out = self.tlc("BTreeSim", cfg, "%s-sim%d" % (name, i), 600,
                               extra=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(s)))
            if rc != 0 or "rror:" in out:
                raise ToolError("simulation %s failed (rc %s):\n%s" % (name, rc, out[-3000:]))
            return out
        # Joined from a thread of its own: the pool may be waiting for these jobs.
        f = cf.Future()

        def job():
            try:
                runs = [self.side.submit(sim, i) for i in range(jvms)]
                hs = []
                for r in runs:
                    hs += parse_histories(r.result())
                rnd = random.Random(zlib.crc32(repr((SEED, self.prop, name)).encode()))
                kinds = {}
                for h in hs:
                    for st in h:
                        kinds[st[2:]] = kinds.get(st[2:], 0) + 1
                need = {k: min(3, v) for k, v in kinds.items()}
                chosen, left = [], list(hs)
                while left and len(chosen) < keep:
                    def gain(h):
                        c = {}
                        for st in h:
                            c[st[2:]] = c.get(st[2:], 0) + 1
                        return sum(min(v, need.get(k, 0)) / kinds[k] for k, v in c.items())
                    best = max(left, key=gain)
                    left.remove(best)
                    chosen.append(best)
                    for st in best:
                        if need.get(st[2:], 0) > 0:
                            need[st[2:]] -= 1
                seen = {st[2:] for h in chosen for st in h}
                lines, most = [], 0
                for h in chosen:
                    ln, u = render_history(h, rnd)
                    lines.append(ln)
                    most = max(most, u)
                for i, path in enumerate(paths):
                    with open(path, "w") as g:
                        g.write("".join(x + "\n" for x in lines[i::parts]))
                with self.lock:
                    self.counts["transitions"] += sum(map(len, hs))
                    self.info.setdefault("histories", {})[name] = {
                        "simulated": len(hs), "steps": sum(map(len, hs)), "kinds_of_step": len(kinds),
                        "replayed": len(chosen), "steps_replayed": sum(map(len, chosen)),
                        "kinds_replayed": len(seen), "keys": most}
                f.set_result(paths)
            except BaseException as e:
                f.set_exception(e)
        threading.Thread(target=job, daemon=True).start()
        return paths, f

    # ----------------------------------------------------------------- main
    def excerpt(self, t, line, before=12):
        with open(t["path"], errors="replace") as f:
            lines = f.read().split("\n")
        lo = max(0, line - 1 - before)
        return [x[:400] for x in lines[lo:line]]

    def finish(self, max_groups=None):
        """Run everything scheduled, decide, write evidence, exit."""
        try:
            runs = [self.pool.submit(j) for _, j in self.traces]
            done = [r.result() for r in runs]
            # group by spec and constants, balance by size
            kinds = {}
            for t in done:
                kinds.setdefault((t["spec"], t["NO"] if t["U"] else 0,
                                  json.dumps(t["consts"], sort_keys=True)), []).append(t)
            total = sum(t["bytes"] for t in done) or 1
            jobs = []
            ng = max_groups or CORES
            for (spec, _, _), ts in kinds.items():
                share = sum(t["bytes"] for t in ts) / total
                n = max(1, min(len(ts), round(ng * share)))
                ts.sort(key=lambda t: (-t["U"], -t["bytes"]))
                groups = [[] for _ in range(n)]
                w = [0] * n
                for t in sorted(ts, key=lambda t: -t["bytes"]):
                    i = w.index(min(w))
                    groups[i].append(t)
                    w[i] += t["bytes"]
                for i, g in enumerate(groups):
                    if g:
                        jobs.append((g, "val-%s-%d" % (spec, len(jobs))))
            vals = [self.pool.submit(self.validate_all, g, n) for g, n in jobs]
            for v in vals:
                v.result()
            for m in self.models:
                m.result()
            ok = True
            unrepeated = []
            for t, line in self.rejections:
                if self.confirm(t, line):
                    ok = False
                    break
                unrepeated.append((t, line))
            if ok and unrepeated:
                # Not repeated, so it depends on a schedule or on addresses.  The
                # recorded trace of the first run is a witness by itself, unless
                # all it shows is that a run did not end in its time.
                for t, line in unrepeated:
                    ev = self.excerpt(t, line, 0)[-1]
                    if '"crash"' in ev and "timeout" in ev:
                        continue
                    if self.validate([t], "again") is not None:
                        self.report(t, t, line, self.excerpt(t, line))
                        ok = False
                        break
                else:
                    raise ToolError("rejection of %s not repeated" % unrepeated[0][0]["label"])
            self.counts["states"] += self.info["events"]
            self.counts["transitions"] += self.info["events"]
            self.evidence(done, 0 if ok else 1)
            self.cleanup(keep_last=not ok)
            print("%s %s: %d traces, %d events, models %s, %.1f s" % (
                self.prop, "ok" if ok else "VIOLATED",
                self.counts["traces_validated_against_impl"], self.info["events"],
                self.info["models"], time.time() - self.t0))
            sys.stdout.flush()
            os._exit(0 if ok else 1)
        except CompileError as e:
            name, src, out = e.args
            rep = os.path.join(VERIF, "replay", self.prop)
            if os.path.isdir(rep):
                shutil.rmtree(rep)
            os.makedirs(rep)
            shutil.copy(src, rep)
            with open(os.path.join(rep, "compile.log"), "w") as f:
                f.write(out)
            print("the containers no longer compile for configuration %s:" % name)
            print("\n".join([x[:300] for x in out.splitlines() if " error: " in x][:3]))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.join(rep, "compile.log")))
            self.counts["configurations_not_compiling"] = 1
            self.evidence([], 1)
            sys.stdout.flush()
            os._exit(1)
        except ToolError as e:
            print("ERROR (no verdict) %s: %s" % (self.prop, e))
            sys.stdout.flush()
            os._exit(2)

    def confirm(self, t, line):
        """Run the rejected execution again: is it rejected again?"""
        first = self.excerpt(t, line)
        exe = self.builds[t["build"]].result()
        for k in range(3):
            u = dict(t)
            u["path"] = os.path.join(self.dir, "confirm.ndjson")
            self.run_driver(exe, t["args"], u["path"], t["timeout"] * 2, t["env"])
            with open(u["path"], "rb") as f:
                u["lines"] = f.read().count(b"\n")
            r = self.validate([u], "confirm")
            if r is not None:
                self.report(t, u, r[1], first)
                return True
        return False

    def report(self, t, u, line2, first):
        rep = os.path.join(VERIF, "replay", self.prop)
        if os.path.isdir(rep):
            shutil.rmtree(rep)
        os.makedirs(rep)
        shutil.copy(u["path"], os.path.join(rep, "trace.ndjson"))
        shutil.copy(os.path.join(self.dir, t["build"] + ".cpp"), rep)
        for a in t["args"]:
            if isinstance(a, str) and a.endswith(".prog") and os.path.exists(a):
                shutil.copy(a, rep)
        for a in map(str, t["args"]):
            if os.path.isfile(a) and a.startswith(self.dir):
                shutil.copy(a, rep)
        path = os.path.join(rep, "violation.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "driver": t["build"] + ".cpp",
                       "args": [str(a) for a in t["args"]],
                       "specification": "spec/%s.tla" % t["spec"],
                       "trace": "trace.ndjson",
                       "rejected_event_at_line": line2,
                       "events_up_to_the_rejected_one": self.excerpt(u, line2),
                       "first_run": first, "driver_output": t.get("msg", "")}, f, indent=1)
        print("rejected by spec/%s.tla at line %d of %s:" % (t["spec"], line2, t["label"]))
        for x in self.excerpt(u, line2, 4):
            print("   ", x[:300])
        print("VIOLATION property=%s replay=%s" % (self.prop, path))

    def evidence(self, done, violations):
        cov = dict(self.counts)
        for t in done[:2]:
            with open(t["path"], errors="replace") as f:
                head = [next(f, "").strip()[:200] for _ in range(12)]
            self.samples.append({"run": t["label"], "spec": t["spec"],
                                 "events": t["lines"], "first_events": head})
        ops = {}
        for t in done:
            with open(t["path"], errors="replace") as f:
                for ln in f:
                    k = ln[2:ln.find('"', 2)]
                    ops[k] = ops.get(k, 0) + 1
        cov["samples"] = self.samples
        cov["event_counts"] = ops
        cov["trace_events"] = self.info["events"]
        cov["models"] = self.info["models"]
        if "programs" in self.info:
            cov["programs_generated_by_tlc"] = self.info["programs"]
        if "histories" in self.info:
            cov["histories_simulated_by_tlc"] = self.info["histories"]
        cov["configurations"] = sorted({t["build"] for t in done})
        cov.update(self.info.get("extra", {}))
        d = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
             "coverage": cov, "assumptions": self.assumptions,
             "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)

    def cleanup(self, keep_last=False):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
