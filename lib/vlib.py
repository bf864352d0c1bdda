"""Shared machinery of the checks: building the harness from /repo's working
tree, running it, running TLC, and reporting."""
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HANG_S = 90          # a scenario without an end after this time hangs (they take milliseconds)

GOENV = {
    "HOME": "/root", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off",
    "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
    "PATH": "/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
}


class CheckError(Exception):
    """The check itself does not work; nothing is said about the property."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        self.violations = []      # [{"id":, "why":, ...}]
        self.states = self.transitions = self.traces = 0
        self.parts = []           # what was done, for the evidence
        self.samples = []
        self.assumptions = []
        self.bins = {}
        self.exhaustive = None
        self.lock = threading.Lock()
        self.build_lock = threading.Lock()
        self.serial = 0
        self.shims = []

    def path(self, name):
        return os.path.join(self.tmp, name)

    def fresh(self, name):
        """A path that nothing else uses."""
        with self.lock:
            self.serial += 1
            return os.path.join(self.tmp, "%04d-%s" % (self.serial, re.sub(r"[^\w.]", "_", name)))

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # -- the harness ---------------------------------------------------------

    def build(self, race=False):
        """One test binary with all harnesses, from /repo's working tree."""
        with self.build_lock:
            return self._build(race)

    def _build(self, race):
        key = "race" if race else "plain"
        if key in self.bins:
            return self.bins[key]
        env = dict(os.environ, **GOENV)
        if not os.path.exists(os.path.join(REPO, "go.mod")):
            raise CheckError("no repository at " + REPO)
        # The harness uses a package the repository needs only indirectly: go writes that down in the
        # go.mod it is given, which is a copy.
        mod = self.path("go.mod")
        shutil.copyfile(REPO + "/go.mod", mod)
        shutil.copyfile(REPO + "/go.sum", self.path("go.sum"))
        # The repository itself has to build; otherwise there is nothing to check.
        out = self.path("h-%s.test" % key)
        shims = ["handlers", "forward"]
        log = ""
        # Unexported functions are reached through small files that the overlay adds.  If one of
        # them does not build (the function is gone), the harness is built without that door.
        tries = [shims] + [[s for s in shims if s != x] for x in shims] + [[]]
        for use in tries:
            rep = {}
            for f in sorted(os.listdir(VERIF + "/harness/verifh")):
                if f.endswith(".go"):
                    rep[REPO + "/verifh/" + f] = VERIF + "/harness/verifh/" + f
            for s in use:
                rep[REPO + "/verif_shim_%s.go" % s] = VERIF + "/harness/shim/%s.go" % s
            ov = self.path("overlay.json")
            with open(ov, "w") as f:
                json.dump({"Replace": rep}, f)
            cmd = ["go", "test", "-modfile", mod, "-overlay", ov, "-vet=off", "-c", "-o", out]
            if use:
                cmd += ["-tags", ",".join("verif_" + s for s in use)]
            if race:
                cmd += ["-race"]
            r = subprocess.run(cmd + ["./verifh"], cwd=REPO, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=600)
            if r.returncode == 0:
                self.bins[key] = out
                self.shims = use
                return out
            log = log or r.stdout
        raise CheckError("the harness does not build:\n" + log[-3000:])

    def run(self, test, families="", inp=None, shards=1, env=None, timeout=600, race=False, tag=None,
            hang=HANG_S, mem_gb=None, seed=None):
        """Run one harness test, in `shards` processes; returns the log's lines (dicts).

        A process that dies or hangs adds a line with "crash" for the scenario it was executing."""
        binary = self.build(race)
        tag = tag or test
        procs = []
        for i in range(shards):
            out = self.fresh("%s-%d.log" % (tag, i))
            e = dict(os.environ, VERIF_OUT=out, VERIF_SEED=str(self.seed if seed is None else seed), VERIF_TIER=self.tier,
                     VERIF_SHARD="%d/%d" % (i, shards), VERIF_FAMILY=families, VERIF_TMP=self.tmp)
            if inp:
                e["VERIF_IN"] = inp
            e.update(env or {})
            err = open(out + ".err", "w")
            pre = None
            if mem_gb:
                import resource
                lim = int(mem_gb * (1 << 30))
                pre = lambda: resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
            p = subprocess.Popen([binary, "-test.run", "^%s$" % test, "-test.timeout", "0"], cwd=self.tmp,
                                 env=e, stdout=err, stderr=err, preexec_fn=pre)
            procs.append((p, out, err))
        deadline = time.time() + timeout
        lines, state = [], {}
        pending = set(range(shards))
        while pending:
            time.sleep(0.02)
            for i in list(pending):
                p, out, _ = procs[i]
                if p.poll() is not None:
                    pending.discard(i)
                    continue
                cur = self._cur(out)
                if state.get(i, (None,))[0] != cur:
                    state[i] = (cur, time.time())
                elif cur and time.time() - state[i][1] > hang:
                    p.send_signal(signal.SIGQUIT)
                    try:
                        p.wait(10)
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.wait()
                    state[i] = ("HANG", cur)
                    pending.discard(i)
                elif time.time() > deadline:
                    p.kill()
                    p.wait()
                    for j in pending - {i}:
                        procs[j][0].kill()
                    raise CheckError("%s: no end after %d s" % (tag, timeout))
        for i, (p, out, err) in enumerate(procs):
            err.close()
            if os.path.exists(out):
                with open(out) as f:
                    for raw in f:
                        if raw.endswith("\n"):
                            lines.append(json.loads(raw))
            if p.returncode != 0:
                cur = self._cur(out)
                with open(out + ".err", errors="replace") as f:
                    text = f.read()
                if not cur:
                    raise CheckError("%s: harness failed:\n%s" % (tag, text[-4000:]))
                what = "hang" if state.get(i, (None,))[0] == "HANG" else "crash"
                if "VERIF HARNESS FAULT" in text:
                    raise CheckError("%s: harness fault in %s:\n%s" % (tag, cur, text[-4000:]))
                if race and "DATA RACE" in text and not re.search(r"dd-zipkin-proxy(?!/verifh)[\w/]*\.", text):
                    continue      # a race inside a library
                lines.append({"id": cur, "crash": what, "text": text[:3000]})
        return lines

    @staticmethod
    def _cur(out):
        try:
            with open(out + ".cur") as f:
                return f.read().strip()
        except OSError:
            return ""

    # -- TLC -----------------------------------------------------------------

    def tlc(self, module, cfg=None, env=None, workers="auto", timeout=800, extra=(), heap="6g", name=None):
        name = name or module
        d = self.fresh("tlc-" + name)
        shutil.copytree(VERIF + "/spec", d)
        if cfg is not None and not cfg.endswith(".cfg"):
            with open(os.path.join(d, module + ".cfg"), "w") as f:
                f.write(cfg)
            cfg = module + ".cfg"
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-config", cfg or module + ".cfg", "-workers", str(workers), "-noGenerateSpecTE", "-cleanup",
               "-metadir", d + "/meta"] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s: no end after %d s" % (name, timeout))
        finally:
            pass
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", r.stdout)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        shutil.rmtree(d, ignore_errors=True)
        return r.returncode, r.stdout, gen, dist

    def mc(self, module, cfg=None, env=None, timeout=800, what="", name=None, workers="auto"):
        """Exhaustive check of the specification itself; any error is an error of the check."""
        rc, out, gen, dist = self.tlc(module, cfg, env, timeout=timeout, name=name, workers=workers)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("TLC does not accept %s:\n%s" % (name or module, out[-4000:]))
        with self.lock:
            self.states += dist
            self.transitions += gen
        self.parts.append({"model_check": name or module, "what": what, "distinct_states": dist, "generated": gen})

    def gen(self, module, out, cfg=None, env=None, extra=(), timeout=600, name=None):
        """Have TLC write scenarios (ndjson) to `out`."""
        e = dict(env or {}, VERIF_GEN=out)
        rc, text, gen, dist = self.tlc(module, cfg, e, workers=1, timeout=timeout, extra=extra, name=name)
        if not os.path.exists(out) or ("Error:" in text):
            raise CheckError("TLC generated nothing from %s:\n%s" % (module, text[-4000:]))
        with open(out) as f:
            n = sum(1 for _ in f)
        self.parts.append({"generated_by_spec": name or module, "scenarios": n})
        return n

    def validate(self, module, lines, cfg=None, steps=None, env=None, timeout=800, name=None, what="",
                 heap="6g", ids_seen=None):
        """Validate recorded logs against the specification.  `steps(line)` is the number of
        specification steps of a log line; the state count must come out right."""
        if not lines:
            raise CheckError("%s: empty log" % (name or module))
        seen = {}
        for ln in lines:
            if ln["id"] in seen and not ln.get("crash"):
                raise CheckError("two log lines of " + ln["id"])
            seen[ln["id"]] = ln
        bad = {}
        good = []
        for ln in lines:
            if ln.get("crash"):
                # the specification has no behaviour in which the code crashes or hangs
                bad[ln["id"]] = ("crash", ln)
            else:
                good.append(ln)
        good = [ln for ln in good if ln["id"] not in bad]
        gen = dist = 0
        if good:
            log = self.fresh("log-%s.ndjson" % module)
            with open(log, "w") as f:
                for ln in good:
                    f.write(json.dumps(ln) + "\n")
            e = dict(env or {}, VERIF_LOG=log)
            rc, out, gen, dist = self.tlc(module, cfg, e, timeout=timeout, name=name, heap=heap)
            if "No error has been found" not in out:
                raise CheckError("TLC failed on the log of %s:\n%s" % (name or module, out[:1500] + "\n...\n" + out[-3000:]))
            if '"MISFIT"' in out:
                raise CheckError("scenarios are not what they are meant to be (%s):\n%s" % (name or module, out[-2000:]))
            for m in re.finditer(r'<<"REJECT", "([^"]*)"(?:, (.*?))?>>\s*$', out, re.M):
                bad[m.group(1)] = ("reject", m.group(2) or "")
            n_rej = sum(1 for v in bad.values() if v[0] == "reject")
            if '"REJECT"' in out and not n_rej:
                raise CheckError("cannot read TLC's verdict:\n" + out[-2000:])
            if steps is not None:
                want = sum(steps(ln) for ln in good if ln["id"] not in bad)
                have_min = want + n_rej
                if (not n_rej and dist != want) or dist < have_min:
                    raise CheckError("TLC explored %d states of the logs, expected %d (%s)" % (dist, want, name or module))
            os.unlink(log)
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.traces += len(good) - sum(1 for v in bad.values() if v[0] == "reject")
        self.parts.append({"validated": name or module, "what": what, "logs": len(lines), "accepted": len(lines) - len(bad),
                           "distinct_states": dist})
        for i, (kind, why) in bad.items():
            self.violations.append({"id": i, "kind": kind, "spec": module,
                                    "at": why if kind == "reject" else why.get("crash"), "log": seen[i]})
        if good and len(self.samples) < 4:
            self.sample(good[len(good) // 2])
        return bad

    def sample(self, obj):
        s = json.dumps(obj)
        self.samples.append(json.loads(s) if len(s) < 6000 else s[:6000] + "...")

    # -- reporting -------------------------------------------------------------

    def finish(self, level="model_checking"):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        known = known_findings(self.prop)
        fresh = []
        for v in self.violations:
            k = next((k for k in known if k["match"] in v["id"]), None)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
            else:
                fresh.append(v)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:4] or ["(no accepted log)"], "parts": self.parts}
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        if self.traces == 0 and not fresh:
            raise CheckError("no trace was validated")
        with open("%s/evidence/%s.json" % (VERIF, self.prop), "w") as f:
            json.dump(ev, f, indent=1)
        for old in os.listdir(VERIF + "/evidence"):
            if old.startswith("replay-%s-" % self.prop):
                os.unlink(VERIF + "/evidence/" + old)
        for n, v in enumerate(fresh[:5]):
            path = "%s/evidence/replay-%s-%d.json" % (VERIF, self.prop, n)
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                           "rerun": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s" % (self.seed, self.tier, self.prop),
                           "violation": v}, f, indent=1)
            print("%s: %s in scenario %s at %s" % (v["spec"], v["kind"], v["id"], str(v["at"])[:200]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1 if fresh else 0


def known_findings(prop):
    """Lines "known: property=<id> match=<scenario id part> <text>" of known-findings.txt."""
    res = []
    try:
        with open(VERIF + "/known-findings.txt") as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    res.append({"match": m.group(2), "text": m.group(3)})
    except OSError:
        pass
    return res


def parallel(*jobs, width=None):
    """Run the thunks at the same time; the first exception is raised."""
    with concurrent.futures.ThreadPoolExecutor(width or len(jobs)) as ex:
        futs = [ex.submit(j) for j in jobs]
        return [f.result() for f in futs]
