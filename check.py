#!/usr/bin/env python3
"""Decides one property: check.py <property> [quick|thorough]

Builds the driver against the current tree of the repository, records calls made by the real code and
lets TLC check them against the specification in spec/. Exit 0: the property held on everything
explored, 1: it is violated (with a VIOLATION line), 2: no answer.
"""
import collections, concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
import plan

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4
CHUNK = 40000  # lines checked by one run of TLC


class NoAnswer(Exception):
    pass


def run(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out.decode(errors="replace")


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.start = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.traces = self.calls = 0
        self.ops = collections.Counter()
        self.samples, self.models = [], []
        self.violation = None

    # building

    def go_env(self):
        return {"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod"}

    def build(self):
        h = os.path.join(self.dir, "harness")
        shutil.copytree(os.path.join(HERE, "harness"), h)
        shutil.copytree(os.path.join(HERE, "spec"), os.path.join(self.dir, "spec"))
        mod = os.path.join(h, "go.mod")
        text = open(mod).read()
        open(mod, "w").write(re.sub(r"(replace github.com/tokenized/txbuilder => ).*", r"\g<1>" + REPO, text))
        self.driver = os.path.join(self.dir, "driver")
        for attempt in (1, 2):
            rc, out = run(["go", "build", "-o", self.driver, "."], 600, cwd=h, env=self.go_env())
            if rc == 0:
                break
        else:
            raise NoAnswer("build failed:\n" + out)
        self.universe = os.path.join(self.dir, "universe.json")
        self.drive(["universe", "-out", self.universe])

    def drive(self, args, timeout=600):
        for attempt in (1, 2):
            # What the code shares between calls must not keep the histories from being made.
            alone = ["-workers", "1"] if attempt == 2 and args[0] in ("gen", "replay") else []
            rc, out = run([self.driver] + args + alone, timeout, env=self.go_env())
            if rc == 0:
                return out
        raise NoAnswer("driver failed: %s\n%s" % (" ".join(args), out[-4000:]))

    # model checking

    def tlc(self, module, cfg, env=None, timeout=1800, args=(), heap="6g", workers=CORES):
        """Returns (status, output): ok, violated or error."""
        d = tempfile.mkdtemp(dir=self.dir)
        for f in os.listdir(os.path.join(self.dir, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(self.dir, "spec", f), d)
        open(os.path.join(d, module + ".cfg"), "w").write(cfg)
        cmd = ["java", "-Xss32m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", module + ".cfg"] + list(args) + [module + ".tla"]
        rc, out = run(cmd, timeout, cwd=d, env=env)
        open(os.path.join(d, "out.txt"), "w").write(out)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        if rc == 0 and ("No error has been found" in out or "-simulate" in args):
            return "ok", out
        if "is violated" in out and re.search(r"(?m)^/\\ bad = \{.+\}", out):
            return "violated", out
        return "error", out

    # trace checking

    def validate(self, path, ops=None, label=""):
        """Checks recorded calls, in parts so that a run of TLC doesn't need too much memory."""
        part, start = [], 1
        n = 0
        with open(path) as f:
            for n, line in enumerate(f, 1):
                if len(part) >= CHUNK and '"f":true' in line[:40]:
                    self.validate_part(part, label, ops)
                    if self.violation:
                        return
                    part = []
                part.append(line)
        if part:
            self.validate_part(part, label, ops)

    def validate_part(self, lines, label, ops):
        path = os.path.join(self.dir, "part.ndjson")
        open(path, "w").writelines(lines)
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n  Scripts <- TraceScripts\n  Rates <- TraceRates\n"
               "  Checked = {\"%s\"}\nINVARIANT Conforms\nVIEW View\nPOSTCONDITION AllChecked\n"
               "CHECK_DEADLOCK FALSE\n" % self.prop)
        env = {"TRACE": path, "UNIVERSE": self.universe}
        for attempt in (1, 2):
            status, out = self.tlc("Trace", cfg, env)
            if status != "error":
                break
        if status == "ok":
            for line in lines:
                e = json.loads(line)
                self.calls += 1
                self.traces += e["f"]
                self.ops["%s:%s" % (e["op"], e["r"].get("e"))] += 1
            if len(self.samples) < 4:
                e = json.loads(lines[-1])
                self.samples.append({"source": label, "history": [
                    {"op": x["op"], "b": x["b"], "a": x["a"], "e": x["r"].get("e")}
                    for x in map(json.loads, lines[-60:]) if x["t"] == e["t"]][:12]})
            return
        at = [int(x) for x in re.findall(r"(?m)^/\\ l = (\d+)", out)]
        # The history is what the code did; if the specification can't even be evaluated on it, it
        # is not a behaviour of the specification.
        if status == "violated" and at:
            n = at[-1] - 1
        elif "Error: " in out and at and "OutOfMemory" not in out and "evaluating" in out.lower():
            n = at[-1]
        else:
            raise NoAnswer("TLC failed:\n" + out[-6000:])
        self.report(lines, n, label, ops, out)

    def report(self, lines, n, label, ops, out):
        t = json.loads(lines[n - 1])["t"]
        first = n
        while not json.loads(lines[first - 1])["f"]:
            first -= 1
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        base = os.path.join(d, "%s-%s-%d" % (self.prop, label.replace(" ", "-"), self.seed))
        with open(base + ".ndjson", "w") as f:
            f.writelines(lines[first - 1:n])
        if ops and os.path.exists(ops):
            with open(ops) as f, open(base + ".ops.ndjson", "w") as g:
                for i, line in enumerate(f, 1):
                    if i == t:
                        g.write(line)
        open(base + ".txt", "w").write(out)
        self.violation = base + ".ndjson"
        e = json.loads(lines[n - 1])
        print("violating call: %s %s" % (e["op"], json.dumps(e["a"])))
        print("result: %s" % json.dumps(e["r"])[:600])

    # what to run

    def record(self, jobs, seed):
        """Records random histories and checks them."""
        total, all_ops = os.path.join(self.dir, "trace.ndjson"), os.path.join(self.dir, "ops.ndjson")
        open(total, "w").close()
        open(all_ops, "w").close()
        first, kinds = 1, []
        for k, (profile, n) in enumerate(jobs):
            out, ops = os.path.join(self.dir, "t.ndjson"), os.path.join(self.dir, "o.ndjson")
            args = ["gen", "-profile", profile, "-n", str(n), "-seed", str(seed * 101 + k), "-first", str(first),
                    "-out", out, "-ops", ops]
            if self.prop in plan.VERIFY:
                args.append("-verify")
            if self.prop in plan.QUERY:
                args.append("-query")
            self.drive(args)
            for a, b in ((out, total), (ops, all_ops)):
                with open(a) as f, open(b, "a") as g:
                    shutil.copyfileobj(f, g)
            first += n
            kinds.append(profile)
        self.validate(total, all_ops, "recorded")

    def derive(self, kind, walks, seed):
        """Derives histories from the model: every last step possible after random first steps."""
        b = plan.BEHAVIOURS[kind]
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n  Scripts <- TraceScripts\n  Rates <- TraceRates\n%s"
               "  FeeRates = {%s}\n  DustRates = {%s}\n  Depth = %d\n  Before = %d\n  MaxIns = 4\n  MaxOuts = 6\n"
               "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n" %
               (plan.ROLES + "".join("  %s = {%s}\n" % (k, ", ".join('"%s"' % x for x in v))
                                     for k, v in (("First", b["first"]), ("Then", b["then"]))),
                ", ".join(map(str, b["fee"])), ", ".join(map(str, b["dust"])), b["depth"], b["before"]))
        status, out = self.tlc("Behaviours", cfg, {"UNIVERSE": self.universe}, args=[
            "-simulate", "num=%d" % walks, "-depth", str(b["depth"] + 2), "-seed", str(seed * 31 + 7)], workers=1)
        found = list(dict.fromkeys(re.findall(r'(?m)^"HISTORY (.*)"$', out)))
        if not found:
            raise NoAnswer("no behaviours:\n" + out[-3000:])
        self.models.append({"model": "Behaviours", "kind": kind, "histories_derived": len(found)})
        scripts = []
        for i, m in enumerate(found):
            ops = json.loads(json.loads('"%s"' % m))
            for o in ops:
                o["a"] = o["a"] or {}
            scripts.append({"ops": ops + b["after"][i % len(b["after"])]})
        return scripts

    def behaviours(self, jobs, seed):
        """Makes derived histories with the real code and checks what happens."""
        with concurrent.futures.ThreadPoolExecutor() as ex:
            derived = [x for xs in ex.map(lambda j: self.derive(j[0], j[1], seed), jobs) for x in xs]
        scripts, trace = os.path.join(self.dir, "scripts.ndjson"), os.path.join(self.dir, "b.ndjson")
        with open(scripts, "w") as f:
            f.writelines(json.dumps(x) + "\n" for x in derived)
        args = ["replay", "-in", scripts, "-out", trace]
        if self.prop in plan.VERIFY:
            args.append("-verify")
        if self.prop in plan.QUERY:
            args.append("-query")
        self.drive(args)
        self.validate(trace, scripts, "derived")

    def tool(self, n, seed):
        """Runs the command line tool and checks what it prints."""
        overlay, tool = os.path.join(self.dir, "overlay.json"), os.path.join(self.dir, "tool")
        if not os.path.exists(tool):
            # The added file only makes names resolve to the driver's local service.
            with open(overlay, "w") as f:
                json.dump({"Replace": {os.path.join(REPO, "cmd", "zz_service.go"):
                                       os.path.join(self.dir, "harness", "tool", "service.go.txt")}}, f)
            env = dict(self.go_env(), GOFLAGS="-mod=readonly")
            for attempt in (1, 2):
                rc, out = run(["go", "build", "-buildvcs=false", "-overlay", overlay, "-o", tool, "./cmd"], 600,
                              cwd=REPO, env=env)
                if rc == 0:
                    break
            else:
                raise NoAnswer("build failed:\n" + out)
        trace = os.path.join(self.dir, "tool.ndjson")
        self.drive(["cli", "-bin", tool, "-dir", self.dir, "-n", str(n), "-seed", str(seed), "-out", trace])
        self.validate(trace, None, "tool")

    def together(self, jobs, seed):
        """Makes histories at the same time with the race detector watching."""
        driver = os.path.join(self.dir, "driver-race")
        if not os.path.exists(driver):
            rc, out = run(["go", "build", "-race", "-o", driver, "."], 600, cwd=os.path.join(self.dir, "harness"),
                          env=dict(self.go_env(), CGO_ENABLED="1"))
            if rc != 0:
                print("no race detector, only outcomes are compared:\n" + out[-500:])
                shutil.copy(self.driver, driver)
        total = os.path.join(self.dir, "together.ndjson")
        logs = os.path.join(self.dir, "races")
        os.makedirs(logs, exist_ok=True)
        first = 1
        with open(total, "w") as g:
            for k, (profile, n) in enumerate(jobs):
                part = os.path.join(self.dir, "t.ndjson")
                args = [driver, "together", "-profile", profile, "-n", str(n), "-seed", str(seed * 101 + k),
                        "-first", str(first), "-out", part]
                for attempt in (1, 2):
                    rc, out = run(args, 600, env=dict(self.go_env(), GORACE="halt_on_error=0 exitcode=0 log_path=" +
                                                      os.path.join(logs, "race")))
                    report = "".join(open(os.path.join(logs, x)).read() for x in sorted(os.listdir(logs)))
                    if rc != 0 and "fatal error: concurrent map" in out:
                        report += out
                    if rc == 0 or report:
                        break
                else:
                    raise NoAnswer("driver failed: %s\n%s" % (" ".join(args), out[-4000:]))
                first += n
                if rc == 0:
                    with open(part) as f:
                        shutil.copyfileobj(f, g)
                if "tokenized/txbuilder" in report:
                    g.write(json.dumps({"t": first, "f": True, "op": "race", "b": "", "a": {"profile": profile},
                                        "r": {"e": "race", "report": report[:4000]}, "s": {}, "q": {}, "m": False, "w": False}) + "\n")
                    break
                elif report:
                    raise NoAnswer("race in the driver:\n" + report[:4000])
        self.validate(total, None, "together")

    def model(self, name):
        """Checks a bounded model. This says nothing about the code, so if it fails there is no answer."""
        m = plan.MODELS[name]
        module = "Model" + name
        open(os.path.join(self.dir, "spec", module + ".tla"), "w").write(
            "---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (module, m["module"], m["define"]))
        checked = "  Checked = {\"%s\"}\n" % self.prop if m.get("checked") else ""
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n  Scripts <- ModelScripts\n  Rates <- ModelRates\n%s%s"
               "INVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (m["constants"], checked, m["invariants"]))
        states, start = self.states, time.time()
        status, out = self.tlc(module, cfg, timeout=7200)
        if status != "ok":
            raise NoAnswer("model %s: %s\n%s" % (name, status, out[-4000:]))
        self.models.append({"model": name, "distinct_states": self.states - states,
                            "seconds": round(time.time() - start, 1), "result": "no error"})

    def go(self):
        p = plan.PLANS[self.prop]
        self.build()
        if "record" in p:
            self.record(p["record"], self.seed)
        if "tool" in p:
            self.tool(p["tool"], self.seed)
        if "together" in p:
            self.together(p["together"], self.seed)
        if "behaviours" in p and not self.violation:
            self.behaviours(p["behaviours"], self.seed)
        for name in p.get("models", []):
            if not self.violation:
                self.model(name)
        if self.tier == "thorough" and not self.violation:
            for name in p.get("deep", []):
                self.model(name)
            budget = float(os.environ.get("VERIF_BUDGET", "1200"))
            r = 1
            while time.time() - self.start < budget and not self.violation:
                seed = self.seed + 100000 * r
                if "record" in p:
                    self.record([(a, n * 2) for a, n in p["record"]], seed)
                if "tool" in p:
                    self.tool(p["tool"] * 4, seed)
                if "together" in p:
                    self.together([(a, n * 2) for a, n in p["together"]], seed)
                if "behaviours" in p and not self.violation:
                    self.behaviours([(k, n * 4) for k, n in p["behaviours"]], seed)
                r += 1

    def evidence(self):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "calls_checked": self.calls,
               "calls_by_operation_and_result": dict(sorted(self.ops.items())),
               "models": self.models, "samples": self.samples or ["violation, see replays"]}
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
             "coverage": cov, "assumptions": plan.ASSUMPTIONS, "wall_s": round(time.time() - self.start, 1),
             "violations": 1 if self.violation else 0}
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier)
    try:
        c.go()
        c.evidence()
    except NoAnswer as e:
        print("no answer for %s: %s" % (prop, e))
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", c.dir)
        else:
            shutil.rmtree(c.dir, ignore_errors=True)
    if c.violation:
        print("VIOLATION property=%s replay=%s" % (prop, c.violation))
        return 1
    print("%s held: %d histories, %d calls, %d states, %.0f s" %
          (prop, c.traces, c.calls, c.states, time.time() - c.start))
    return 0


if __name__ == "__main__":
    sys.exit(main())
