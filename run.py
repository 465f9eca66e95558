#!/usr/bin/env python3
"""Decides one property: run.py <id> [quick|thorough], or run.py replay <file>.

Every check is a chain of stages (see PLANS):
  mc       TLC explores a model of the specification exhaustively and checks its invariants
  conform  TLC draws behaviours from the specification, the recorder runs them on the library
           built from /repo's working tree, and TLC validates what was recorded against the
           specification
Exit status: 0 the property held, 1 violated (with VIOLATION lines), 2 the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
EVIDENCE = os.path.join(VERIF, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
SHARDS = 8

sys.dont_write_bytecode = True
from plans import PLANS  # noqa: E402


class Broken(Exception):
    pass


def build():
    target = os.path.join(VERIF, "harness", "target")
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("the recorder does not build:\n" + p.stdout[-4000:])
    return os.path.join(target, "debug", "harness")


def tlc(module, work, name, env, workers=1, timeout=850, heap="3g"):
    """Runs TLC on a module; returns (exit status, output)."""
    meta = os.path.join(work, "meta-" + name)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + meta, "-Xss256m", "-Xmx" + heap, "-XX:+UseSerialGC"]
    cmd += ["-XX:TieredStopAtLevel=1"] if workers == 1 else []
    cmd += ["-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-nowarning", "-noGenerateSpecTE",
            "-config", module + ".cfg", module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in env.items()})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, encoding="utf-8", errors="replace")
    except subprocess.TimeoutExpired:
        raise Broken("TLC ran out of time on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(work, name + ".log"), "w") as f:
        f.write(p.stdout)
    return p.returncode, p.stdout


STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def states(out):
    m = None
    for m in STATES.finditer(out):
        pass
    return (0, 0) if m is None else tuple(int(x.replace(",", "")) for x in m.groups())


def whole_lines(text):
    """The lines of a file of JSON, whose strings may hold other characters that Python takes as ends of lines."""
    return text[:text.rfind("\n") + 1].split("\n")[:-1]


def decode(line):
    x = json.loads(line)
    return json.loads(x) if isinstance(x, str) else x


def record(harness, cases, events):
    """Runs every case; a case that crashes or hangs the library becomes an event that says so."""
    done = 0
    with open(cases, encoding="utf-8") as f:
        lines = whole_lines(f.read())
    open(events, "w").close()
    spoiled = 0
    while done < len(lines):
        if spoiled > 40:
            break
        p = subprocess.run([harness, cases, events, str(done)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        with open(events, encoding="utf-8") as f:
            written = f.read()
        whole = written[:written.rfind("\n") + 1]
        got = whole.count("\n")
        if p.returncode == 0:
            if got != len(lines):
                raise Broken("the recorder lost events")
            return lines
        if p.returncode == 2:
            raise Broken("the recorder does not understand a case: " + p.stderr[-2000:])
        if got >= len(lines):
            raise Broken("the recorder ended with %d" % p.returncode)
        case = decode(lines[got])
        case["ended"] = "hang" if p.returncode == 3 else "crash"
        case["o"] = {"none": True}
        with open(events, "w", encoding="utf-8") as f:
            f.write(whole + json.dumps(case, ensure_ascii=False) + "\n")
        done = got + 1
        spoiled += 8 if case["ended"] == "hang" else 1
    return lines


class Stage:
    def __init__(self, prop, tier, work, harness):
        self.prop, self.tier, self.work, self.harness = prop, tier, work, harness
        self.states = self.transitions = self.traces = 0
        self.bad, self.samples, self.notes = [], [], []
        self.lock = threading.Lock()
        self.errors = []

    def mc(self, s):
        t = s.get(self.tier, {})
        env = dict(s.get("env", {}), **t.get("env", {}))
        rc, out = tlc(s["module"], self.work, "mc-" + s["module"] + s.get("tag", ""), env, workers=8, heap="12g")
        gen, distinct = states(out)
        if rc != 0 or "No error has been found" not in out:
            raise Broken("TLC rejects the model %s itself:\n%s" % (s["module"], out[-3000:]))
        self.states += distinct
        self.transitions += gen
        self.notes.append("%s: %d states, %d transitions, no error" % (s["module"] + s.get("tag", ""), distinct, gen))

    def shard(self, s, n, tag, env):
        try:
            base = os.path.join(self.work, "%s-%d" % (tag, n))
            cases, events = base + ".cases", base + ".events"
            if "cases" in s:
                with open(cases, "w", encoding="utf-8") as f:
                    for c in s["cases"][n::SHARDS]:
                        f.write(json.dumps(c, ensure_ascii=False) + "\n")
                gen = distinct = 0
            else:
                rc, out = tlc(s["gen"], self.work, "%s-gen-%d" % (tag, n), dict(env, SHARD=n, SHARDS=SHARDS, OUT=cases, VERIF_SEED=SEED))
                if rc != 0:
                    raise Broken("the generator %s fails:\n%s" % (s["gen"], out[-3000:]))
                gen, distinct = states(out)
                if not os.path.exists(cases):
                    open(cases, "w").close()
            lines = record(self.harness, cases, events)
            if not lines:
                return
            with open(events, encoding="utf-8") as f:
                recorded = whole_lines(f.read())
            rc, out = tlc(s["judge"], self.work, "%s-judge-%d" % (tag, n), dict(env, TRACE=events))
            if rc != 0:
                raise Broken("trace validation with %s fails:\n%s" % (s["judge"], out[-3000:]))
            g2, d2 = states(out)
            with self.lock:
                self.states += distinct + d2
                self.transitions += gen + g2
                self.traces += len(recorded)
                if n == 0 and len(self.samples) < 4:
                    self.samples += [short(decode(x)) for x in recorded[1:3]]
            by_no = {}
            for line in out.split("\n"):
                if line.startswith('"BAD '):
                    r = json.loads(json.loads(line)[4:])
                    what = [b[1] for b in r["bad"] if b[0] == self.prop]
                    if what:
                        by_no = by_no or {json.loads(x)["no"]: x for x in recorded}
                        with self.lock:
                            self.bad.append((s, tag, env, r["no"], sorted(what), by_no.get(r["no"])))
        except Exception as e:  # noqa: BLE001
            with self.lock:
                self.errors.append(e)

    def conform(self, s):
        t = s.get(self.tier, {})
        env = {"COUNT": t.get("count", s.get("count", 1000)), "PLAN": s.get("plan", "default"), "TIER": self.tier}
        env.update(s.get("env", {}))
        env.update(t.get("env", {}))
        tag = s.get("gen", "known") + "-" + s.get("plan", "default")
        threads = [threading.Thread(target=self.shard, args=(s, n, tag, env)) for n in range(SHARDS)]
        before = self.traces
        for x in threads:
            x.start()
        for x in threads:
            x.join()
        if self.errors:
            raise self.errors[0]
        self.notes.append("%s/%s: %d behaviours validated" % (s.get("gen", "known"), s.get("plan", "default"), self.traces - before))


def short(x):
    s = json.dumps(x, ensure_ascii=False)
    return json.loads(s) if len(s) < 3000 else s[:3000] + "..."


def known(prop):
    """The known findings of a property: [(description, judge, case)]."""
    out = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS"), encoding="utf-8") as f:
        for line in f:
            m = re.match(r"known: property=(\w+) (\{.*\})\s*$", line)
            if m and m.group(1) == prop:
                out.append(json.loads(m.group(2)))
    return out


def run(prop, tier):
    start = time.time()
    work = os.path.join(WORK, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(EVIDENCE, exist_ok=True)
    replays = os.path.join(EVIDENCE, "replay")
    os.makedirs(replays, exist_ok=True)
    for f in os.listdir(replays):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(replays, f))
    harness = build()
    st = Stage(prop, tier, work, harness)
    for s in PLANS[prop]:
        if "only" in s and s["only"] != tier:
            continue
        st.mc(s) if s["kind"] == "mc" else st.conform(s)
        if st.bad:
            break
    bad = st.bad
    st.bad = []
    findings = known(prop)
    for k, f in enumerate(findings):
        f["case"]["no"] = 1000000 + k
    reported = set()
    for judge in sorted({f["judge"] for f in findings}):
        st.conform({"kind": "conform", "judge": judge, "plan": judge, "cases": [f["case"] for f in findings if f["judge"] == judge]})
        for b in st.bad:
            reported.add(b[3])
        st.bad = []
    for k, f in enumerate(findings):
        if 1000000 + k in reported:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    shown = 0
    for k, (s, tag, env, no, what, hit) in enumerate(sorted(bad, key=lambda b: len(b[5] or ""))):
        if shown >= 5:
            break
        path = os.path.join(replays, "%s-%d.json" % (prop, k))
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "judge": s["judge"], "env": env, "what": what, "event": json.loads(hit) if hit else None}, f,
                      ensure_ascii=False, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  case %s: %s" % (no, "; ".join(what)))
        shown += 1
    if len(bad) > shown:
        print("  and %d more" % (len(bad) - shown))
    evidence = {
        "property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
        "coverage": {"states": st.states, "transitions": st.transitions, "traces_validated_against_impl": st.traces,
                     "samples": st.samples, "stages": st.notes, "known_findings": len(findings)},
        "assumptions": ["TLC evaluates the specification as TLA+ defines it", "the recorder reports what the library returned"],
        "wall_s": round(time.time() - start, 1), "violations": len(bad),
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, ensure_ascii=False, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %s in %.0f s; %s" % (prop, tier, "violated" if bad else "held", evidence["wall_s"], "; ".join(st.notes)))
    return 1 if bad else 0


def replay(path):
    with open(path, encoding="utf-8") as f:
        r = json.load(f)
    case = {k: v for k, v in r["event"].items() if k not in ("o", "ended")}
    work = os.path.join(WORK, "replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    st = Stage(r["property"], "quick", work, build())
    st.conform({"kind": "conform", "judge": r["judge"], "plan": "replay", "cases": [case], "env": r["env"]})
    for b in st.bad:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        print("  " + "; ".join(b[4]))
    shutil.rmtree(work, ignore_errors=True)
    return 1 if st.bad else 0


def main():
    sys.stdout.reconfigure(encoding="utf-8")
    try:
        if sys.argv[1] == "build":
            build()
            return 0
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return run(sys.argv[1], tier)
    except Broken as e:
        print("BROKEN: %s" % e, file=sys.stderr)
        return 2
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
