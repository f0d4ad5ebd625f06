#!/usr/bin/env python3
"""Decides one property: builds the harness against /repo, lets TLC check the specification and
the observations of the real code against it, and writes evidence/<id>.json.

usage: check.py <property> [quick|thorough]
exit:  0 held, 1 violated (with VIOLATION lines), 2 the check itself could not be carried out
"""
import json, os, re, subprocess, sys, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, ".work")
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


class ToolError(Exception):
    pass


class Crash(Exception):
    """The code under test took the harness down; the argument describes the input."""


def env(extra=None):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e.update(extra or {})
    return e


def build(features=""):
    """Builds the harness (and with it /repo's crates) and returns the binary."""
    target = os.environ.get("HV_TARGET") or os.path.join(WORK, "target")
    if features:
        target += "-" + features.replace(",", "-")
    cmd = ["cargo", "build", "--offline", "--quiet"] + (["--features", features] if features else [])
    p = subprocess.run(cmd, cwd=HARNESS, env=env({"CARGO_TARGET_DIR": target}),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("the harness does not build:\n" + p.stdout[-3000:])
    return os.path.join(target, "debug", "hclverif")


def build_cli():
    """Builds /repo's hcl2json and returns the binary."""
    target = (os.environ.get("HV_TARGET") or os.path.join(WORK, "target")) + "-cli"
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--locked", "-p", "hcl2json"], cwd="/repo",
                       env=env({"CARGO_TARGET_DIR": target}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("hcl2json does not build:\n" + p.stdout[-3000:])
    return os.path.join(target, "debug", "hcl2json")


def run_macros(cases, code, out):
    """Compiles generated invocations of hcl-rs' macros and runs them; returns how many there are."""
    target = (os.environ.get("HV_TARGET") or os.path.join(WORK, "target")) + "-macros"

    def compiled(path):
        return subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(HERE, "macros"),
                              env=env({"CARGO_TARGET_DIR": target, "HV_CODE": path}),
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    nothing = code + ".none.rs"
    with open(nothing, "w") as f:
        f.write("pub const ALL: &[fn() -> Value] = &[];\n")
    p = compiled(nothing)
    if p.returncode != 0:
        raise ToolError("the crate which runs macros does not build:\n" + p.stdout[-3000:])
    p = compiled(code)
    if p.returncode != 0:
        m = re.search(r"error.*?(?=\nerror|\Z)", p.stdout, re.S)
        raise Crash({"crash": "invocations which should compile do not", "stderr": (m.group(0) if m else p.stdout)[:3000]})
    p = subprocess.run([os.path.join(target, "debug", "hclmacros"), cases, out], env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if p.returncode != 0:
        raise Crash({"crash": str(p.returncode), "stderr": p.stderr[-2000:]})
    return int(p.stdout.strip().splitlines()[-1])


def run_harness(binary, args, out, seed, tier, timeout=600, extra=None):
    cmd = [binary] + args + ["--out", out, "--seed", str(seed), "--tier", tier]
    try:
        p = subprocess.run(cmd, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout)
        rc, err = p.returncode, p.stderr[-2000:]
    except subprocess.TimeoutExpired:
        rc, err = "a timeout", ""
    if rc == 2:
        raise ToolError(f"harness {args}: {err}")
    if rc != 0:  # the code under test crashed or hangs
        cur = out + ".cur"
        what = open(cur, errors="replace").read() if os.path.exists(cur) else ""
        raise Crash({"crash": str(rc), "while": what, "stderr": err})
    return int(p.stdout.strip().splitlines()[-1])


def tlc(module, cfg=None, extra=None, timeout=800, args=()):
    meta = os.path.join(WORK, "tlc", f"{module}-{os.getpid()}")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx12g", "-cp", JARS, "tlc2.TLC", "-workers", "8",
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or f"{module}.cfg", *args,
           f"{module}.tla"]
    t = time.time()
    p = subprocess.run(cmd, cwd=SPEC, env=env(extra), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    done = "Model checking completed. No error has been found." in out
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    init = re.search(r"Finished computing initial states: (\d+) (?:distinct )?state", out)
    r = {"ok": done and p.returncode == 0, "out": out, "rc": p.returncode, "wall": time.time() - t,
         "generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0,
         "init": int(init.group(1)) if init else 0}
    return r


def tlc_observations(module, cfg, extra, obs, count):
    """Lets TLC check the observations in the file; returns TLC's counts and the rejected ones.

    An observation which is not even of a form the specification can compare (a text where there should be a
    number, say) makes TLC give up on it.  It is rejected, and the others are checked without it."""
    lines = None
    index = list(range(1, count + 1))
    fails, total = set(), {"generated": 0, "distinct": 0, "init": 0}
    for attempt in range(6):
        r = tlc(module, cfg, {**extra, "CASES": obs})
        for k in total:
            total[k] = max(total[k], r[k])
        fails |= {index[int(x) - 1] for x in re.findall(r'<<"FAIL", (\d+)', r["out"])}
        if r["ok"]:
            if r["distinct"] < len(index):
                raise ToolError(f"only {r['distinct']} of {len(index)} observations were checked")
            return total, sorted(fails)
        at = re.findall(r"While working on the initial state:\ni = (\d+)", r["out"])
        for b in re.findall(r"The behavior up to this point is:\n(.*?)(?=Error:|\Z)", r["out"], re.S):
            at += re.findall(r"^i = (\d+)$", b, re.M)[-1:]
        if re.search("StackOverflow|OutOfMemory|ava heap", r["out"]):
            raise ToolError(f"TLC could not check the observations ({module}):\n" + r["out"][-3000:])
        if not at:
            marks = tlc(module, cfg, {**extra, "CASES": obs, "MARK": "1"})["out"]
            seen = {k: {int(x) for x in re.findall(rf'<<"{k}", (\d+)>>', marks)} for k in ("AT", "DONE")}
            with open(obs, encoding="utf-8") as f:
                rest = f.readlines()
            for x in sorted(seen["AT"] - seen["DONE"]):
                with open(obs + "1", "w", encoding="utf-8") as f:
                    f.write(rest[x - 1])
                if not tlc(module, cfg, {**extra, "CASES": obs + "1"})["ok"]:
                    at.append(x)
            if not at:
                raise ToolError(f"TLC could not check the observations ({module}):\n" + r["out"][-3000:])
        odd = {int(x) - 1 for x in at}
        fails |= {index[k] for k in odd}
        if lines is None:
            with open(obs, encoding="utf-8") as f:
                lines = f.readlines()
        index = [x for k, x in enumerate(index) if k not in odd]
        obs = obs + "x"
        with open(obs, "w", encoding="utf-8") as f:
            f.writelines(lines[x - 1] for x in index)
        if not index:
            break
    return total, sorted(fails)


def text(v):
    """Readable form of a value with texts as code point lists."""
    if isinstance(v, list) and v and all(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 0x110000 for x in v):
        return "".join(map(chr, v))
    if isinstance(v, list):
        return [text(x) for x in v]
    if isinstance(v, dict):
        return {k: text(x) for k, x in v.items()}
    return v


def known_findings():
    """property -> list of {key, what}; lines starting with "fixed:" suppress nothing."""
    r = {}
    with open(os.path.join(HERE, "known-findings.txt"), encoding="utf-8") as f:
        for line in f:
            line = line.rstrip("\n")
            m = re.match(r"known: property=(\S+) case=(\{.*?\}) :: (.*)$", line)
            if m:
                r.setdefault(m.group(1), []).append({"case": json.loads(m.group(2)), "what": m.group(3)})
            elif line and not line.startswith(("#", "fixed:")):
                raise ToolError("known-findings.txt: " + line)
    return r


def matches(case, key):
    """A case matches a known finding iff the identifying fields have exactly these values."""
    return all(text(case.get(k)) == v for k, v in key.items())


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    work = os.path.join(WORK, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    check = CHECKS[prop]
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "stages": []}
    violations = []
    known = known_findings().get(prop, [])
    known_hit = set()
    binaries, cli = {}, {}
    for n, st in enumerate(check["stages"]):
        if tier not in st.get("tiers", ("quick", "thorough")):
            continue
        extra = {k: str(v) for k, v in {**st.get("env", {}), **st.get("env_" + tier, {})}.items()}
        info = {"stage": st["name"]}
        if st["kind"] == "model":
            r = tlc(st["module"], st.get("cfg"), extra)
            if not r["ok"]:
                raise ToolError(f"the specification itself fails ({st['module']}):\n" + r["out"][-3000:])
            cov["states"] += r["distinct"]
            cov["transitions"] += max(r["generated"] - r["init"], 0)
            info.update(states=r["distinct"], transitions=max(r["generated"] - r["init"], 0))
        elif st["kind"] == "obs":
            features = st.get("features", "")
            if features not in binaries:
                binaries[features] = build(features)
            binary = binaries[features]
            if check.get("cli") and "HCL2JSON" not in cli:
                cli = {"HCL2JSON": build_cli(), "TMPDIR": work}
            args = list(st["args"])
            if "generate" in st:  # behaviours of the specification, to be replayed
                g = st["generate"]
                gen = os.path.join(work, f"gen{n}.ndjson")
                genv = {**extra, **{k: str(v) for k, v in g.get("env_" + tier, {}).items()}, "OUT": gen}
                r = tlc(g["module"], g.get("cfg"), genv, args=g.get("args", ()))
                if not r["ok"]:
                    raise ToolError(f"generation fails ({g['module']}):\n" + r["out"][-3000:])
                lines = re.findall(r'^<<"GEN", "(.*)">>$', r["out"], re.M)
                with open(gen, "w") as f:
                    for l in lines:
                        f.write(l.replace('\\"', '"').replace("\\\\", "\\") + "\n")
                cov["states"] += r["distinct"]
                cov["transitions"] += max(r["generated"] - r["init"], 0)
                info.update(states=r["distinct"], behaviours=len(lines))
                if not lines:
                    raise ToolError("no behaviours generated:\n" + r["out"][-2000:])
                args += ["--in", gen]
            obs = os.path.join(work, f"obs{n}.ndjson")
            if check.get("macros"):
                code = os.path.join(work, f"code{n}.rs")
                args += ["--code", code]
            try:
                count = run_harness(binary, args, obs, seed, tier, extra={**extra, **cli},
                                    timeout=120 if tier == "quick" else 600)
                if check.get("macros"):
                    cases, obs = obs, os.path.join(work, f"ran{n}.ndjson")
                    if run_macros(cases, code, obs) != count:
                        raise ToolError("not all invocations were run")
            except Crash as e:
                violations.append((st["name"], 0, e.args[0]))
                cov["stages"].append({**info, "crashed": True})
                continue
            if count == 0:
                raise ToolError("no observations")
            r, fails = tlc_observations(st["module"], st.get("cfg"), extra, obs, count)
            cov["traces_validated_against_impl"] += count
            cov["states"] += r["distinct"]
            cov["transitions"] += max(r["generated"] - r["init"], 0)
            info.update(observations=count, rejected=len(fails))
            wanted = set(fails)
            picks = {1 + (count * k) // 7 for k in range(7)}
            with open(obs, encoding="utf-8") as f:
                for i, line in enumerate(f, 1):
                    if i in wanted or (i in picks and len(cov["samples"]) < 12):
                        case = json.loads(line)
                        if i not in wanted:
                            s = json.dumps(text(case), ensure_ascii=False)
                            cov["samples"].append(s if len(s) < 600 else s[:600] + "...")
                            continue
                        for j, k in enumerate(known):
                            if matches(case, k["case"]):
                                known_hit.add(j)
                                break
                        else:
                            violations.append((st["name"], i, case))
        cov["stages"].append(info)
    for j in sorted(known_hit):
        print(f"KNOWN-FINDING: property={prop} {known[j]['what']}")
    shown = []
    for k, (stage, i, case) in enumerate(violations[:5]):
        path = os.path.join("evidence", f"replay-{prop}-{k}.json")
        with open(os.path.join(HERE, path), "w", encoding="utf-8") as f:
            json.dump({"property": prop, "stage": stage, "seed": seed, "tier": tier, "observation": i,
                       "readable": text(case), "case": case}, f, ensure_ascii=False, indent=1)
        shown.append(path)
        print(f"VIOLATION property={prop} replay={path}")
    if len(violations) > 5:
        print(f"({len(violations)} observations in total contradict the specification)")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": check.get("level", "model_checking"), "coverage": cov,
          "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - start, 2),
          "violations": len(violations)}
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    print(f"{prop}: {cov['traces_validated_against_impl']} observations, {cov['states']} states, "
          f"{len(violations)} violations, {len(known_hit)} known findings, {ev['wall_s']} s")
    shutil.rmtree(work, ignore_errors=True)
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        rc = main()
    except ToolError as e:
        print("ERROR:", e)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("ERROR: timeout", e)
        rc = 2
    sys.exit(rc)
