#!/usr/bin/env python3
"""The machinery must reject what is wrong: observations are recorded from the real code and
corrupted, and TLC has to reject exactly the corrupted ones."""
import json, os, random, re, shutil, sys
import check

work = os.path.join(check.WORK, "selftest")
shutil.rmtree(work, ignore_errors=True)
os.makedirs(work)
binary = check.build()
rng = random.Random(1)


def corrupt(v):
    """Changes one leaf of an observation, away from the input."""
    paths = []

    def walk(x, p):
        if isinstance(x, dict):
            for k, y in x.items():
                walk(y, p + [k])
        elif isinstance(x, list):
            for k, y in enumerate(x):
                walk(y, p + [k])
        elif isinstance(x, bool) or isinstance(x, int):
            paths.append(p)
    walk(v, [])
    p = rng.choice(paths)
    x = v
    for k in p[:-1]:
        x = x[k]
    x[p[-1]] = (not x[p[-1]]) if isinstance(x[p[-1]], bool) else x[p[-1]] + 1


bad = 0
for what, mode, key in [("ast", "ast", "tree"), ("full", "decor", "tree"), ("full", "enc", "enc")]:
    path = os.path.join(work, "obs.ndjson")
    check.run_harness(binary, ["parse", "--what", what], path, 1, "quick")
    rows = [json.loads(l) for l in open(path)]
    rows = [r for r in rows if r["r"] == "ok" and r.get(key)][::40]
    expected = set()
    for i, r in enumerate(rows, 1):
        if i % 2 == 0:
            before = json.dumps(r[key])
            corrupt(r[key]) if isinstance(r[key], dict) else r[key].append(120)
            if json.dumps(r[key]) != before:
                expected.add(i)
    with open(path, "w") as f:
        f.writelines(json.dumps(r) + "\n" for r in rows)
    r = check.tlc("ParseCheck", None, {"CASES": path, "WHAT": mode})
    fails = {int(x) for x in re.findall(r'<<"FAIL", (\d+)', r["out"])}
    print(f"self-test {mode}: {len(rows)} observations, {len(expected)} corrupted, {len(fails)} rejected")
    if not r["ok"] or fails != expected:
        print("  differs:", sorted(fails ^ expected)[:10], r["out"][-500:] if not r["ok"] else "")
        bad = 1
# an observation which cannot even be compared is rejected, too, and the others are still checked
rows[3]["enc"] = "text"
rows[5]["enc"][0] = "x"
with open(path, "w") as f:
    f.writelines(json.dumps(r) + "\n" for r in rows)
fails = set(check.tlc_observations("ParseCheck", None, {"WHAT": "enc"}, path, len(rows))[1])
print(f"self-test of observations of another form: {len(fails)} rejected")
if fails != expected | {4, 6}:
    print("  differs:", sorted(fails ^ (expected | {4, 6}))[:10])
    bad = 1
shutil.rmtree(work, ignore_errors=True)
sys.exit(bad)
