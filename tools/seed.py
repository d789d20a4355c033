#!/usr/bin/env python3
"""Planted bugs.  seed.py new NAME PROPERTY 'needs' 'what it breaks': saves /repo's uncommitted
change and the demonstration demo.rs (from stdin) as seeded/NAME, and undoes the change.
seed.py verify NAME...: confirms that it counts, and runs the property's check against it."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = f"{ROOT}/seeded"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh("git -C /repo checkout -- .")


def new(name, prop, needs, breaks):
    d = f"{SEEDED}/{name}"
    diff = sh("git -C /repo diff").stdout
    assert diff, "no change in /repo"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.rs", "w").write(sys.stdin.read())
    for f in os.listdir(f"{ROOT}/tools/seed"):
        shutil.copy(f"{ROOT}/tools/seed/{f}", d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), ensure_ascii=False, indent=1)
    clean()


def demo(name):
    return sh(["bash", f"{SEEDED}/{name}/demo.sh"], cwd="/repo", env={**os.environ, "DEMO_TARGET": "/tmp/demo-target"})


def verify(name, checks=True):
    prop = json.load(open(f"{SEEDED}/{name}/meta.json"))["property"]
    assert not sh("git -C /repo status --short").stdout
    r = demo(name)
    if r.returncode:
        return f"{name}: BAD demo fails on the clean tree: {r.returncode}\n{r.stdout[-2000:]}"
    if sh(f"git -C /repo apply {SEEDED}/{name}/patch.diff").returncode:
        return f"{name}: BAD does not apply"
    try:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            return f"{name}: BAD does not build\n{r.stdout[-1500:]}"
        sh("bash /opt/vp/test.sh /tmp/seed-test.json")
        t = json.load(open("/tmp/seed-test.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = base if isinstance(base, list) else base.get("passed") or base.get("stable") or base.get("tests")
        missing = set(want) - set(t["passed"])
        if missing:
            return f"{name}: BAD tests fail: {sorted(missing)[:5]}"
        r = demo(name)
        if r.returncode in (0, 98, 99):
            return f"{name}: BAD demo says {r.returncode} with the patch\n{r.stdout[-1500:]}"
        what = r.stdout.strip().splitlines()[-1:] or ["?"]
        if not checks:
            return f"{name}: counts ({what[0][:150]})"
        r = sh([f"{ROOT}/run", prop])
        caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
        return f"{name}: {'caught' if caught else 'MISSED'} by {prop} (exit {r.returncode}; demo: {what[0][:150]})" + ("" if caught else "\n" + r.stdout[-1500:])
    finally:
        clean()


if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(*sys.argv[2:6])
        print(verify(sys.argv[2]))
    else:
        names = sys.argv[2:] or sorted(os.listdir(SEEDED))
        for n in names:
            print(verify(n), flush=True)
