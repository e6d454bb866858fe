#!/usr/bin/env python3
"""Make / confirm / run planted bugs.  usage: seeded.py make DEFS.py | confirm [ids] | run [ids]
make   : writes seeded/<id>/{patch.diff,demo.sh,main.go,meta.json} from definitions (edits as exact string replacements)
confirm: in a scratch copy of /repo: applies, builds, stable tests pass, demo 0 clean / non-zero patched,
         at least one changed line is of the original repository
run    : applies the patch to /repo, runs the property's quick check, undoes it; prints CAUGHT / MISSED
No check uses this file or seeded/."""
import sys, os, subprocess, json, shutil, tempfile, time, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
S = os.path.join(V, "seeded")
BASE = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split()[0]
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GO111MODULE="off",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOWORK="off")
DEMO = '''#!/bin/bash
# run in the repository's root; exit 0: behaves as promised, non-zero: broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOPATH=$t/gopath GO111MODULE=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
mkdir -p "$GOPATH/src/github.com/vipally" "$GOPATH/src/demo"
ln -s "$(pwd)" "$GOPATH/src/github.com/vipally/gx"
cp "$here/main.go" "$GOPATH/src/demo/"
cd "$GOPATH/src/demo" && go build -o "$t/demo" . || exit 9
timeout 200 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)

def make(defs):
    g = {}
    exec(open(defs, encoding="utf-8").read(), g)
    for d in g["SEEDS"]:
        out = os.path.join(S, d["id"]); os.makedirs(out, exist_ok=True)
        t = tempfile.mkdtemp()
        diff = ""
        for f in dict.fromkeys(e[0] for e in d["edits"]):
            src = open("/repo/" + f, encoding="utf-8").read(); new = src
            for e in d["edits"]:
                if e[0] != f: continue
                n = e[3] if len(e) > 3 else None
                c = new.count(e[1])
                if n is None and c != 1: raise SystemExit("%s: %d matches in %s: %r" % (d["id"], c, f, e[1]))
                if n is None: new = new.replace(e[1], e[2])
                else:
                    parts = new.split(e[1]); assert len(parts) > n + 1
                    new = e[1].join(parts[:n + 1]) + e[2] + e[1].join(parts[n + 1:])
            for side, txt in (("a", src), ("b", new)):
                p = os.path.join(t, side, f); os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w", encoding="utf-8").write(txt)
            diff += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, capture_output=True, text=True).stdout
        shutil.rmtree(t)
        diff = re.sub(r"^((?:---|\+\+\+) [^\t\n]+)\t.*$", r"\1", diff, flags=re.M)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/main.go", "w").write(d["demo"])
        json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]),
                  open(out + "/meta.json", "w"), indent=1)

def ids(a): return a or sorted(os.listdir(S))

def original_lines(repo, patch):
    """number of removed lines that are blamed to the base commit"""
    n = 0; f = None; cache = {}
    for line in open(patch):
        if line.startswith("--- "): f = line[4:].strip()[2:]; cache.clear(); cache["l"] = None; continue
        m = re.match(r"@@ -(\d+)", line)
        if m: ln = int(m.group(1)); continue
        if f is None or line.startswith("+"): continue
        if line.startswith("-"):
            if cache.get("l") is None:
                cache["l"] = sh("git -C %s blame -l '%s'" % (repo, f)).stdout.split("\n")
            h = cache["l"][ln - 1].lstrip("^")[:39]
            n += BASE.startswith(h)
        ln += 1
    return n

def confirm(a):
    t = tempfile.mkdtemp(dir="/tmp"); bad = 0
    try:
        gp = t + "/gopath"; os.makedirs(gp + "/src/github.com/vipally")
        r = gp + "/src/github.com/vipally/gx"
        sh("git clone -q /repo %s" % r)
        env = dict(ENV, GOPATH=gp)
        stable = ["convert", "debug", "factory", "reflect", "stl", "unsafe"]
        pk = open("/opt/vp/env.sh").read()
        ex = re.search(r'EXCLUDED="([^"]*)"', pk).group(1).split()
        pkgs = [p for p in sh("go list -e ./...", cwd=r, env=env).stdout.split()
                if p.replace("github.com/vipally/gx/", "") not in ex]
        for i in ids(a):
            d = os.path.join(S, i); msg = []
            dd = os.path.join(t, "d"); shutil.rmtree(dd, ignore_errors=True); os.makedirs(dd)
            for f in os.listdir(d):
                if not f.endswith((".diff", ".json")): shutil.copy(os.path.join(d, f), dd)
            c = sh("bash %s/demo.sh" % dd, cwd=r)
            if c.returncode: msg.append("demo fails on the clean tree: %s" % (c.stdout + c.stderr)[-300:])
            o = original_lines(r, d + "/patch.diff")
            if not o: msg.append("changes no original line")
            if sh("git apply %s/patch.diff" % d, cwd=r).returncode: msg.append("does not apply")
            else:
                b = sh("go build " + " ".join(pkgs), cwd=r, env=env)
                if b.returncode: msg.append("does not build: " + b.stderr[-300:])
                else:
                    tt = sh("go test -vet=off -count=1 " + " ".join("./" + s for s in stable), cwd=r, env=env)
                    if tt.returncode and "FAIL" in tt.stdout:
                        fails = set(re.findall(r"--- FAIL: (\w+)", tt.stdout))
                        if fails & {"TestConvert", "TestDebug", "TestReflect", "TestNew", "TestHeap", "TestPointer"} or not fails:
                            msg.append("tests: " + tt.stdout[-300:])
                    p = sh("bash %s/demo.sh" % dd, cwd=r)
                    if p.returncode == 0: msg.append("demo passes with the patch")
                    elif p.returncode == 9: msg.append("demo does not build with the patch")
            sh("git checkout -q -- . && git clean -fdq", cwd=r)
            print("%-28s %s" % (i, "ok" if not msg else "BAD " + " | ".join(msg)), flush=True); bad += bool(msg)
    finally: shutil.rmtree(t)
    return bad

def run(a):
    for i in ids(a):
        d = os.path.join(S, i); prop = json.load(open(d + "/meta.json"))["property"]
        if sh("git -C /repo status --porcelain").stdout.strip(): raise SystemExit("/repo not clean")
        if sh("git -C /repo apply %s/patch.diff" % d).returncode: print(i, "does not apply"); continue
        t0 = time.time()
        try: r = sh("python3 tools/check.py %s --tier quick" % prop, cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"), timeout=900)
        finally: sh("git -C /repo checkout -- .")
        ok = r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout
        print("%-28s %s rc=%d %3ds %s" % (i, "CAUGHT" if ok else "MISSED", r.returncode, time.time() - t0,
              (r.stdout + r.stderr).strip().split("\n")[-1][:160]), flush=True)

if __name__ == "__main__":
    cmd, a = sys.argv[1], sys.argv[2:]
    if cmd == "make": make(a[0])
    elif cmd == "confirm": sys.exit(confirm(a) > 0)
    elif cmd == "run": run(a)
