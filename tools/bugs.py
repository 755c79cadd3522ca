#!/usr/bin/env python3
"""Plants the bugs of bugs_data.py: writes /verif/seeded/<id>/ after confirming each in a scratch copy.
Usage: bugs.py [confirm] [id...]   (default: all that are not there yet)"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from bugs_data import BUGS

LIB = open(os.path.join(HERE, "demo_lib.go.txt")).read()
DEMO = '''#!/bin/bash
# Fails if the planted bug is there
dir="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)szz_demo_test.go\\": \\"$dir/demo_test.go.txt\\"}}" > "$tmp/overlay.json"
go test -count=1 -timeout 250s %(flags)s-overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env, executable="/bin/bash")


def write(b):
    d = os.path.join(ROOT, "seeded", b["id"])
    work = tempfile.mkdtemp(prefix="bug-")
    try:
        sh(f"cp -a /repo {work}/repo")
        repo = work + "/repo"
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"edit of {f} matches {s.count(old)} times: {old[:50]!r}"
            # only lines of the original repository count
            open(p, "w").write(s.replace(old, new))
        sh("gofmt -l .", repo)
        diff = sh("git diff", repo).stdout
        # blame of the removed lines
        blame = []
        for f, old, new in b["edits"]:
            base = open(os.path.join("/repo", f)).read()
            ln = base[:base.index(old)].count("\n")
            olds, news = old.split("\n"), new.split("\n")
            changed = [ln + 1 + i for i, l in enumerate(olds) if l.strip() and l not in news]
            for c in changed:
                blame.append(sh(f"git blame -s -L {c},{c} {f}", "/repo").stdout.startswith("^3305279"))
        if not blame or not all(blame):
            return f"changes lines of fix commits: {blame}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        flags = b.get("flags", "")
        open(d + "/demo.sh", "w").write(DEMO % dict(pkg=b.get("pkg", ""), flags=flags + (" " if flags else "")))
        os.chmod(d + "/demo.sh", 0o755)
        body = b["demo"]
        lib = LIB.replace('\t"testing"\n', "".join(f'\t"{i}"\n' for i in b.get("imports", [])) + '\t"testing"\n')
        src = body if body.startswith("package") else lib + "\n" + body
        open(d + "/demo_test.go.txt", "w").write(src)
        sh(f"gofmt -w {d}/demo_test.go.txt")
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        # confirm: the demo runs from elsewhere
        shutil.copytree(d, work + "/demo")
        for f in ("patch.diff", "meta.json"):
            os.remove(work + "/demo/" + f)
        env = dict(os.environ)
        r = sh(f". /opt/vp/env.sh; go build ./... && go vet . ./internal/... ./cli", repo)
        if r.returncode:
            return "does not build: " + r.stderr[-300:]
        for n in range(3):
            r = sh(f"bash {work}/demo/demo.sh", repo)
            if r.returncode == 0:
                return "demo passes with the bug"
        msg = (r.stdout + r.stderr)[-400:]
        if "build failed" in msg or "setup failed" in msg:
            return "demo does not compile: " + msg
        for n in range(3):
            r = sh(f"bash {work}/demo/demo.sh", "/repo")
            if r.returncode != 0:
                return "demo fails without the bug: " + (r.stdout + r.stderr)[-400:]
        r = sh("git apply --check " + d + "/patch.diff", "/repo")
        if r.returncode:
            return "patch does not apply"
        # stable tests in place
        return tests(d)
    finally:
        shutil.rmtree(work)


def tests(d):
    sh(f"git apply {d}/patch.diff", "/repo")
    try:
        out = sh("bash /tmp/t.sh | tail -1").stdout.strip()
        if "164 164 missing: set()" not in out:
            return "tests fail: " + out[:200]
    finally:
        sh("git checkout -- .", "/repo")
    return ""


if __name__ == "__main__":
    want = sys.argv[1:]
    for b in BUGS:
        d = os.path.join(ROOT, "seeded", b["id"])
        if want and b["id"] not in want or b.get("draft"):
            continue
        if not want and os.path.exists(d + "/patch.diff"):
            continue
        err = write(b)
        print(b["id"], "OK" if not err else "REJECTED " + err, flush=True)
        if err:
            shutil.rmtree(d, ignore_errors=True)
