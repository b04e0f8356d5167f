#!/usr/bin/env python3
# mkseed.py SPEC.py : creates seeded/<id>/ from specs  seed(id, prop, edits=[(file, old, new)...], breaks, needs, demo)
# demo: list of (source, expected printed value | "ERROR" | None) or a string holding a whole demo.go
import sys, os, subprocess, json, tempfile, shutil
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SH = '''#!/bin/bash
# runs demo.go against the tree in the current directory
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 2; trap 'rm -rf "$w"' EXIT
. /opt/vp/env.sh
export REPO="$PWD"
printf '{"Replace":{"%s/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$d" > "$w/o.json"
go build @FLAGS@-overlay "$w/o.json" -o "$w/demo" ./zzdemo || exit 2
cd "$w" && @ENV@timeout 200 ./demo
'''
GO = '''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/steelseries/golisp"
)

func main() {
	env := golisp.NewSymbolTableFrameBelow(golisp.Global, "demo")
	bad := false
	for _, s := range [][2]string{
%s	} {
		d, err := golisp.ParseAndEvalAllInEnvironment(strings.ReplaceAll(s[0], "$REPO", os.Getenv("REPO")), env)
		got := "ERROR"
		if err == nil {
			got = golisp.String(d)
		}
		if s[1] != "" && got != s[1] {
			fmt.Printf("%%s => %%s, want %%s (%%v)\\n", s[0], got, s[1], err)
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}
'''
def q(s): return json.dumps(s, ensure_ascii=False)
made = []
def seed(id, prop, edits, breaks, needs, demo, flags="", env=""):
    w = tempfile.mkdtemp(prefix="/tmp/mk.")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        base = subprocess.run(["git", "-C", w + "/r", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
        for f, old, new in edits:
            p = os.path.join(w, "r", f); s = open(p).read()
            if s.count(old) != 1: print(id, f, "matches", s.count(old), "times:", old[:60]); return
            open(p, "w").write(s.replace(old, new))
        subprocess.call(["true"], cwd=w + "/r")
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True).stdout
        # warn when a removed line was added by a fix commit
        for f, old, new in edits:
            b = subprocess.run(["git", "-C", w + "/r", "show", base + ":" + f], capture_output=True, text=True).stdout
            rem = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
            missing = [l for l in rem if l not in b.split("\n")]
            if missing and len(missing) == len(rem): print(id, "WARNING: touches only lines not in the base:", missing[0])
        d = os.path.join(root, "seeded", id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        sh = SH.replace("@FLAGS@", flags + " " if flags else "").replace("@ENV@", env + " " if env else "")
        open(d + "/demo.sh", "w").write(sh)
        if isinstance(demo, str): g = demo
        else: g = GO % "".join("\t\t{%s, %s},\n" % (q(a), q(b or "")) for a, b in demo)
        open(d + "/demo.go", "w").write(g)
        subprocess.call(["gofmt", "-w", d + "/demo.go"])
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        made.append(id)
    finally: shutil.rmtree(w)
exec(open(sys.argv[1]).read())
print("\n".join(made))
