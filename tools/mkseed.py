"""Helper used while writing planted bugs: mk(id, prop, [(file, old, new)...], needs, breaks, demo_cpp)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# builds and runs demo.cpp against the library built in /repo
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
inc=$(find /repo/core/lib /repo/ext/lib -type d | sed 's/^/-I/')
g++ -std=c++11 -w -O0 $inc -I/repo/_build/generated -I/repo/_build "$here/demo.cpp" -o "$tmp/demo" -L/repo/_build -lgpstk -Wl,-rpath,/repo/_build || exit 2
cd "$tmp" && timeout 120 ./demo
'''
HEAD = r'''#include <iostream>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { std::cout << "line " << __LINE__ << ": " #c " does not hold" << std::endl; bad++; } } while (0)
'''
def mk(id, prop, edits, needs, breaks, demo):
    assert not subprocess.run("git status --porcelain --untracked-files=no", shell=True, cwd="/repo", capture_output=True, text=True).stdout.strip(), "dirty"
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = os.path.join("/repo", f)
            s = open(p, newline="").read()
            assert s.count(old) >= 1, (f, old)
            open(p, "w", newline="").write(s.replace(old, new, 1))
        diff = subprocess.run("git diff", shell=True, cwd="/repo", capture_output=True).stdout
    finally:
        subprocess.run("git checkout -q -- .", shell=True, cwd="/repo")
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.cpp"), "w").write(HEAD + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
