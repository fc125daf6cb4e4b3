#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks use are there and work."""
import os, subprocess, sys, tempfile
ok = True
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.c")
    open(src, "w").write("int main(void) { return 0; }\n")
    for cmd in (["clang", "-fsanitize=address,undefined"], ["clang", "-fsanitize=memory"], ["clang", "-fsanitize=thread"], ["gcc", "-fsanitize=address,undefined"], ["gcc"]):
        exe = os.path.join(d, "a")
        r = subprocess.run(cmd + [src, "-o", exe], capture_output=True, text=True)
        if r.returncode or subprocess.run([exe]).returncode:
            print("does not work:", " ".join(cmd), r.stderr[:300])
            ok = False
    if subprocess.run(["objcopy", "--version"], capture_output=True).returncode:
        print("objcopy is missing")
        ok = False
sys.exit(0 if ok else 1)
