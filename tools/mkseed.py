#!/usr/bin/env python3
"""mkseed.py DEFS.py: writes /verif/seeded/<id>/ from definitions (development aid).
DEFS.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, cpp=source or None, java=source or None, asm=False)]."""
import json, os, subprocess, sys, runpy, shutil, tempfile
CPP_SH = '''#!/bin/bash
# exit 0: behaviour right; nonzero: broken
set -e
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
src=$(ls cpp/*.cpp | grep -v -e Test.cpp -e OpCount.cpp)
for f in $src "$here/demo.cpp"; do
	g++ -std=c++11 -O1 -w %s -Icpp -c "$f" -o "$w/$(basename "$f" .cpp).o" &
done
wait
g++ "$w"/*.o %s -o "$w/demo"
timeout 200 "$w/demo"
'''
TRACE_SH = '''#!/bin/bash
# exit 0: both runs execute the same instructions at the same addresses; nonzero: they differ
set -e
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
src=$(ls cpp/*.cpp | grep -v -e Test.cpp -e OpCount.cpp)
for f in $src "$here/demo.cpp"; do
	g++ -std=c++11 -O1 -w -DNDEBUG -fno-pie -Icpp -c "$f" -o "$w/$(basename "$f" .cpp).o" &
done
wait
g++ -no-pie "$w"/*.o -o "$w/demo"
mark=$(nm "$w/demo" | awk '$3 == "mark" { print $1 }')
mark=$(printf '%%x' 0x$mark)
trace() {
	valgrind -q --tool=lackey --basic-counts=no --trace-mem=yes --log-fd=9 "$w/demo" "$1" 9>&1 >/dev/null 2>/dev/null | grep -E '^(I | [LSM] )' |
		sed -nE '/^ S 0*'$mark',4/,/^ S 0*'$mark',4/p' | tee >(wc -l >"$w/n$1") | md5sum >"$w/t$1"
	sleep 0.2
	test "$(cat "$w/n$1")" -gt 2
}
trace 0 & p=$!
trace 1
wait $p
cmp "$w/t0" "$w/t1"
'''
JAVA_SH = '''#!/bin/bash
# exit 0: behaviour right; nonzero: broken
set -e
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
src=$(ls java/io/nayuki/bitcoin/crypto/*.java | grep -v Test.java)
javac -nowarn -d "$w" $src "$here/Demo.java"
timeout 200 java %s -cp "$w" io.nayuki.bitcoin.crypto.Demo
'''
JTRACE_SH = '''#!/bin/bash
# exit 0: all lines of operands.txt take the same jumps and array elements; nonzero: they differ
set -e
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
x="--add-exports java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED --add-exports java.base/jdk.internal.org.objectweb.asm.tree=ALL-UNNAMED"
javac -nowarn -d "$w/lib" $(ls java/io/nayuki/bitcoin/crypto/*.java | grep -v Test.java)
javac -nowarn $x -d "$w/demo" "$here/CtDriver.java"
timeout 200 java $x -cp "$w/demo" CtDriver "$w/lib" <"$here/operands.txt" >"$w/out"
cat "$w/out"
test "$(wc -l <"$w/out")" -ge 2
! grep -q '^!' "$w/out"
test "$(sort -u "$w/out" | wc -l)" = 1
'''
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    d = "/verif/seeded/" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0
    try:
        for f, old, new in s["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if s.get("trace"):
        open(d + "/demo.sh", "w").write(TRACE_SH.replace("%%", "%"))
        open(d + "/demo.cpp", "w").write("// argument 0 or 1: which operands; the operation runs between two writes to the mark\n" + s["trace"])
    elif s.get("jtrace"):
        open(d + "/demo.sh", "w").write(JTRACE_SH)
        shutil.copy("/verif/native/CtDriver.java", d + "/CtDriver.java")
        open(d + "/operands.txt", "w").write("\n".join(s["jtrace"]) + "\n")
    elif s.get("cpp"):
        asm = s.get("asm")
        open(d + "/demo.sh", "w").write(CPP_SH % (s.get("flags", "") + (" -DUSE_X8664_ASM_IMPL" if asm else ""), (s.get("flags", "") + " cpp/AsmX8664.s" if asm else s.get("flags", ""))))
        open(d + "/demo.cpp", "w").write(s["cpp"])
    else:
        open(d + "/demo.sh", "w").write(JAVA_SH % s.get("flags", "-ea"))
        open(d + "/Demo.java", "w").write("package io.nayuki.bitcoin.crypto;\n" + s["java"])
    if s.get("reverse_link"):  # the object files in reverse alphabetical order
        p = d + "/demo.sh"
        t = open(p).read().replace('g++ "$w"/*.o ', 'g++ $(ls -r "$w"/*.o) ')
        open(p, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    print("made", s["id"])
