"""Replays a reported violation on the real code. usage: python3-vt replay.py FILE"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sv import frame
v = json.load(open(sys.argv[1]))
ctx = frame.Ctx()
try:
    needs = [v["lang"]]
    if v["lang"].startswith("cpp@"):
        needs = ["cpp"]
    elif v["lang"] not in ("cpp", "asm", "java"):
        import units
        needs = [v["lang"]] if hasattr(frame.Ctx, "_b_" + v["lang"]) else []
    ctx.build(needs)
    print("input:   ", v["line"])
    print("expected:", v["expected"])
    print("got:     ", ctx.native(v["lang"], [v["line"]])[0])
finally:
    ctx.close()
