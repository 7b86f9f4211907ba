"""Development aid: run units by name pattern. usage: rununits.py [-t] PATTERN..."""
import fnmatch, sys, time
sys.path.insert(0, "/verif")
from sv import frame
import units
tier = "quick"
a = sys.argv[1:]
if a and a[0] == "-t":
    tier = "thorough"; a = a[1:]
names = [n for n in frame.UNITS if any(fnmatch.fnmatch(n, p) for p in a)]
ctx = frame.Ctx(tier, 1)
try:
    needs = sorted(set(x for n in names for x in frame.UNITS[n].needs))
    t0 = time.time()
    ctx.build(needs)
    print("build %.1fs" % (time.time() - t0), ctx.errors)
    frame.run_units(ctx, names, verbose=True, stop_on_violation=False)
    print("total %.1fs" % (time.time() - t0))
finally:
    ctx.close()
