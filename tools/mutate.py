"""mutation sanity of a recorded data set: change single values and see that TLC rejects.
usage: mutate.py <check module> (uses the check's CFG and spec through a hook on vlib.tlc_check)"""
import sys, random, copy, os
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", x) for x in ("lib", "checks")]
import vlib, importlib
m = importlib.import_module(sys.argv[1])
n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
calls = []
orig = vlib.tlc_check
class Stop(Exception): pass
def hook(what, module, cfg, data=None, **kw):
    calls.append((module, cfg, data, kw))
    return vlib.TLCResult(0, "", 0.0)
vlib.tlc_check = hook
ctx = vlib.Ctx(sys.argv[1].upper(), "quick", 1)
try:
    m.run(ctx)
except Exception as e:
    print("run:", repr(e)[:200])
rng = random.Random(5)

def paths(x, pre, out):
    """schema path -> list of concrete paths to leaves"""
    if isinstance(x, dict):
        for k in x: paths(x[k], pre + [k], out)
    elif isinstance(x, list):
        for i, y in enumerate(x): paths(y, pre + [i], out)
    elif isinstance(x, (int, bool)) :
        key = ".".join(k for k in pre if isinstance(k, str))
        out.setdefault(key, []).append(pre)

for module, cfg, data, kw in calls:
    for dn in data:
        if isinstance(data[dn], str): continue
        full = data[dn]
        # small subset of items for speed
        sub = full if not isinstance(full, list) else [full[i] for i in sorted(rng.sample(range(len(full)), min(len(full), 12)))]
        out = {}
        paths(sub, [], out)
        for key, ps in sorted(out.items()):
            if key in ("name", ""): continue
            res = []
            for t in range(n):
                p = rng.choice(ps)
                D = copy.deepcopy(sub)
                o = D
                for k in p[:-1]: o = o[k]
                v = o[p[-1]]
                o[p[-1]] = (not v) if isinstance(v, bool) else v + rng.choice([1, -1, 2, 1])
                dd = dict(data); dd[dn] = D
                r = vlib.tlc(module, cfg, dd, timeout=600)
                res.append("R" if r.rejected else "ok" if r.ok else "rc%d" % r.rc)
            print(module, key, res, flush=True)
