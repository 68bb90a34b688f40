"""U02: polynomial arithmetic (harness/polys.cpp records histories, PolysTrace.tla judges them)"""
import json
import u01
import vlib
LEVEL = "model_checking"
CFG = "SPECIFICATION Spec\n"


def run(ctx):
    d = vlib.build()
    exe = u01.harness(d, "polys", ("error",))
    runs, length, rounds = (150, 80, 1) if ctx.tier == "quick" else (1000, 120, 2)
    for rnd in range(rounds):
        r = vlib.run_prog([exe, str(ctx.seed * 100 + rnd), str(runs), str(length)], timeout=300)
        if r.timed_out or r.rc != 0:
            raise vlib.Rejected("polynomial operations fail: %s" % ("no end" if r.timed_out else "exit status %s" % r.rc),
                                detail=(r.out[-600:] + "\n" + r.err[-1500:]))
        data = [json.loads(l) for l in r.out.splitlines()]
        ctx.count("histories", len(data))
        ctx.count("operations", sum(len(h["steps"]) for h in data))
        ctx.count("reported overflows", sum(s["op"] == "sadd" and s["r"] == [-1] for h in data for s in h["steps"]))
        for h in data[:: max(1, len(data) // 4)]:
            ctx.sample("%s: %s" % (h["kind"], ", ".join("%s%s" % (s["op"], s["a"]) for s in h["steps"][:6])))
        t = vlib.tlc_check("polynomial operations", "PolysTrace", CFG, data={"data": data}, timeout=800)
        ctx.tlc_stats(t, "PolysTrace.tla")
