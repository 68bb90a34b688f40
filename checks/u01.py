"""U01: the library containers (harness/containers.cpp records histories, ContainersTrace.tla judges them)"""
import json
import os
import vlib
LEVEL = "model_checking"
CFG = "SPECIFICATION Spec\n"
KINDS = ["bm", "bm", "bs", "bs", "sl", "pl", "sq", "ht", "pt", "pm", "po", "pr"]


def harness(d, name="containers", dirs=("utilities", "error")):
    objs = [o for o in vlib.lib_objects(d, dirs) if os.path.basename(o) != "permutations.o"]
    return vlib.build_harness(d, name + ".cpp", name, objs=objs)


def run(ctx):
    d = vlib.build()
    exe = harness(d)
    runs, length, rounds = (120, 70, 1) if ctx.tier == "quick" else (600, 100, 2)
    for rnd in range(rounds):
        cmd = [exe, str(ctx.seed * 100 + rnd), str(runs), str(length)] + KINDS
        r = vlib.run_prog(cmd, timeout=300)
        if r.timed_out or r.rc != 0:
            raise vlib.Rejected("container operations fail: %s" % ("no end" if r.timed_out else "exit status %s" % r.rc),
                                detail=(r.out[-600:] + "\n" + r.err[-1500:]))
        data = [json.loads(l) for l in r.out.splitlines()]
        ctx.count("histories", len(data))
        ctx.count("operations", sum(len(h["steps"]) for h in data))
        for h in data[:: max(1, len(data) // 5)]:
            ctx.sample("%s: %s" % (h["kind"], ", ".join("%s%s" % (s["op"], s["a"]) for s in h["steps"][:6])))
        t = vlib.tlc_check("container operations", "ContainersTrace", CFG, data={"data": data}, timeout=800)
        ctx.tlc_stats(t, "ContainersTrace.tla")
