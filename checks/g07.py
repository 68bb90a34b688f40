"""G07: W-graphs, cells, strong components (WGraph.tla, Graphs.tla)"""
import axval
import blockdata
import groups
import kldata
import paramdata
import vlib
import g06
LEVEL = "model_checking"

CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANT GraphAgree\nPOSTCONDITION Complete\n"
GCFG = "SPECIFICATION Spec\nINVARIANT Agree\n"


def blocks(ctx):
    ics = groups.IC_SMALL + groups.IC_MED + ([] if ctx.quick else groups.IC_BIG[:6])
    ps = blockdata.pairs(ctx, ics, 60 if ctx.quick else 200)
    s = axval.Script()
    s.lines.append(blockdata.DEFS + kldata.DEFS)
    tags = []
    for x, rf, drf, n in ps:
        tag = "%s#%d/%d" % (x["name"].replace(" ", "_"), rf, drf)
        kldata.queue_block(s, tag, x, rf, drf, printed=False)
        kldata.queue_wgraph(s, tag)
        tags.append(tag)
    v = s.run(ctx, "W-graphs", timeout=500)
    data = [kldata.collect_wgraph(v, t, kldata.collect_block(v, t)) for t in tags]
    forms = g06.choose_forms(ctx, ics, 60 if ctx.quick else 200)
    pd = g06.record_params(ctx, forms, 2 if ctx.quick else 5, 40 if ctx.quick else 120, ("wg",))
    data += pd
    r = vlib.tlc_check("W-graph or cells differ from those of the polynomials", "WGraph", CFG, {"data": data}, timeout=800, files={"data.json": data})
    ctx.tlc_stats(r, "WGraph")
    ctx.count("traces_validated_against_impl", len(data))
    ctx.count("parameter_blocks", len(pd))
    ctx.count("cells", sum(len(D["cells"]) for D in data))
    ctx.count("edges_with_mu_above_1", sum(1 for D in data for w in D["wg"] for e in w["edges"] if e["mu"] > 1))
    ctx.sample({"name": data[-1]["name"], "cells": [c["members"] for c in data[-1]["cells"]]})


def graphs(ctx):
    rng = ctx.rng
    gs = []
    # all digraphs on up to 3 vertices, then random ones
    for n in range(4):
        for k in range(2 ** (n * n)):
            gs.append([[j for j in range(n) if k >> (i * n + j) & 1] for i in range(n)])
    for _ in range(300 if ctx.quick else 4000):
        n = rng.randint(4, 9 if ctx.quick else 14)
        dens = rng.choice([0.8, 1.0, 1.3, 2.0])
        g = [[rng.randrange(n) for _ in range(min(n, int(rng.expovariate(1 / dens))))] for _ in range(n)]
        if rng.random() < .3:       # a long cycle with a tail
            for i in range(n - 2):
                g[i].append(i + 1)
            g[n - 3].append(rng.randrange(n))
        gs.append(g)
    s = axval.Script()
    for i, g in enumerate(gs):
        s.q(str(i), "strong_components([[int]]:[%s])" % ",".join(str(e) for e in g))
    v = s.run(ctx, "strong components", timeout=300)
    data = [{"g": g, "comps": v[str(i)][0], "induced": v[str(i)][1]} for i, g in enumerate(gs)]
    r = vlib.tlc_check("strong components", "Graphs", GCFG, {"data": data}, timeout=600, files={"data.json": data})
    ctx.tlc_stats(r, "Graphs")
    ctx.count("digraphs", len(data))


def run(ctx):
    graphs(ctx)
    blocks(ctx)
