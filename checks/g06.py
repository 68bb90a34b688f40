"""G06: Kazhdan-Lusztig-Vogan polynomials (KL.tla)"""
import axval
import blockdata
import groups
import kldata
import paramdata
import vlib
LEVEL = "model_checking"

CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANT Agree\nPOSTCONDITION Complete\n"


def blocks(ctx):
    ics = groups.IC_SMALL + groups.IC_MED + ([] if ctx.quick else groups.IC_BIG[:6])
    ps = blockdata.pairs(ctx, ics, 75 if ctx.quick else 330)
    s = axval.Script()
    s.lines.append(blockdata.DEFS + kldata.DEFS)
    tags = []
    for x, rf, drf, n in ps:
        tag = "%s#%d/%d" % (x["name"].replace(" ", "_"), rf, drf)
        kldata.queue_block(s, tag, x, rf, drf)
        tags.append(tag)
    v = s.run(ctx, "KL tables", timeout=500)
    data = [kldata.collect_block(v, t) for t in tags]
    r = vlib.tlc_check("polynomials do not satisfy the characterising relations", "KL", CFG, {"data": data}, timeout=800, files={"data.json": data})
    ctx.tlc_stats(r, "KL")
    ctx.count("traces_validated_against_impl", len(data))
    ctx.count("elements", sum(len(D["len"]) for D in data))
    ctx.count("nontrivial_polynomials", sum(len(D["kl"]["polys"]) - 2 for D in data))
    ctx.sample({"name": data[-1]["name"], "polys": data[-1]["kl"]["polys"]})


def choose_forms(ctx, ics, lim):
    import g04
    sz = g04.sizes(ctx, ics)
    return [(x, f, n) for x, ss in zip(ics, sz) for f, n in enumerate(ss) if n <= lim]


def record_params(ctx, forms, per, lim, parts):
    T = paramdata.tables(ctx, forms, per, lim)
    s = axval.Script()
    s.lines.append(paramdata.DEFS + paramdata.KDEFS)
    last = None
    for k, D in enumerate(T):
        if D["gi"] != last:
            last = D["gi"]
            s.do("set G=real_form(%s,%d)" % (forms[last][0]["expr"], forms[last][1]))
        D["hasfinal"] = any(r["surv"] for r in D["rows"])
        kldata.queue_param(s, "k%d" % k, D, ctx, parts)
    v = s.run(ctx, "KL data of parameter blocks", timeout=700)
    return [kldata.collect_param(v, "k%d" % k, D, parts) for k, D in enumerate(T)]


def params(ctx):
    ics = groups.IC_SMALL + groups.IC_MED + ([] if ctx.quick else groups.IC_BIG[:5])
    forms = choose_forms(ctx, ics, 60 if ctx.quick else 250)
    data = record_params(ctx, forms, 3 if ctx.quick else 10, 50 if ctx.quick else 150, ("kl",))
    r = vlib.tlc_check("polynomials of parameter blocks do not satisfy the characterising relations", "KL", CFG, {"data": data}, timeout=800, files={"data.json": data})
    ctx.tlc_stats(r, "KL")
    ctx.count("traces_validated_against_impl", len(data))
    ctx.count("parameter_blocks", len(data))
    ctx.count("singular_blocks", sum(1 for D in data if len(D["kls"]["list"]) < len(D["len"])))


def run(ctx):
    blocks(ctx)
    params(ctx)
