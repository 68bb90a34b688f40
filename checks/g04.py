"""G04: K\\G/B (KGB.tla)"""
import axval
import groups
import kgbdata
import vlib
LEVEL = "model_checking"

CFG = "SPECIFICATION Spec\nINVARIANT Agree Orders\nPOSTCONDITION Complete\n"


def sizes(ctx, ics):
    s = axval.Script()
    s.lines.append(kgbdata.DEFS)
    for i, x in enumerate(ics):
        s.q(str(i), "let ic=%s in for i:nr_of_real_forms(ic) do KGB_size(real_form(ic,i)) od" % x["expr"])
    v = s.run(ctx, "real forms")
    return [v[str(i)] for i in range(len(ics))]


def run(ctx):
    ics = groups.IC_SMALL + groups.IC_MED + groups.IC_BIG
    lim = 250 if ctx.quick else 1300
    sz = sizes(ctx, ics)
    s = axval.Script()
    s.lines.append(kgbdata.DEFS)
    tags = []
    for x, ss in zip(ics, sz):
        for f, n in enumerate(ss):
            if n <= lim:
                tag = "%s#%d" % (x["name"].replace(" ", "_"), f)
                kgbdata.queue(s, tag, "real_form(%s,%d)" % (x["expr"], f))
                tags.append(tag)
    v = s.run(ctx, "K\\G/B tables", timeout=500)
    data = [kgbdata.collect(v, t) for t in tags]
    r = vlib.tlc_check("K\\G/B table differs from the orbit graph of strong involutions", "KGB", CFG, {"data": data}, timeout=800, files={"data.json": data})
    ctx.tlc_stats(r, "KGB")
    ctx.count("traces_validated_against_impl", len(data))
    ctx.cov["real_forms"] = tags
    ctx.sample({k: data[12][k] for k in ("name", "delta", "base")})
    ctx.sample(data[12]["kgb"][0])
