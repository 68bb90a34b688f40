"""G05: blocks (Block.tla, ParamBlock.tla)"""
import axval
import blockdata
import groups
import kgbdata
import paramdata
import vlib
LEVEL = "model_checking"

CFG = "SPECIFICATION Spec\nINVARIANT Agree Static\nPOSTCONDITION Complete\n"


def fokko_blocks(ctx):
    ics = groups.IC_SMALL + groups.IC_MED + ([] if ctx.quick else groups.IC_BIG[:7])
    ps = blockdata.pairs(ctx, ics, 130 if ctx.quick else 500)
    s = axval.Script()
    s.lines.append(blockdata.DEFS)
    tags = []
    for x, rf, drf, n in ps:
        tag = "%s#%d/%d" % (x["name"].replace(" ", "_"), rf, drf)
        blockdata.queue(s, tag, x, rf, drf)
        tags.append(tag)
    v = s.run(ctx, "blocks", timeout=500)
    data = [blockdata.collect(v, t) for t in tags]
    r = vlib.tlc_check("block differs from the fibre product", "Block", CFG, {"data": data}, timeout=800, files={"data.json": data})
    ctx.tlc_stats(r, "Block")
    ctx.count("traces_validated_against_impl", len(data))
    ctx.cov["blocks"] = tags
    ctx.sample({"name": data[5]["name"], "block": data[5]["block"]})


PCFG = "SPECIFICATION Spec\nVIEW View\nINVARIANT Agree Orders\nPOSTCONDITION Complete\n"


def choose_forms(ctx, ics, lim):
    import g04
    sz = g04.sizes(ctx, ics)
    return [(x, f, n) for x, ss in zip(ics, sz) for f, n in enumerate(ss) if n <= lim]


def param_blocks(ctx):
    rng = ctx.rng
    ics = groups.IC_SMALL + groups.IC_MED + ([] if ctx.quick else groups.IC_BIG[:5])
    forms = choose_forms(ctx, ics, 60 if ctx.quick else 250)
    per = 3 if ctx.quick else 12
    lim = 70 if ctx.quick else 250
    s = axval.Script()
    s.lines.append(paramdata.DEFS)
    todo = []
    for gi, (x, f, n) in enumerate(forms):
        paramdata.queue_group(s, "g%d" % gi, x, f)
        r = sum(t[1] for t in x["lt"])
        for j in range(per):
            t = "g%d.b%d" % (gi, j)
            cs = [paramdata.param_text(c, n) for c in paramdata.rand_gamma_params(rng, r, 6)] + ["param(KGB(G,%d),null(%d),(vec:%s)/1)" % (n - 1, r, [1] * r)]
            if j == 0:
                cs = cs[-1:]
            # the first standard candidate
            s.do("set p=let c=([Param]:[%s]) in let r=c[#c-1] in begin for q in c do if is_standard(q) then r:=q; break fi od; r end" % ",".join(cs))
            s.do("set (L,Hs)=if is_standard(p) then block_Hasse(p) else ([Param]:[],null(0,0)) fi")
            # sizes are only known here: everything is conditional on them
            s.do("set ok=is_standard(p) and #L<=%d" % lim)
            s.do("set dp=if ok then dominant(p) else p fi")
            s.raw(t + ".print", "if ok then print_block(dp) fi")
            q = lambda k, e, z: s.q(t + "." + k, "if ok then (%s) else %s fi" % (e, z))
            q("p", "PM(dp),PM(dp)", "(PM(p),PM(p))")
            q("gamma", "IC(dp)", "IC(p)")
            q("int", paramdata.intsimple_expr("dp"), "[int]:[]")
            q("hasse", "MX(Hs)", "(0,[vec]:[])")
            q("params", "PL(L)", "PL([])")
            q("final", "let (F,i)=block(p) in (PL(F),i)", "(PL([]),0)")
            q("pcross", "let C=simple_coroots(integrality_datum(rd,IC(dp))) in for q in L do for c@i in C do PM(cross(i,q)) od od", "[[(int,vec,ratvec)]]:[]")
            q("pcayley", "let C=simple_coroots(integrality_datum(rd,IC(dp))) in for q in L do for c@i in C do PM(Cayley(i,q)) od od", "[[(int,vec,ratvec)]]:[]")
            q("vcross", "let C=simple_coroots(integrality_datum(rd,IC(dp))) in for q in L do for c in C do PM(cross(root(rd,coroot_index(rd,c)),q)) od od", "[[(int,vec,ratvec)]]:[]")
            q("vcayley", "let C=simple_coroots(integrality_datum(rd,IC(dp))) in for q in L do for c in C do PM(Cayley(root(rd,coroot_index(rd,c)),q)) od od", "[[(int,vec,ratvec)]]:[]")
            q("plen", "for q in L do length(q) od", "[int]:[]")
            sd = rng.randrange(1000)
            q("partial", "let n=#L in for i:%d do let z=(%d+7*i)%%n in (z,PL(partial_block(L[z]))) od" % (3 if ctx.quick else 8, sd), "[(int,[(int,vec,ratvec)])]:[]")
            todo.append((gi, t))
    v = s.run(ctx, "parameter blocks", timeout=700)
    gs = [paramdata.collect_group(v, "g%d" % gi) for gi in range(len(forms))]
    data, seen = [], set()
    for gi, t in todo:
        g = lambda k: v[t + "." + k]
        if not g("params"):
            continue
        start, rows = paramdata.parse_block(g("print"))
        P = paramdata.P
        key = (gi, str(rows), str(g("gamma")))
        if key in seen:
            continue
        seen.add(key)
        x, f, n = forms[gi]
        D = {"name": "%s#%d p=%s" % (x["name"], f, g("p")[0]), "group": gi + 1, "gamma": g("gamma"), "start": start, "p": P(g("p")[1]), "block": rows, "intsimple": g("int"),
             "hasse": kgbdata.hasse(g("hasse")), "params": [P(a) for a in g("params")], "final": [P(a) for a in g("final")[0]], "startpos": g("final")[1],
             "plen": g("plen"), "partial": [{"z": a[0], "list": [P(b) for b in a[1]]} for a in g("partial")]}
        for k in ("pcross", "pcayley", "vcross", "vcayley"):
            D[k] = [[P(b) for b in a] for a in g(k)]
        data.append(D)
    r = vlib.tlc_check("parameter block differs from the closure under cross actions and Cayley transforms", "ParamBlock", PCFG, {"data": data, "groups": gs}, timeout=800,
                       files={"data.json": data, "groups.json": gs})
    ctx.tlc_stats(r, "ParamBlock")
    ctx.count("traces_validated_against_impl", len(data))
    ctx.count("parameter_blocks", len(data))
    ctx.count("singular_blocks", sum(1 for D in data if len(D["final"]) < len(D["block"])))
    ctx.count("nonintegral_blocks", sum(1 for D in data if D["gamma"]["d"] > 1))
    ctx.sample({"name": data[9]["name"], "gamma": data[9]["gamma"], "block": data[9]["block"][:4]})


def run(ctx):
    fokko_blocks(ctx)
    param_blocks(ctx)
