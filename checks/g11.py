"""G11: deformation, signature sums, orientation numbers, reducibility points (Deform.tla)"""
import axval
import groups
import kldata
import paramdata
import vlib
import g06
LEVEL = "model_checking"
CFG = "SPECIFICATION DSpec\nVIEW DView\nINVARIANT DAgree\nPOSTCONDITION DComplete\n"

DEFS = """
set_type OPTP = ( void none | ParamPol some )
set_type OPTT = ( void timed_out | ParamPol done )
set_type OPTK = ( void none | KTypePol some )
set_type OPTL = ( void timed_out | KTypePol done )
set TI([Param] L,ParamPol P)=[(int,int,int)]: for c@q in P do let (a,b)=%c in (a,b,FIND(L,q)) od
set TP(ParamPol P)=[(int,int,(int,vec,ratvec))]: for c@q in P do let (a,b)=%c in (a,b,PM(q)) od
set TK(KTypePol P)=[(int,int,(int,vec,ratvec))]: for c@t in P do let (a,b)=%c in (a,b,PM(param(t))) od
set CLOSE([Param] S,int cap)=[Param]: let W=S,i=0 in begin while i<#W and #W<=cap do let p=W[i] in (for t in reducibility_points(p) do for c@q in deform(p*t) do if FIND(W,q)<0 then W#:=q fi od od; i+:=1) od; if #W<=cap then W else ([Param]:[]) fi end
"""


def T(l):
    return [{"e": a, "s": b, "p": paramdata.P(p)} for a, b, p in l]


def I(l):
    return [{"e": a, "s": b, "i": i} for a, b, i in l]


def blocks(ctx, forms, per, lim, nq):
    rng = ctx.rng
    TB = paramdata.tables(ctx, forms, per, lim)
    s = axval.Script()
    s.lines.append(paramdata.DEFS + paramdata.KDEFS + DEFS)
    last = None
    todo = []
    for k, D in enumerate(TB):
        if D["gi"] != last:
            last = D["gi"]
            s.do("set G=real_form(%s,%d)" % (forms[last][0]["expr"], forms[last][1]))
        if not any(r["surv"] for r in D["rows"]):
            continue
        t = "k%d" % k
        kldata.queue_param(s, t, D, ctx, ())
        s.do("set (BF,)=block(dp)")
        q = lambda a, e: s.q("%s.%s" % (t, a), "(%s)" % e)
        q("pp", "for p in L do PM(p) od")
        q("or", "for p in L do orientation_nr(p) od")
        q("ht", "for p in L do height(p) od")
        q("rp", "for p in L do reducibility_points(p) od")
        nf = len([1 for r in D["rows"] if r["surv"]])
        us = sorted(rng.sample(range(nf), min(nf, nq)))
        for u in us:
            # a block of the final parameter u as list; order of the questions varies
            s.do("set u=([Param]:for p in BF do p od)[%d%%#BF]" % u)
            q("u%d" % u, "FIND(L,u)")
            ks = ["sum", "def", "opt", "hs"]
            rng.shuffle(ks)
            hs = [rng.choice(["height(u)", "-1", "-3", "height(L[%d])" % rng.randrange(len(D["rows"])), "height(u)+%d" % rng.randint(0, 8), str(rng.randint(0, 12))]) for _ in range(3)]
            for c in ks:
                if c == "sum":
                    q("sum%d" % u, "TI(L,KL_sum_at_s(u))")
                elif c == "def":
                    q("def%d" % u, "TI(L,deform(u))")
                elif c == "hs":
                    q("hs%d" % u, "for h in [%s] do (h,TI(L,KL_sum_at_s_to_height(u,h))) od" % ",".join(hs))
                else:
                    h = rng.choice(hs)
                    q("opt%d" % u, "[(-1,case (OPTP:stored_KL_sum_at_s(u)) | none: (false,TI(L,KL_sum_at_s(u))) | some(P): (true,TI(L,P)) esac),"
                      "(%s,case (OPTT:KL_sum_at_s_to_height(u,%s,100000)) | timed_out: (false,TI(L,KL_sum_at_s(u))) | done(P): (true,TI(L,P)) esac)]" % (h, h))
        nb = 2 if len(us) else 0
        for j in range(nb):
            u = rng.choice(us)
            s.do("set u=BF[%d%%#BF]" % u)
            n = rng.randint(1, 3)
            acc = "+".join("(Split:(%d,%d))*BF[%d%%#BF]" % (rng.choice([1, 1, 2, -1, 0, -3]), rng.choice([0, 0, 1, -1, 2]), rng.randrange(nf)) for _ in range(n))
            out = rng.random() < .5
            s.do("set acc=null_module(G)+%s" % acc + ("+(Split:(2,1))*(BF[%d%%#BF]*(%s))" % (rng.randrange(nf), rng.choice(["1/2", "2/3", "0/1"])) if out else ""))
            bound = rng.choice(["-1", "height(u)", "height(L[%d])" % rng.randrange(len(D["rows"])), "height(u)+%d" % rng.randint(0, 6)])
            q("bd%d" % j, "let (A,C)=block_deform(u,acc,%s) in ((FIND(L,u),%s),for c@p in acc do let (a,b)=%%c in (a,b,(FIND(L,p),PM(p))) od,TP(A),TP(C))" % (bound, bound))
        todo.append((k, D, us, nb))
    v = s.run(ctx, "deformation data of blocks", timeout=700)
    data = []
    for k, D, us, nb in todo:
        t = "k%d" % k
        g = lambda a: v["%s.%s" % (t, a)]
        R = kldata.collect_param(v, t, D, ())
        R["gi"] = D["gi"] + 1
        R["pp"] = [paramdata.P(p) for p in g("pp")]
        R["or"], R["ht"], R["rp"] = g("or"), g("ht"), g("rp")
        R["q"] = [{"u": g("u%d" % u), "sum": I(g("sum%d" % u)), "def": I(g("def%d" % u)), "hs": [{"h": h, "sum": I(l)} for h, l in g("hs%d" % u)],
                   "opt": [{"h": h, "ok": ok, "sum": I(l)} for h, (ok, l) in g("opt%d" % u)]} for u in us]
        if any(q["u"] < 0 for q in R["q"]):
            raise vlib.Rejected("final parameter not in its block")
        R["bd"] = []
        for j in range(nb):
            (u, h), acc, A, C = g("bd%d" % j)
            R["bd"].append({"u": u, "bound": h, "acc": [{"e": a, "s": b, "i": i, "p": paramdata.P(p)} for a, b, (i, p) in acc], "res": T(A), "rest": T(C)})
        data.append(R)
    return data


def choose(rng, forms, gi, dens):
    x, f, n = forms[gi]
    r = sum(t[1] for t in x["lt"])
    cs = []
    for _ in range(7):
        d = rng.choice(dens)
        nu = [rng.choice([0, 1, 1, 2, rng.randint(-9, 9)]) if d < 5 else rng.randint(0, 2 * d) for _ in range(r)]
        lr = [rng.choice([0, 0, 1, rng.randint(-2, 3)]) for _ in range(r)]
        cs.append(paramdata.param_text(((n - 1 + rng.random()) / n if rng.random() < .4 else rng.random(), lr, nu, d), n))
    return cs


OPT0 = "for p in W do case (OPTK:stored_full_deform(p)) | none: [([(int,int,(int,vec,ratvec))]:[])] | some(P): [([(int,int,(int,vec,ratvec))]:[]),TK(P)] esac od"
OPT1 = "for p in W do case (OPTL:full_deform(p,100000)) | timed_out: [([(int,int,(int,vec,ratvec))]:[])] | done(P): [([(int,int,(int,vec,ratvec))]:[]),TK(P)] esac od"


def families(ctx, forms, per, cap):
    rng = ctx.rng
    s = axval.Script()
    s.lines.append(paramdata.DEFS + paramdata.KDEFS + DEFS)
    todo, nft, ort = [], [], []
    for gi, (x, f, n) in enumerate(forms):
        paramdata.queue_group(s, "g%d" % gi, x, f)
        r = sum(t[1] for t in x["lt"])
        ss = sum(t[1] for t in x["lt"] if t[0] != "T")
        for j in range(per):
            t = "f%d.%d" % (gi, j)
            q = lambda a, e: s.q("%s.%s" % (t, a), "(%s)" % e)
            s.do("set p=let c=([Param]:[%s]) in let r=c[#c-1] in begin for q in c do if is_standard(q) and not is_zero(q) then r:=q; break fi od; r end" % ",".join(choose(rng, forms, gi, (1, 1, 1, 1, 2, 2, 3, 4, 5, 7, 12, 17, 33))))
            if rng.random() < .5:
                q("nf", "let P=null_module(G)+p in (PM(p),for c@q in P do let (a,b)=%c in (a,b,PM(q)) od,for c@q in P do TP(deform(q)) od,TP(deform(p)))")
                nft.append((gi, t))
            q("or", "(is_standard(p),PM(p),if is_standard(p) then orientation_nr(p) else 0 fi,reducibility_points(p))")
            ort.append((gi, t))
            # several parameters with the same discrete part, so that stored deformations are found or just missed
            m = rng.random()
            if j == 0 or ss <= 2 and j == 1:
                s.do("set p=param(KGB(G,%d),(vec:%s),(vec:%s)/%d)" % (n - 1 if j == 0 else rng.randrange(n), [rng.randint(-1, 1) for _ in range(r)], [rng.randint(1, 4) for _ in range(r)], rng.choice([1, 1, 2, 3])))
                L = "if is_standard(p) then [%s] else [p] fi" % ",".join("p*(%d/%d)" % rng.choice([(k, 7), (k, 5), (k, 4), (k, 12)]) for k in rng.sample(range(1, 22), 6 if ss > 2 else 14))
            elif m < .45:
                L = "[p]"
            elif m < .75:
                k = rng.randint(5, 12)
                L = "[%s]" % ",".join("p*(%d/%d)" % (rng.randint(1, 2 * dd), dd) for dd in (rng.choice([1, 2, 3, 4, 5, 7, 10, 11]) for _ in range(k)))
            else:
                # other free parts of lambda: move gamma-nu along theta-fixed directions
                L = ("let (x,l,g)=%%p in let M=mat:involution(x) in ([Param]:for v in [vec][%s] do param(x,l+v+M*v,g+v+M*v) od)" % ",".join(str([rng.choice([0, 0, 0, 1, 1, -1, 2, 3]) for _ in range(r)]) for _ in range(rng.randint(6, 20)))).replace("[vec][", "([vec]:[").replace("] do", "]) do")
            s.do("set W=CLOSE((let l=([Param]:[]) in begin for p in (%s) do if is_standard(p) then for c@q in null_module(G)+p do if FIND(l,q)<0 then l#:=q fi od fi od; l end),%d)" % (L, 2 * cap if j == 0 else cap))
            order = "for p in W do TK(full_deform(p)) od" if rng.random() < .5 else "for p in W ~do TK(full_deform(p)) ~od"
            opt = rng.random() < .4
            if opt:
                q("opt0", OPT0)
            q("w", "for p in W do (PM(p),reducibility_points(p)) od")
            q("full", order)
            q("def", "for p in W do for t in reducibility_points(p) do TI(W,deform(p*t)) od od")
            q("opt1", OPT0 if opt else OPT1)
            todo.append((gi, t, opt))
    v = s.run(ctx, "full deformations", timeout=700)
    gs = [paramdata.collect_group(v, "g%d" % gi) for gi in range(len(forms))]
    full = []
    for gi, t, opt in todo:
        g = lambda a: v["%s.%s" % (t, a)]
        ps = []
        fl = g("full")
        w = g("w")
        for k, (p, rp) in enumerate(w):
            o = [l[1] for l in ([g("opt0")[k]] if opt else []) + [g("opt1")[k]] if len(l) > 1]
            ps.append({"p": paramdata.P(p), "rp": rp, "full": T(fl[k]), "def": [I(l) for l in g("def")[k]], "opt": [T(l) for l in o]})
        if any(a["i"] < 0 for e in ps for l in e["def"] for a in l):
            raise vlib.Rejected("deformation leaves the closed family")
        if ps:
            full.append({"name": "%s#%d %s" % (forms[gi][0]["name"], forms[gi][1], w[0][0]), "gi": gi + 1, "ps": ps})
    nf = []
    for gi, t in nft:
        p, e, ds, d = v[t + ".nf"]
        nf.append({"name": str(p), "kind": "deform", "gi": gi + 1, "p": paramdata.P(p), "exp": [{"c": a, "p": paramdata.P(q)} for a, b, q in e], "defs": [T(l) for l in ds], "def": T(d)})
    for gi, t in ort:
        st, p, o, rp = v[t + ".or"]
        nf.append({"name": str(p), "kind": "numbers", "gi": gi + 1, "p": paramdata.P(p), "standard": st, "or": o, "rp": rp})
    return gs, full, nf


def run(ctx):
    ics = groups.IC_SMALL + groups.IC_MED + ([] if ctx.quick else groups.IC_BIG[:3])
    forms = g06.choose_forms(ctx, ics, 60 if ctx.quick else 130)
    gs, full, nf = families(ctx, forms, 4 if ctx.quick else 16, 40 if ctx.quick else 80)
    data = blocks(ctx, forms, 3 if ctx.quick else 8, 40 if ctx.quick else 100, 5 if ctx.quick else 10)
    r = vlib.tlc_check("deformation, signature sums, orientation numbers or reducibility points", "Deform", CFG,
                       {"data": data, "groups": gs, "full": full, "nonfinal": nf}, timeout=850,
                       files={"data.json": data, "groups.json": gs, "full.json": full, "nonfinal.json": nf})
    ctx.tlc_stats(r, "Deform")
    ctx.count("traces_validated_against_impl", len(data) + len(full) + len(nf))
    ctx.count("blocks", len(data))
    ctx.count("columns", sum(len(D["q"]) for D in data))
    ctx.count("nontrivial_deformations", sum(1 for D in data for q in D["q"] if q["def"]))
    ctx.count("block_deformations", sum(len(D["bd"]) for D in data))
    ctx.count("families", len(full))
    ctx.count("full_deformations", sum(len(D["ps"]) for D in full))
    ctx.count("reducibility_points", sum(len(e["rp"]) for D in full for e in D["ps"]))
    ctx.sample({"name": data[-1]["name"], "queries": data[-1]["q"][:1]})
