"""G08: parameters, equivalence, normal forms, expansion (Param.tla)"""
import axval
import groups
import paramdata
import vlib
import g06
LEVEL = "model_checking"
CFG = "SPECIFICATION Spec\nINVARIANT Agree\n"

DEFS = """
set EXP(Param p)=[(int,int,(int,vec,ratvec))]: let P=null_module(real_form(p))+p in for c@q in P do let (a,b)=%c in (a,b,PM(q)) od
set REC(Param p)=((int,vec,ratvec),[bool],int,(int,vec,ratvec),(int,vec,ratvec),[bool],[(int,int,(int,vec,ratvec))],(int,vec,ratvec)): let st=is_standard(p) in let n=if st then normal(p) else p fi,d=if st then dominant(p) else p fi in (PM(p),[st,is_dominant(p),is_zero(p),is_semifinal(p),is_final(p)],height(p),PM(n),PM(d),[if st then n=normal(n) else true fi,if is_final(p) then normal(p)=p else true fi],EXP(p),PM(p*(2/3)))
"""


VAR = """
set VAR(Param p,int s,int k,bool xx)=Param: let (x,lr,ga)=%p in let a=simple_roots(rd)[s],av=simple_coroots(rd)[s] in param(if xx then cross(s,x) else x fi,vec:for c@i in lr do c+(k-lr*av)*a[i] od,(let (gn,dd)=%ga in let nn=gn*av in (vec:for c@i in a do gn[i]-nn*c od)/dd))
"""


def run(ctx):
    rng = ctx.rng
    ics = groups.IC_SMALL + groups.IC_MED + ([] if ctx.quick else groups.IC_BIG[:3])
    forms = g06.choose_forms(ctx, ics, 60 if ctx.quick else 130)
    s = axval.Script()
    s.lines.append(paramdata.DEFS + DEFS)
    todo = []
    for gi, (x, f, n) in enumerate(forms):
        paramdata.queue_group(s, "g%d" % gi, x, f)
        s.do(VAR.strip())
        r = sum(t[1] for t in x["lt"])
        ss = sum(t[1] for t in x["lt"] if t[0] != "T")
        if ss > 4 and ctx.quick:
            continue
        for j in range(4 if ctx.quick else 14):
            t = "g%d.p%d" % (gi, j)
            cs = [paramdata.param_text(c, n) for c in paramdata.rand_gamma_params(rng, r, 6)] + ["param(KGB(G,%d),null(%d),(vec:%s)/1)" % (n - 1, r, [1] * r)]
            # mostly standard ones
            if rng.random() < .75:
                s.do("set p=let c=([Param]:[%s]) in let r=c[#c-1] in begin for q in c do if is_standard(q) then r:=q; break fi od; r end" % ",".join(cs))
            else:
                s.do("set p=%s" % cs[0])
            s.do("set L=[p]")
            for _ in range(7 if ss else 1):
                if rng.random() < .3 or not ss:     # same gamma, other x and lambda
                    lr = [rng.randint(-1, 2) for _ in range(r)]
                    s.do("set L=L##[let (x,lr,ga)=%%L[%d %% #L] in param(%s,lr+(vec:%s),ga)]" % (rng.randrange(8), "x" if rng.random() < .6 else "KGB(G,%d)" % rng.randrange(n), lr))
                else:
                    si = rng.randrange(ss)
                    s.do("set L=let q=L[%d %% #L] in L##for k:3 do VAR(q,%d,k-2,%s) od" % (rng.randrange(8), si, "true" if rng.random() < .85 else "false") if rng.random() < .6 else
                         "set L=let q=L[%d %% #L] in L##[VAR(q,%d,if status(%d,(let (x,,)=%%q in x))=0 then -1 else 0 fi,true)]" % (rng.randrange(8), si, si))
            s.do("set L=if #L>14 then L[0:14] else L fi")
            s.q(t + ".ps", "for p in L do REC(p) od")
            s.q(t + ".eq", "for p in L do for q in L do p=q od od")
            s.q(t + ".equiv", "for p in L do for q in L do equivalent(p,q) od od")
            todo.append((gi, t))
    v = s.run(ctx, "parameters", timeout=600)
    gs = [paramdata.collect_group(v, "g%d" % gi) for gi in range(len(forms))]
    P = paramdata.P
    data = []
    for gi, t in todo:
        x, f, n = forms[gi]
        ps = [{"p": P(e[0]), "std": e[1][0], "dom": e[1][1], "zero": e[1][2], "semi": e[1][3], "final": e[1][4], "height": e[2], "normal": P(e[3]), "dominant": P(e[4]),
               "idem": e[5][0], "finalnormal": e[5][1], "expand": [{"c": a[0], "e": a[1], "p": P(a[2])} for a in e[6]], "scaled": P(e[7])} for e in v[t + ".ps"]]
        if any(a["e"] for q in ps for a in q["expand"]):
            raise vlib.Rejected("expansion of a parameter has coefficients with an s-part")
        data.append({"name": "%s#%d" % (x["name"], f), "group": gi + 1, "ps": ps, "eq": v[t + ".eq"], "equiv": v[t + ".equiv"]})
    r = vlib.tlc_check("parameters: predicates, normal forms, equivalence or expansion", "Param", CFG, {"data": data, "groups": gs}, timeout=800,
                       files={"data.json": data, "groups.json": gs})
    ctx.tlc_stats(r, "Param")
    ctx.count("traces_validated_against_impl", len(data))
    ctx.count("parameters", sum(len(D["ps"]) for D in data))
    ctx.count("nonstandard", sum(1 for D in data for p in D["ps"] if not p["std"]))
    ctx.count("singular_or_multiple_expansions", sum(1 for D in data for p in D["ps"] if len(p["expand"]) != 1))
    ctx.count("equivalent_unequal_pairs", sum(1 for D in data for i in range(len(D["ps"])) for j in range(i) if D["equiv"][i][j] and not D["eq"][i][j]))
    ctx.sample({"name": data[9]["name"], "parameter": data[9]["ps"][0]})
