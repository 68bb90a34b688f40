"""G12: K-types, their formulas and branching (KType.tla)"""
import axval
import groups
import paramdata
import vlib
import g06
LEVEL = "model_checking"
CFG = "SPECIFICATION Spec\nINVARIANT Agree\nPOSTCONDITION Complete\n"

DEFS = """
set_type OPTB = ( void timed_out | KTypePol done )
set KP(KType t)=(int,vec): let (x,l)=%t in (NR(x),l)
set TT(KTypePol P)=[(int,int,(int,vec))]: for c@t in P do let (a,b)=%c in (a,b,KP(t)) od
set GET([KType] L)=KType: let r=L[#L-1] in begin for t in L do if is_semifinal(t) and is_standard(t) and not is_zero(t) then r:=t; break fi od; r end
"""


def T(l):
    return [{"e": a, "s": b, "x": x, "lr": v} for a, b, (x, v) in l]


def K(t):
    return {"x": t[0], "lr": t[1]}


def rank(x):
    return sum(t[1] for t in x["lt"])


def ktext(rng, x, n, big=3):
    r = rank(x)
    m = rng.random()
    v = [rng.randint(-big, big) for _ in range(r)] if m < .5 else [rng.choice([0, 0, 0, 1, -1, 2]) for _ in range(r)] if m < .85 else [rng.randint(0, 2 * big) for _ in range(r)]
    return "K_type(KGB(G,%d),vec:%s)" % (rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)]), v)


def record(ctx, forms, nk, np, nr, nf, nb, fcost, bh):
    rng = ctx.rng
    s = axval.Script()
    s.lines.append(paramdata.DEFS + DEFS)
    todo = []
    for gi, (x, f, n) in enumerate(forms):
        paramdata.queue_group(s, "g%d" % gi, x, f)
        q = lambda a, e: s.q("%s.%s" % (t, a), "(%s)" % e)
        kt = lambda *a: ktext(rng, x, n, *a)
        for j in range(nk):
            t = "k%d.%d" % (gi, j)
            s.do("set t=" + kt())
            q("v", "KP(t),is_standard(t),is_dominant(t),is_zero(t),is_semifinal(t),is_final(t),height(t),PM(param(t)),KP(K_type(param(t))),KP(normal(t)),KP(theta_stable(t)),KP(to_canonical_fiber(t)),([(int,vec)]:if is_standard(t) then [KP(dominant(t))] else [] fi)")
            q("pol", "TT(null_K_module(G)+t)")
            todo.append((gi, t, "ktype", None))
        for j in range(np):
            t = "p%d.%d" % (gi, j)
            s.do("set t=" + kt())
            m = rng.random()
            if m < .35:        # same fibre, other or equal lambda
                d = [rng.choice([0, 0, 1, -1]) for _ in range(rank(x))]
                s.do("set u=let (x,l)=%%t in let w=(vec:%s) in K_type(x,l+w-involution(x)*w%s)" % (d, rng.choice(["", "", "+(vec:%s)" % [rng.choice([0, 0, 0, 1, 2]) for _ in range(rank(x))]])))
            elif m < .85:      # image under a random word of complex reflections, possibly changed at the end
                w = [rng.randrange(max(1, sum(a[1] for a in x["lt"] if a[0] != "T"))) for _ in range(rng.randint(1, 6))]
                s.do("set u=let (x,l)=%%t in begin for s in ([int]:%s) do if s<S then if status(s,x)=0 or status(s,x)=4 then let a=simple_roots(rd)[s], c=simple_coroots(rd)[s] in (l-:=a*(c*l+1); x:=cross(s,x)) fi fi od; K_type(x,l%s) end"
                     % (w, rng.choice(["", "", "", "+(vec:%s)" % [rng.choice([0, 0, 0, 1, 2]) for _ in range(rank(x))]])))
            else:
                s.do("set u=" + kt())
            q("v", "KP(t),KP(u),t=u,equivalent(t,u),KP(normal(t)),KP(normal(u)),t!=u")
            todo.append((gi, t, "pair", None))
        for j in range(nr):
            t = "r%d.%d" % (gi, j)
            m = rng.randint(1, 3)
            s.do("set L=([Param]:[%s])" % ",".join(paramdata.param_text(c, n) for c in paramdata.rand_gamma_params(rng, rank(x), m)))
            cs = [(rng.choice([1, 1, 2, -1, 0, -3]), rng.choice([0, 0, 1, -1, 2])) for _ in range(m)]
            s.do("set W=null_module(G)" + "".join("+(Split:(%d,%d))*L[%d]" % (a, b, i) for i, (a, b) in enumerate(cs)))
            s.do("set KS=null_K_module(G)%s" % ("".join("+(Split:(%d,%d))*(null_K_module(G)+K_type(L[%d]))" % (a, b, i) for i, (a, b) in enumerate(cs)) if rng.random() < .5 else
                                                 "".join("+((Split:(%d,%d)),K_type(L[%d]))" % (a, b, i) for i, (a, b) in enumerate(cs))))
            h = rng.randint(-1, 14)
            q("ps", "for p in L do (PM(p),KP(K_type(p))) od")
            q("pol", "TT(K_type_pol(W)),TT(KS),TT(truncate_above_height(KS,%d))" % h)
            todo.append((gi, t, "restrict", (cs, h)))
        for j in range(nf):
            t = "f%d.%d" % (gi, j)
            only = n * (1 << (npos(x) // 2 if n > 1 else 0)) > fcost
            s.do("set t=GET(([KType]:[%s,K_type(KGB(G,0),null(%d))]))" % (",".join(kt(2) for _ in range(6)), rank(x)))
            if rng.random() < .6:
                s.do("set t=normal(t)")
            q("t", "KP(t),KP(theta_stable(t)),for (c,u) in KGP_sum(t) do (c,KP(u)) od,height(t)")
            hs = []
            if not only:
                for k in range(4):
                    h = rng.choice(["-1", "-1", "height(t)+%d" % rng.randint(0, 12), "height(t)+%d" % rng.randint(0, 4), "%d" % rng.randint(0, 10), "height(t)-1"])
                    kind = rng.choice(["memo", "memo", "raw"])
                    if "-1" in h and len(h) > 2:
                        kind = "raw" if rng.random() < .5 else "memo"
                        h = "(if height(t)>0 then height(t)-1 else 0 fi)"
                    q("h%d" % k, "%s,TT(K_type_formula%s(t,%s))" % (h, "" if kind == "memo" else "_raw", h))
                    hs.append(kind)
            todo.append((gi, t, "formula", (hs, only)))
        for j in range(nb):
            t = "b%d.%d" % (gi, j)
            m = rng.randint(1, 2)
            s.do("set P=null_K_module(G)" + "".join("+(Split:(%d,%d))*(null_K_module(G)+GET([%s]))" % (rng.choice([1, 1, 1, 2, -1]), rng.choice([0, 0, 1]), ",".join(kt(1) for _ in range(5))) for i in range(m)))
            s.do("set h=let h=%d in begin for c@t in P do if height(t)>h then h:=height(t) fi od; h+%d end" % (rng.randint(0, 3), rng.randint(0, bh)))
            q("P", "TT(P)")
            hs = ["h"] + ["(let k=h-%d in if k<0 then 0 else k fi)" % rng.randint(0, bh) for _ in range(2)]
            order = [0, 1, 2]
            rng.shuffle(order)
            for k in order:
                if rng.random() < .3 and k:
                    q("b%d" % k, "case (OPTB:branch(P,%s,100000)) | timed_out: (0,TT(P)) | done(B): (%s,TT(B)) esac" % (hs[k], hs[k]))
                else:
                    q("b%d" % k, "%s,TT(branch(P,%s))" % (hs[k], hs[k]))
            q("fo", "for c@t in branch(P,h) do TT(K_type_formula%s(t,h)) od" % rng.choice(["", "_raw"]))
            todo.append((gi, t, "branch", None))
    v = s.run(ctx, "K-type data", timeout=700)
    gs = [paramdata.collect_group(v, "g%d" % gi) for gi in range(len(forms))]
    out = []
    for gi, t, kind, a in todo:
        g = lambda k: v["%s.%s" % (t, k)]
        e = {"kind": kind, "gi": gi + 1, "name": "%s#%d" % (forms[gi][0]["name"], forms[gi][1])}
        if kind == "ktype":
            k, st, dm, ze, sf, fi, ht, pm, bk, no, ts, cf, dom = g("v")
            e.update(t=K(k), standard=st, dominant=dm, zero=ze, semifinal=sf, final=fi, height=ht, param=paramdata.P(pm), back=K(bk), normal=K(no), stable=K(ts), canfib=K(cf), dom=[K(u) for u in dom], pol=T(g("pol")))
        elif kind == "pair":
            k, u, eq, equ, nt, nu, ne = g("v")
            if ne == eq:
                raise vlib.Rejected("K-types both equal and unequal or neither: %s %s" % (k, u))
            e.update(t=K(k), u=K(u), eq=eq, equiv=equ, nt=K(nt), nu=K(nu))
        elif kind == "restrict":
            cs, h = a
            pol, ks, cut = g("pol")
            e.update(ps=[{"p": paramdata.P(p), "k": K(k), "e": c[0], "s": c[1]} for (p, k), c in zip(g("ps"), cs)], pol=T(pol), sum=T(ks), cut=T(cut), h=h)
        elif kind == "formula":
            k, ts, kgp, ht = g("t")
            hs, only = a
            e.update(t=K(k), stable=K(ts), kgp=[{"c": c, "x": x, "lr": l} for c, (x, l) in kgp], only=only, fs=[])
            for i, kk in enumerate(hs):
                h, pol = g("h%d" % i)
                e["fs"].append({"kind": kk, "h": h, "pol": T(pol)})
        else:
            e.update(pol=T(g("P")), rs=[])
            for i in range(3):
                h, pol = g("b%d" % i)
                e["rs"].append({"h": h, "pol": T(pol), "forms": []})
            e["rs"][0]["forms"] = [T(f) for f in g("fo")]
            if len(e["rs"][0]["forms"]) != len(e["rs"][0]["pol"]):
                raise vlib.Rejected("repeated branch differs in size")
        out.append(e)
    return gs, out


NPOS = {"A": lambda n: n * (n + 1) // 2, "B": lambda n: n * n, "C": lambda n: n * n, "D": lambda n: n * (n - 1), "G": lambda n: 6, "F": lambda n: 24, "E": lambda n: 36, "T": lambda n: 0}


def npos(x):
    return sum(NPOS[a](n) for a, n in x["lt"])


def run(ctx):
    ics = groups.IC_SMALL + groups.IC_MED + ([] if ctx.quick else groups.IC_BIG[:3])
    forms = g06.choose_forms(ctx, ics, 60 if ctx.quick else 130)
    gs, data = record(ctx, forms, *((8, 8, 3, 2, 1, 150, 4) if ctx.quick else (20, 20, 6, 5, 3, 250, 6)))
    r = vlib.tlc_check("K-types, K-type formulas or branching", "KType", CFG, {"data": data, "groups": gs}, timeout=850,
                       files={"data.json": data, "groups.json": gs})
    ctx.tlc_stats(r, "KType")
    ctx.count("traces_validated_against_impl", len(data))
    for k in ("ktype", "pair", "restrict", "formula", "branch"):
        ctx.count(k, len([e for e in data if e["kind"] == k]))
    ctx.count("formulas_recomputed", sum(len(e["fs"]) for e in data if e["kind"] == "formula"))
    ctx.count("branching_terms", sum(len(e["rs"][0]["pol"]) for e in data if e["kind"] == "branch"))
    ctx.sample({"entry": [e for e in data if e["kind"] == "branch"][-1]["rs"][0]["pol"][:4]})
