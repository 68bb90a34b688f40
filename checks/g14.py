"""G14: integrality, alcoves, orbits modulo the root lattice (Alcove.tla)"""
import axval
import groups
import paramdata
import vlib
import g06
LEVEL = "model_checking"
CFG = "SPECIFICATION Spec\nINVARIANT Agree\nPOSTCONDITION Complete\n"

DEFS = """
set ROOTS(RootDatum rd)=[vec]: let n=nr_of_posroots(rd) in for i:2*n from -n do root(rd,i) od
set COROOTS(RootDatum rd)=[vec]: let n=nr_of_posroots(rd) in for i:2*n from -n do coroot(rd,i) od
set WS([WeylElt] l)=[[int]]: for w in l do word(w) od
set FAC(RootDatum rd,[int] c,[int] a)=ratvec: let v=ratvec:null(rank(rd)) in begin for i@k in c do v+:=fundamental_weight(rd,i)*a[k] od; v end
set SCALE(RootDatum rd,ratvec v,rat t)=ratvec: let m=rat:0 in begin for c in COROOTS(rd) do let (n,d)=%v in let e=(c*n)/d in if e>m then m:=e fi od; if m=0 then v else v*(t/m) fi end
"""
ORD = {"A": lambda n: fact(n + 1), "B": lambda n: 2 ** n * fact(n), "C": lambda n: 2 ** n * fact(n), "D": lambda n: 2 ** (n - 1) * fact(n), "G": lambda n: 12, "F": lambda n: 1152, "E": lambda n: 51840 if n == 6 else 2903040, "T": lambda n: 1}


def fact(n):
    return 1 if n < 2 else n * fact(n - 1)


def order(lt):
    o = 1
    for a, n in lt:
        o *= ORD[a](n)
    return o


def queue_rd(s, q):
    q("rank", "rank(rd)")
    q("roots", "ROOTS(rd)")
    q("coroots", "COROOTS(rd)")
    q("sr", "MX(simple_roots(rd))")
    q("sc", "MX(simple_coroots(rd))")
    q("tr", "two_rho(rd)")
    q("trc", "two_rho_check(rd)")


def comps(lt):
    out, k = [], 0
    for a, n in lt:
        if a != "T":
            out.append(list(range(k, k + n)))
            k += n
    return out


def record(ctx, data, forms, ni, na, no, nc, nfin, worb):
    rng = ctx.rng
    s = axval.Script()
    s.lines.append(paramdata.DEFS + DEFS)
    todo = []
    rats = ["1", "1", "1/2", "1/3", "2/3", "3/4", "4/5", "0"]
    for i, (name, expr, lt) in enumerate(data):
        r = sum(t[1] for t in lt)
        s.do("set rd=%s" % expr)
        pre = ["r%d" % i]
        q = lambda k, e: s.q("%s.%s" % (pre[0], k), "(%s)" % e)
        queue_rd(s, q)
        o = order(lt)
        cs = comps(lt)

        def gamma():
            m = rng.random()
            if m < .25:      # arbitrary
                d = rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 12])
                s.do("set g=(vec:%s)/%d" % ([rng.randint(-2 * d, 2 * d) for _ in range(r)], d))
                return
            # a point of a facet of the fundamental alcove, perhaps moved
            s.do("set g=ratvec:null(%d)" % r)
            for c in cs:
                k = [rng.choice([0, 0, 1, 1, rng.randint(0, 4)]) for _ in c]
                s.do("set g=g+SCALE(rd,FAC(rd,%s,%s),%s)" % (c, k, rng.choice(rats)))
            if m > .75:
                s.do("set g=g+(vec:%s)/%d" % ([rng.randint(-2, 2) for _ in range(r)], rng.choice([1, 1, 2, 3])))
        for j in range(ni):
            pre[0] = "i%d.%d" % (i, j)
            gamma()
            q("v", "g,integrality_simples(rd,g),integrality_rank(rd,g),is_integrally_dominant(rd,g),integrality_points(rd,g),"
              "let R=integrality_datum(rd,g) in let A=simple_roots(R),B=simple_coroots(R) in (for v in A do v od,for v in B do v od)")
            todo.append((i, pre[0], "integral", None))
        for j in range(na if cs else 0):
            pre[0] = "a%d.%d" % (i, j)
            gamma()
            q("v", "let (w,n)=walls(rd,g) in (g,w,n,word(walls_attitude(rd,w)),alcove_root_vertex(rd,g))")
            todo.append((i, pre[0], "alcove", None))
        for j in range(no if cs and o <= worb else 0):
            pre[0] = "o%d.%d" % (i, j)
            fa = rng.random() < .7
            if not fa:
                gamma()
            else:
                s.do("set g=ratvec:null(%d)" % r)
                for c in cs:
                    k = [rng.choice([0, 0, 1, 1, rng.randint(0, 4)]) for _ in c]
                    s.do("set g=g+SCALE(rd,FAC(rd,%s,%s),%s)" % (c, k, rng.choice(rats)))
            q("v", "g,WS(affine_orbit_ws(rd,g))")
            if fa:
                q("fpp", "FPP_numers(rd,g)")
                q("sh", "for (w,t) in FPP_w_shifts(rd,g) do (word(w),t) od")
            todo.append((i, pre[0], "orbit", fa))
        for j in range(nfin if cs and o <= worb else 0):
            pre[0] = "b%d.%d" % (i, j)
            gamma()
            tot = sum(len(c) + 1 for c in cs)
            perm = rng.sample(range(tot), tot)
            k = rng.randrange(tot)
            s.do("set (wl,)=walls(rd,g)")
            s.do("set l=([int]:for i in %s do wl[i] od)" % perm)
            q("v", "g,l,WS(basic_orbit_ws(rd,l,%d))" % k)
            todo.append((i, pre[0], "basic", k))
    nrd = len(data)
    for gi, (x, f, n) in enumerate(forms):
        r = sum(t[1] for t in x["lt"])
        s.do("set G=real_form(%s,%d)" % (x["expr"], f))
        s.do("set rd=root_datum(inner_class(G))")
        pre[0] = "r%d" % (nrd + gi)
        q = lambda k, e: s.q("%s.%s" % (pre[0], k), "(%s)" % e)
        queue_rd(s, q)
        for j in range(nc):
            pre[0] = "c%d.%d" % (gi, j)
            c = paramdata.rand_gamma_params(rng, r, 1, (1, 2, 3, 4, 5, 7, 10, 15))[0]
            s.do("set p=" + paramdata.param_text(c, n))
            if rng.random() < .3:
                s.do("set p=dominant(p)" if rng.random() < 0 else "set p=if is_standard(p) then dominant(p) else p fi")
            q("v", "PM(p),PM(alcove_center(p)),MX(involution(let (x,,)=%p in x))")
            todo.append((nrd + gi, pre[0], "center", None))
    v = s.run(ctx, "integrality, alcoves and orbits", timeout=600)
    rds = []
    for i in range(nrd + len(forms)):
        g = lambda k: v["r%d.%s" % (i, k)]
        rds.append({"rank": g("rank"), "roots": g("roots"), "coroots": g("coroots"), "sroots": g("sr")[1], "scoroots": g("sc")[1], "tr": g("tr"), "trc": g("trc")})
    out = []
    for i, t, kind, a in todo:
        g = lambda k: v["%s.%s" % (t, k)]
        e = {"kind": kind, "rd": i + 1, "name": (data[i][0] if i < nrd else "%s#%d" % (forms[i - nrd][0]["name"], forms[i - nrd][1]))}
        if kind == "integral":
            e["g"], e["simples"], e["irank"], e["dominant"], e["points"], (e["droots"], e["dcoroots"]) = g("v")
        elif kind == "alcove":
            e["g"], e["walls"], e["nint"], e["att"], e["vertex"] = g("v")
        elif kind == "center":
            p, qq, th = g("v")
            e["p"], e["q"], e["theta"] = paramdata.P(p), paramdata.P(qq), th[1]
        elif kind == "orbit":
            e["g"], e["ws"] = g("v")
            e["alcove"] = a
            if a:
                e["fpp"] = g("fpp")
                e["sh"] = [{"w": w, "t": tt} for w, tt in g("sh")]
        else:
            gm, l, ws = g("v")
            R = rds[i]
            n = len(R["roots"]) // 2
            S = set(l[:a + 1])
            comp = {l[a]}
            while True:
                c2 = comp | {b for b in S if any(sum(p * q for p, q in zip(R["roots"][b + n], R["coroots"][c + n])) for c in comp)}
                if c2 == comp:
                    break
                comp = c2
            # whether the component of the new generator is a whole component of the walls
            whole = True
            for b in set(l) - S:
                if any(sum(p * q for p, q in zip(R["roots"][b + n], R["coroots"][c + n])) for c in comp):
                    whole = False
            e["stab"] = [b for b in l[:a] if b in comp] if whole else l[:a]
            e.update(kind="coset" if whole else "finite", g=gm, final=l[a], ws=ws)
        out.append(e)
    return rds, out


def run(ctx):
    data = groups.DATA_SMALL + groups.DATA_MED + ([] if ctx.quick else groups.DATA_BIG[:8])
    ics = groups.IC_SMALL + groups.IC_MED
    forms = g06.choose_forms(ctx, ics, 60 if ctx.quick else 200)
    rds, out = record(ctx, data, forms, *((8, 12, 8, 8, 8, 400) if ctx.quick else (30, 40, 25, 25, 25, 2000)))
    r = vlib.tlc_check("integrality, alcoves or orbits", "Alcove", CFG, {"data": out, "rds": rds}, timeout=850, files={"data.json": out, "rds.json": rds})
    ctx.tlc_stats(r, "Alcove")
    ctx.count("traces_validated_against_impl", len(out))
    for k in ("integral", "alcove", "center", "orbit", "coset", "finite"):
        ctx.count(k, len([e for e in out if e["kind"] == k]))
    ctx.count("fpp_points", sum(len(e.get("fpp", [])) for e in out))
    ctx.sample({"entry": out[-1]})
