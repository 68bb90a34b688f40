"""G02: Weyl groups (Weyl.tla)"""
import axval
import groups
import vlib
LEVEL = "model_checking"

DEFS = """
set ROOTS(RootDatum rd)=[vec]: let n=nr_of_posroots(rd) in for i:2*n from -n do root(rd,i) od
set COROOTS(RootDatum rd)=[vec]: let n=nr_of_posroots(rd) in for i:2*n from -n do coroot(rd,i) od
set WS([WeylElt] l)=[[int]]: for w in l do word(w) od
"""


def export(ctx, data, full, nprod, nvec, norb):
    rng = ctx.rng
    s = axval.Script()
    s.lines.append(DEFS)
    side = {}
    for i, (name, expr, lt) in enumerate(data):
        q = lambda k, e: s.q("%d.%s" % (i, k), "(%s)" % e)
        r = sum(x[1] for x in lt)
        ss = sum(x[1] for x in lt if x[0] != "T")
        np_ = NPOS(lt)
        s.do("set rd=%s" % expr)
        q("roots", "ROOTS(rd)")
        q("coroots", "COROOTS(rd)")
        q("tr", "two_rho(rd)")
        q("trc", "two_rho_check(rd)")
        rv = lambda lim=3: [rng.choice([0, 0, 1, -1, rng.randint(-lim, lim)]) for _ in range(r)]
        vec = [rng.randint(-9, 9) for _ in range(r)]
        side[i, "vec"] = vec
        if full(name, lt):
            s.do("set v0=vec:%s" % vec)
            q("elts", "for w in Weyl_orbit_ws(rd,two_rho(rd)) do (word(w),length(w),for s:%d do word(w#s) od,for s:%d do word(s#w) od,word(/w),w*v0,v0*w,root_permutation(w)) od" % (ss, ss))
        P = []
        for _ in range(nprod):
            lim = max(3, min(60, 2 * np_))
            wd = lambda: [rng.randrange(ss) for _ in range(rng.randint(0, lim))] if ss else []
            u, v = wd(), wd()
            t = rng.random()
            if t < .2:
                v = u[::-1]
            elif t < .35:
                v = list(u)
            elif t < .45 and ss:   # a different word for the same element
                a = rng.randrange(ss)
                p = rng.randint(0, len(u))
                v = u[:p] + [a, a] + u[p:]
            vv = rv(5)
            P.append((u, v, vv))
            I = lambda l: "([int]:%s)" % l
            s.do("set a=W_elt(rd,%s)" % I(u))
            s.do("set b=W_elt(rd,%s)" % I(v))
            s.do("set c=a*b")
            q("p%d" % (len(P) - 1), "word(c),word(/c),length(c),word(a##%s),word(%s##b),for s:%d do word(c#s) od,for s:%d do word(s#c) od,"
              "a=b,a!=b,=a,!=a,c=/(/b*/a),root_datum(c)=rd,c*(vec:%s),(vec:%s)*c,root_permutation(c)" % (I(v), I(u), ss, ss, vv, vv))
        side[i, "P"] = P
        idxs = list(range(-np_, np_))
        if len(idxs) > 60:
            idxs = rng.sample(idxs, 60)
        q("refls", "for i in ([int]:%s) do (i,word(W_refl(rd,i))) od" % idxs)
        vs = [rv(5) for _ in range(nvec)] + [[0] * r, [1] * r, [-1] * r]
        q("decomp", "for v in ([vec]:%s) do let (w,dom)=from_dominant(rd,v) in (v,word(w),dom) od" % vs)
        q("codecomp", "for v in ([vec]:%s) do let (dom,w)=from_dominant(v,rd) in (v,dom,word(w)) od" % vs)
        O = []
        for _ in range(norb):
            v = rv(4)
            if rng.random() < .3:
                v = [abs(x) for x in v]
            if np_ > 14:   # keep the orbits small
                v = [0] * r
                v[rng.randrange(r)] = rng.choice([1, -1, 2])
                if np_ <= 40 and rng.random() < .5:
                    v[rng.randrange(r)] = rng.choice([1, -1])
            O.append((v, None))
        big = np_ > 40
        for _ in range(norb):
            O.append((rv(4), rng.sample(range(np_), min(ss, rng.choice([1, 2, 2, 3]) if not big else 2)) if np_ else []))
        s.do("set R=ROOTS(rd)")
        s.do("set CR=COROOTS(rd)")
        for j, (v, g) in enumerate(O):
            if g is None:
                q("o%d" % j, "[%s],MX(Weyl_orbit(rd,vec:%s)),WS(Weyl_orbit_ws(rd,vec:%s))" % (",".join(map(str, range(ss))), v, v) if ss else "[int]:[],MX(Weyl_orbit(rd,vec:%s)),WS(Weyl_orbit_ws(rd,vec:%s))" % (v, v))
                q("c%d" % j, "[int]:[],MX(Weyl_orbit(vec:%s,rd)),WS(Weyl_orbit_ws(vec:%s,rd))" % (v, v))
            else:
                # only lists with a valid Cartan matrix are generators: drop those with a positive pairing
                s.do("set g=let g=[int]:[] in begin for i in ([int]:%s) do if all([bool]: for j in g do coroot(rd,j)*root(rd,i)<=0 and i!=j od) then g#:=i fi od; g end" % g)
                q("o%d" % j, "g,MX(Weyl_orbit(rd,g,vec:%s)),WS(Weyl_orbit_ws(rd,g,vec:%s))" % (v, v))
                q("c%d" % j, "g,MX(Weyl_orbit(vec:%s,rd,g)),WS(Weyl_orbit_ws(vec:%s,rd,g))" % (v, v))
        side[i, "O"] = O
    s.lines.insert(2, "set all([bool] l)=bool: let r=true in begin for b in l do r:=r and b od; r end")
    v = s.run(ctx, "Weyl groups", timeout=600)
    res = []
    for i, (name, expr, lt) in enumerate(data):
        g = lambda k: v["%d.%s" % (i, k)]
        n = len(g("roots")) // 2
        ss = sum(x[1] for x in lt if x[0] != "T")
        r = sum(x[1] for x in lt)
        D = {"name": name, "lt": lt, "rank": r, "roots": g("roots"), "coroots": g("coroots"), "tr": g("tr"), "trc": g("trc"),
             "posroots": g("roots")[n:], "sroots": g("roots")[n:n + ss], "scoroots": g("coroots")[n:n + ss], "vec": side[i, "vec"],
             "refls": g("refls"), "decomp": g("decomp"), "codecomp": g("codecomp"), "full": full(name, lt), "elts": [], "id": 1, "perms": n <= 10}
        if D["full"]:
            E = g("elts")
            num = {tuple(e[0]): k + 1 for k, e in enumerate(E)}
            ix = lambda w: num.get(tuple(w), 0)
            D["id"] = ix([])
            D["elts"] = [{"word": e[0], "len": e[1], "rs": [ix(w) for w in e[2]], "ls": [ix(w) for w in e[3]], "inv": ix(e[4]), "act": e[5], "coact": e[6],
                          "perm": e[7] if n <= 10 else []} for e in E]
        D["products"] = []
        for j, (a, b, vv) in enumerate(side[i, "P"]):
            x = g("p%d" % j)
            D["products"].append(dict(zip(("uv", "inv", "len", "uw", "wv", "rs", "ls", "eq", "neq", "unit", "nunit", "eqinv", "datum", "act", "coact", "perm"), x),
                                      u=a, v=b, vec=vv))
        for nm, t in (("orbits", "o"), ("coorbits", "c")):
            D[nm] = []
            for j, (vv, gg) in enumerate(side[i, "O"]):
                x = g("%s%d" % (t, j))
                D[nm].append({"v": vv, "g": list(range(ss)) if gg is None else x[0], "o": x[1][1], "ws": x[2]})
        res.append(D)
    return res


def NPOS(lt):
    f = {"T": lambda n: 0, "A": lambda n: n * (n + 1) // 2, "B": lambda n: n * n, "C": lambda n: n * n, "D": lambda n: n * (n - 1),
         "E": lambda n: {6: 36, 7: 63, 8: 120}[n], "F": lambda n: 24, "G": lambda n: 6}
    return sum(f[x[0]](x[1]) for x in lt)


def run(ctx):
    quick = ctx.quick
    data = groups.DATA_SMALL + groups.DATA_MED + groups.DATA_BIG[:8]
    if not quick:
        data = data + groups.DATA_BIG[8:] + groups.DATA_HUGE
    small = lambda name, lt: NPOS(lt) <= (12 if quick else 25) or name == "sc F4"
    res = export(ctx, data, small, 6 if quick else 20, 6 if quick else 20, 4 if quick else 10)
    r = vlib.tlc_check("Weyl group elements differ from the reflection group", "Weyl",
                       "SPECIFICATION Spec\nINVARIANT Facts Orders Agree\nPOSTCONDITION Complete\n", {"data": res}, timeout=800, files={"data.json": res})
    ctx.tlc_stats(r, "Weyl")
    ctx.count("traces_validated_against_impl", len(res))
    ctx.count("group_elements_explored", sum(len(D["elts"]) for D in res))
    ctx.count("products", sum(len(D["products"]) for D in res))
    ctx.count("orbits", sum(len(D["orbits"]) + len(D["coorbits"]) for D in res))
    ctx.sample(res[10]["products"][0])
    ctx.sample(res[10]["orbits"][-1])
