"""G01: root data (RootDatum.tla)"""
import re
import axval
import groups
import vlib
LEVEL = "model_checking"


def cols(v):
    return v[1]


def ltparse(s):
    m = re.search(r"'(.*)'", s)
    return [[x[0], int(x[1:])] for x in m.group(1).split(".")] if m and m.group(1) else []


DEFS = """
set ROOTS(RootDatum rd)=[vec]: let n=nr_of_posroots(rd) in for i:2*n from -n do root(rd,i) od
set COROOTS(RootDatum rd)=[vec]: let n=nr_of_posroots(rd) in for i:2*n from -n do coroot(rd,i) od
"""


def export(ctx, data, nsamp):
    rng = ctx.rng
    s = axval.Script()
    s.lines.append(DEFS)
    side = []
    for i, (name, expr, lt) in enumerate(data):
        q = lambda k, e: s.q("%d.%s" % (i, k), e)
        s.do("set rd=%s" % expr)
        q("npos", "nr_of_posroots(rd)")
        q("rank", "rank(rd)")
        q("ssrank", "semisimple_rank(rd)")
        q("prefco", "prefers_coroots(rd)")
        q("roots", "ROOTS(rd)")
        q("coroots", "COROOTS(rd)")
        q("sroots", "MX(simple_roots(rd))")
        q("scoroots", "MX(simple_coroots(rd))")
        q("posroots", "MX(posroots(rd))")
        q("poscoroots", "MX(poscoroots(rd))")
        q("cartan", "MX(Cartan_matrix(rd))")
        q("rootidx", "for v in ROOTS(rd) do root_index(rd,v) od")
        q("corootidx", "for v in COROOTS(rd) do coroot_index(rd,v) od")
        q("nonroots", "let R=ROOTS(rd), n=rank(rd) in if #R=0 then [(vec,int,int)]:[] else "
          "for j:6 do let v=R[(7*j)%#R]+R[(5*j+3)%#R] in (v,root_index(rd,v),coroot_index(rd,v)) od "
          "## [let v=null(n) in (v,root_index(rd,v),coroot_index(rd,v))] fi")
        q("rexpr", "let n=nr_of_posroots(rd) in for i:2*n from -n do root_expression(rd,i) od")
        q("crexpr", "let n=nr_of_posroots(rd) in for i:2*n from -n do coroot_expression(rd,i) od")
        q("long", "let n=nr_of_posroots(rd) in for i:2*n from -n do is_long_root(rd,i) od")
        q("colong", "let n=nr_of_posroots(rd) in for i:2*n from -n do is_long_coroot(rd,i) od")
        q("invol", "let n=nr_of_posroots(rd) in for i:2*n from -n do root_involution(rd,i) od")
        q("lad", "let n=nr_of_posroots(rd) in for i:2*n from -n do root_ladder_bottoms(rd,i) od")
        q("colad", "let n=nr_of_posroots(rd) in for i:2*n from -n do coroot_ladder_bottoms(rd,i) od")
        q("refl", "for i:semisimple_rank(rd) do root_permutation(W_elt(rd,[i])) od")
        q("tworho", "two_rho(rd)")
        q("tworhoc", "two_rho_check(rd)")
        q("r_coradical", "MX(root_coradical(rd))")
        q("cr_radical", "MX(coroot_radical(rd))")
        q("fw", "for i:semisimple_rank(rd) do fundamental_weight(rd,i) od")
        q("fcw", "for i:semisimple_rank(rd) do fundamental_coweight(rd,i) od")
        q("dual", "let dd=dual(rd) in (ROOTS(dd),COROOTS(dd),MX(simple_roots(dd)),MX(simple_coroots(dd)),dual(dd)=rd,prefers_coroots(dd))")
        for k, f in (("derived", "derived_info"), ("modtorus", "mod_central_torus_info")):
            q(k, "let (E,M)=%s(rd) in (rank(E),MX(simple_roots(E)),MX(simple_coroots(E)),MX(M))" % f)
        s.q("%d.lt" % i, 'to_string(Lie_type(rd))')
        ss = sum(x[1] for x in lt if x[0] != "T")
        sh = list(range(1, ss + 1))
        rng.shuffle(sh)
        side.append(sh)
        s.do("set CM=Cartan_matrix(rd)")
        sub = "for j:%d do for i:%d do CM[%s[i],%s[j]] od od" % (ss, ss, str([x - 1 for x in sh]), str([x - 1 for x in sh]))
        if ss:
            q("ctype", "let M=mat:%s in let (lt,p)=Cartan_matrix_type(M) in (MX(M),to_string(lt),p,is_Cartan_matrix(M))" % sub)
            bad = []
            for t in range(3):
                a, b = rng.randrange(ss), rng.randrange(ss)
                bad.append("begin M[%d,%d]+:=%d; is_Cartan_matrix(M) end" % (a, b, rng.choice([1, -3, -4]) if a == b else rng.choice([3, -4, 4])))
            q("bad", "[%s]" % ",".join("let M=CM in %s" % b for b in bad))
        m = re.search(r"(quotient_basis\(.*\)),(?:true|false)\)$", expr)
        if m and not name.startswith("conj"):
            q("basis", "MX(%s)" % m.group(1))
    v = s.run(ctx, "root data")
    res = []
    for i, (name, expr, lt) in enumerate(data):
        g = lambda k: v["%d.%s" % (i, k)]
        n = g("npos")
        D = {"name": name, "lt": lt}
        for k in ("npos", "rank", "ssrank", "prefco", "roots", "coroots", "rootidx", "corootidx", "nonroots", "rexpr", "crexpr", "long", "colong",
                  "invol", "lad", "colad", "refl", "tworho", "tworhoc", "fw", "fcw"):
            D[k] = g(k)
        for k in ("sroots", "scoroots", "posroots", "poscoroots", "cartan", "r_coradical", "cr_radical"):
            D[k] = cols(g(k))
        x = g("dual")
        D["dual"] = {"roots": x[0], "coroots": x[1], "sroots": cols(x[2]), "scoroots": cols(x[3]), "dd": x[4], "prefco": x[5]}
        for k in ("derived", "modtorus"):
            x = g(k)
            D[k] = {"rank": x[0], "sroots": cols(x[1]), "scoroots": cols(x[2]), "map": cols(x[3])}
        D["ltgot"] = ltparse(g("lt"))
        ss = sum(y[1] for y in lt if y[0] != "T")
        if ss:
            x = g("ctype")
            D["ctype"] = {"m": cols(x[0]), "lt": ltparse(x[1]), "perm": x[2], "ok": x[3], "shuffle": side[i], "bad": g("bad")}
        else:
            D["ctype"] = {"m": [], "lt": [], "perm": [], "ok": True, "shuffle": [], "bad": []}
        D["basis"], D["index"], D["adjoint"] = [], 1, name.startswith("ad ")
        if "%d.basis" % i in v:
            D["basis"] = cols(g("basis"))
            dens = [max(int(t) for t in re.findall(r"1/(\d)|2/(\d)", z)[0] if t) for z in re.findall(r"ratvec:\[[^\]]*\]", name)]
            D["index"] = 1
            for z in dens:
                D["index"] *= z
        elif name.startswith("sc "):
            D["basis"] = [[int(a == b) for b in range(D["rank"])] for a in range(D["rank"])]
        allk = list(range(-n, n))
        D["samples"] = allk if n * n * len(allk) <= nsamp else sorted(rng.sample(allk, max(2, nsamp // (n * n))))
        res.append(D)
    return res


def conjugated(ctx, n):
    """data with roots and coroots in a random basis of the lattice, simple roots in the standard order"""
    rng, res = ctx.rng, []
    for _ in range(n):
        name, expr, lt = rng.choice(groups.DATA_SMALL[3:] + groups.DATA_MED)
        r = sum(x[1] for x in lt)
        U = [[int(i == j) for j in range(r)] for i in range(r)]
        V = [[int(i == j) for j in range(r)] for i in range(r)]      # transposed inverse
        for _ in range(3):
            if r < 2:
                break
            a, b = rng.sample(range(r), 2)
            k = rng.choice([-2, -1, 1, 2])
            for j in range(r):       # row a += k row b
                U[a][j] += k * U[b][j]
                V[b][j] -= k * V[a][j]
        mat = lambda M: "^(mat:%s)" % str(M)
        res.append(("conj %s %s" % (name, U), "let rd=%s in root_datum(%s*simple_roots(rd),%s*simple_coroots(rd),%s)"
                    % (expr, mat(U), mat(V), rng.choice(["true", "false"])), lt))
    return res


def run(ctx):
    data = groups.DATA_SMALL + groups.DATA_MED + groups.DATA_BIG[:8]
    if not ctx.quick:
        data += groups.DATA_BIG[8:] + groups.DATA_HUGE
    data += conjugated(ctx, 8 if ctx.quick else 60)
    res = export(ctx, data, 4000 if ctx.quick else 60000)
    r = vlib.tlc_check("root datum differs from its definition", "RootDatum",
                       "SPECIFICATION Spec\nINVARIANT Facts Agree\nPOSTCONDITION Complete\n", {"data": res}, timeout=800,
                       files={"data.json": res})
    ctx.tlc_stats(r, "RootDatum")
    ctx.count("traces_validated_against_impl", len(res))
    ctx.cov["root_data"] = [x["name"] for x in res]
    ctx.sample({"name": res[7]["name"], "roots": res[7]["roots"], "coroots": res[7]["coroots"]})
