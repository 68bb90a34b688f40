"""recording of parameter blocks"""
import re
import axval
import groups
import kgbdata
import vlib

DEFS = kgbdata.DEFS + """
set PM(Param p)=(int,vec,ratvec): let (x,l,n)=%p in (NR(x),l,n)
set PL([Param] L)=[(int,vec,ratvec)]: for p in L do PM(p) od
set IC(Param p)=ratvec: let (,,g)=%p in g
"""


def queue_group(s, tag, x, f):
    """real form f of inner class x: root datum and K\\G/B tables with all roots"""
    q = lambda k, e: s.q("%s.%s" % (tag, k), "(%s)" % e)
    s.do("set G=real_form(%s,%d)" % (x["expr"], f))
    s.do("set rd=root_datum(inner_class(G))")
    s.do("set S=semisimple_rank(rd)")
    s.do("set NP=nr_of_posroots(rd)")
    q("delta", "MX(distinguished_involution(inner_class(G)))")
    q("pos", "MX(posroots(rd))")
    q("copos", "MX(poscoroots(rd))")
    q("sr", "MX(simple_roots(rd))")
    q("trc", "two_rho_check(rd)")
    q("rho", "two_rho(rd)/2")
    q("simple", "for s:S do 1+root_index(rd,root(rd,s)) od")
    q("kgb", "for i:KGB_size(G) do let x=KGB(G,i) in (MX(involution(x)),length(x),for s:NP do status(s,x) od,for s:NP do NR(cross(s,x)) od,for s:NP do NR(Cayley(s,x)) od,NR(twist(x)),torus_factor(x)) od")


def collect_group(v, tag):
    g = lambda k: v["%s.%s" % (tag, k)]
    return {"name": tag, "rank": g("delta")[0], "delta": g("delta")[1], "posroots": g("pos")[1], "poscoroots": g("copos")[1], "sroots": g("sr")[1], "trc": g("trc"),
            "rho": g("rho"), "simple": g("simple"),
            "kgb": [{"inv": e[0][1], "length": e[1], "allstatus": e[2], "allcross": e[3], "allcayley": e[4], "twist": e[5], "tf": e[6]} for e in g("kgb")]}


def rand_gamma_params(rng, r, n, dens=(1, 1, 1, 2, 2, 3, 4)):
    """candidate (x seed, lambda_rho, nu) triples as axis text"""
    out = []
    for _ in range(n):
        d = rng.choice(dens)
        nu = [rng.choice([0, 1, 1, 2, rng.randint(-4, 4)]) for _ in range(r)]
        lr = [rng.choice([0, 0, 1, rng.randint(-2, 3)]) for _ in range(r)]
        out.append((rng.random(), lr, nu, d))
    return out


def param_text(c, ksize):
    return "param(KGB(G,%d),%s,(vec:%s)/%d)" % (int(c[0] * ksize), c[1], c[2], c[3])


ST = {"C-": 0, "ic": 1, "r1": 2, "r2": 3, "C+": 4, "rn": 5, "i1": 6, "i2": 7}
LINE = re.compile(r"\s*(\d+):\s*(\d+)\s*\[([^\]]*)\]\s*((?:\d+\s+)*)((?:\(\s*[\d*]+\s*,\s*[\d*]+\)\s*)*)(\*?)\(x=\s*(\d+),\s*gamma-lambda=\s*\[([^\]]*)\]/(\d+)\)")


def parse_block(txt):
    m = re.search(r"defines element (\d+) of", txt)
    if not m:
        raise vlib.Rejected("print_block header: " + txt[:200])
    start, rows = int(m.group(1)), []
    for l in txt.split("\n"):
        m = LINE.match(l)
        if not m:
            if re.match(r"\s*\d+:", l):
                raise vlib.Rejected("print_block line: " + l)
            continue
        n = lambda t: -1 if t == "*" else int(t)
        if int(m.group(1)) != len(rows):
            raise vlib.Rejected("print_block numbering: " + l)
        rows.append({"length": int(m.group(2)), "status": [ST[t] for t in m.group(3).split(",") if t], "cross": [int(t) for t in m.group(4).split()],
                     "links": [[n(a), n(b)] for a, b in re.findall(r"\(\s*([\d*]+)\s*,\s*([\d*]+)\)", m.group(5))], "surv": m.group(6) == "*",
                     "x": int(m.group(7)), "kap": {"n": [int(t) for t in m.group(8).split(",") if t.strip()], "d": int(m.group(9))}})
    return start, rows


def P(t):
    return {"x": t[0], "lr": t[1], "nu": t[2]}


def intsimple_expr(p):
    return "let R=integrality_datum(rd,IC(%s)) in let C=simple_coroots(R) in for c in C do 1+coroot_index(rd,c) od" % p


KDEFS = """
set SH(Param q,vec w)=Param: let (x,l,g)=%q in param(x,l+w,g+w)
set FIND([Param] L,Param q)=int: let r= -1 in begin for p@i in L do if p=q then r:=i fi od; r end
set FINDS([Param] L,[Param] M)=[int]: for q in M do FIND(L,q) od
"""


def choose_params(ctx, rng, forms, per, extra=6):
    """for every (ic, form, size): axis text of `per` lists of candidates; the first standard one counts"""
    out = []
    for gi, (x, f, n) in enumerate(forms):
        r = sum(t[1] for t in x["lt"])
        for j in range(per):
            cs = [param_text(c, n) for c in rand_gamma_params(rng, r, extra)] + ["param(KGB(G,%d),null(%d),(vec:%s)/1)" % (n - 1, r, [1] * r)]
            out.append((gi, cs[-1:] if j == 0 else cs))
    return out


def tables(ctx, forms, per, lim):
    """session A: block tables of random parameters with at most lim elements"""
    s = axval.Script()
    s.lines.append(DEFS)
    todo, last = [], None
    for k, (gi, cs) in enumerate(choose_params(ctx, ctx.rng, forms, per)):
        x, f, n = forms[gi]
        if last != gi:
            s.do("set G=real_form(%s,%d)" % (x["expr"], f))
            s.do("set rd=root_datum(inner_class(G))")
            last = gi
        s.do("set p=let c=([Param]:[%s]) in let r=c[#c-1] in begin for q in c do if is_standard(q) then r:=q; break fi od; r end" % ",".join(cs))
        s.do("set ok=is_standard(p) and #(block_Hasse(p).L)<=%d" % lim if False else "set ok=if is_standard(p) then let (L,)=block_Hasse(p) in #L<=%d else false fi" % lim)
        s.do("set dp=if ok then dominant(p) else p fi")
        t = "t%d" % k
        s.raw(t + ".print", "if ok then print_block(dp) fi")
        s.q(t + ".p", "(PM(dp))")
        s.q(t + ".ok", "ok")
        s.q(t + ".rho", "two_rho(rd)")
        s.q(t + ".int", intsimple_expr("dp"))
        todo.append((gi, t))
    v = s.run(ctx, "parameter block tables", timeout=600)
    out, seen = [], set()
    for gi, t in todo:
        if not v[t + ".ok"]:
            continue
        start, rows = parse_block(v[t + ".print"])
        D = {"gi": gi, "name": "%s#%d p=%s" % (forms[gi][0]["name"], forms[gi][1], v[t + ".p"]), "p": P(v[t + ".p"]), "gamma": P(v[t + ".p"])["nu"], "start": start, "rows": rows,
             "two_rho": v[t + ".rho"], "int": v[t + ".int"]}
        key = (gi, str(rows), str(D["gamma"]))
        if key not in seen:
            seen.add(key)
            out.append(D)
    return out


def lam_rho(gamma, two_rho, kap):
    """lambda-rho = gamma-rho-kappa"""
    from fractions import Fraction as F
    v = [F(g, gamma["d"]) - F(t, 2) - F(k, kap["d"]) for g, t, k in zip(gamma["n"], two_rho, kap["n"])]
    if any(c.denominator != 1 for c in v):
        raise vlib.Rejected("non-integral lambda-rho")
    return [int(c) for c in v]


def rv(g):
    return "(vec:%s)/%d" % (g["n"], g["d"])


def par(x, lr, gamma):
    return "param(KGB(G,%d),%s,%s)" % (x, lr, rv(gamma))


def int_singular(D, copos):
    return [sum(a * b for a, b in zip(D["gamma"]["n"], copos[k - 1])) == 0 for k in D["int"]]
