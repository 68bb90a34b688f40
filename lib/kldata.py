"""recording and rearranging Kazhdan-Lusztig data"""
import re
import axval
import blockdata
import kgbdata
import paramdata
import vlib

DEFS = """
set RKL(Block B)=((int,[vec]),[vec],vec): let (M,P,st)=raw_KL(B) in (MX(M),P,st)
set DKL(Block B)=((int,[vec]),[vec],vec): let (M,P,st)=dual_KL(B) in (MX(M),P,st)
"""

TERM = re.compile(r"([+-]?)(\d*)(?:(q)(?:\^(\d+))?)?")


def parse_pol(t):
    """coefficients of a printed polynomial, lowest degree first"""
    t = t.strip().replace(" ", "")
    if t in ("0", ""):
        return []
    c = {}
    i = 0
    while i < len(t):
        m = TERM.match(t, i)
        if not m or m.end() == i:
            raise vlib.Rejected("polynomial " + t)
        v = int(m.group(2)) if m.group(2) else 1
        e = 0 if not m.group(3) else int(m.group(4) or 1)
        c[e] = c.get(e, 0) + (-v if m.group(1) == "-" else v)
        i = m.end()
    return [c.get(e, 0) for e in range(max(c) + 1)]


def parse_table(txt, n):
    """printed polynomials: for every y the list of (x, polynomial)"""
    rows, y = [[] for _ in range(n)], -1
    for l in txt.split("\n"):
        m = re.match(r"^\s*(?:(\d+):)?\s*(\d+):\s*([-+0-9q^]+)\s*$", l)
        if m:
            if m.group(1) is not None:
                y = int(m.group(1))
            rows[y].append({"x": int(m.group(2)), "p": parse_pol(m.group(3))})
        else:
            m = re.match(r"^\s*(\d+):\s*$", l)
            if m:
                y = int(m.group(1))
    return rows


def mat(M, n):
    """matrix given by columns -> rows"""
    cols = M[1]
    return [[cols[j][i] for j in range(n)] for i in range(n)]


def queue_block(s, tag, x, rf, drf, printed=True):
    blockdata.queue(s, tag, x, rf, drf)
    q = lambda k, e: s.q("%s.%s" % (tag, k), "(%s)" % e)
    q("kl", "RKL(B)")
    q("dual", "DKL(B)")
    if printed:
        s.raw(tag + ".basis", "print_KL_basis(B)")
        s.raw(tag + ".prim", "print_prim_KL(B)")
        s.raw(tag + ".list", "print_KL_list(B)")


def generic(rows, lens):
    """statuses and links in the common layout"""
    st = [r["status"] for r in rows]
    cay = []
    for r in rows:
        c = []
        for k, t in enumerate(r["status"]):
            if t in (2, 3):
                a = r["icayley"][k]
            elif t in (6, 7):
                a = r["cayley"][k]
            else:
                c.append([])
                continue
            c.append([a, rows[a]["cross"][k]] if t in (2, 7) else [a])
        cay.append(c)
    return {"len": lens, "st": st, "cross": [r["cross"] for r in rows], "cay": cay}


def collect_block(v, tag):
    D = blockdata.collect(v, tag)
    rows = D["block"]
    n = len(rows)
    g = lambda k: v["%s.%s" % (tag, k)]
    R = generic(rows, [D["kgb"][r["x"]]["length"] for r in rows])
    R["name"] = tag
    pk = lambda t: {"mat": mat(t[0], n), "polys": t[1]}
    R["kl"] = pk(g("kl"))
    R["stops"] = g("kl")[2]
    R["dual"] = pk(g("dual"))
    if tag + ".basis" in v:
        R["print"] = parse_table(g("basis"), n)
        R["prim"] = parse_table(g("prim"), n)
        R["list"] = [parse_pol(l) for l in g("list").split("\n") if re.match(r"^[-+0-9q^]+$", l.strip())]
    return R


def queue_param(s, t, D, ctx, parts):
    """session B: everything about the block of D["p"], in the order of the list of block_Hasse"""
    q = lambda k, e: s.q("%s.%s" % (t, k), "(%s)" % e)
    pd = paramdata
    rng = ctx.rng
    s.do("set dp=%s" % pd.par(D["p"]["x"], D["p"]["lr"], D["gamma"]))
    s.do("set (L,Hs)=block_Hasse(dp)")
    q("perm", "FINDS(L,[Param]:[%s])" % ",".join(pd.par(r["x"], pd.lam_rho(D["gamma"], D["two_rho"], r["kap"]), D["gamma"]) for r in D["rows"]))
    q("start", "FIND(L,dp)")
    s.do("set w=two_rho(root_datum(inner_class(G)))")
    s.do("set pr=SH(dp,w)")
    s.do("set (Lr,,Mr,Pr)=KL_block(pr)")
    q("permr", "for a in L do FIND(Lr,SH(a,w)) od")
    q("klr", "(MX(Mr),Pr)")
    q("icor", "let (,,g)=%dp in MX(simple_coroots(integrality_datum(root_datum(inner_class(G)),g)))")
    n = len(D["rows"])
    if "kl" in parts:
        q("kls", "let (F,st,M,Ps)=KL_block(dp) in (FINDS(L,F),st,MX(M),Ps)")
        q("dualr", "let (F,st,M,Ps)=dual_KL_block(pr) in (FINDS(Lr,F),st,MX(M),Ps)")
        q("duals", "let (F,st,M,Ps)=dual_KL_block(dp) in (FINDS(L,F),st,MX(M),Ps)")
        zs = sorted(set(rng.randrange(n) for _ in range(3)) | {n - 1})
        q("partial", "for z in %s do let (F,M,Ps)=partial_KL_block(L[z]) in (z,FINDS(L,F),MX(M),Ps) od" % zs)
        # columns of some final parameters
        q("column", "let (F,)=block(dp) in for i in [int]:%s do let f=F[i%%#F] in (FIND(L,f),for (j,r,P) in KL_column(f) do (FIND(L,r),P) od) od" % [rng.randrange(n) for _ in range(3)]
          if D.get("hasfinal", True) else "[(int,[(int,vec)])]:[]")
    if "wg" in parts:
        q("wgraph", "W_graph(dp)")
        q("wcells", "W_cells(dp)")
        q("cox", "let (,,g)=%dp in (" + COX % "integrality_datum(root_datum(inner_class(G)),g)" + ")")


def collect_param(v, t, D, parts):
    g = lambda k: v["%s.%s" % (t, k)]
    rows, n = D["rows"], len(D["rows"])
    perm = g("perm")                       # position in the list of each row of the table
    R = {"name": D["name"], "perm": perm, "start": g("start"), "startrow": D["start"], "permr": g("permr")}
    if sorted(perm) != list(range(n)):
        # leave the table order: the specification rejects the permutation
        inv = list(range(n))
    else:
        inv = [perm.index(i) for i in range(n)]
    pm = perm if sorted(perm) == list(range(n)) else list(range(n))
    R["len"] = [rows[b]["length"] for b in inv]
    R["st"] = [rows[b]["status"] for b in inv]
    R["cross"] = [[pm[c] for c in rows[b]["cross"]] for b in inv]
    R["cay"] = [[[pm[c] for c in l if c >= 0] for l in rows[b]["links"]] for b in inv]
    M, Ps = g("klr")
    m = mat(M, n) if M[0] == n else [[0] * n for _ in range(n)]
    pr = g("permr")
    R["kl"] = {"mat": [[m[pr[i]][pr[j]] if min(pr) >= 0 else 0 for j in range(n)] for i in range(n)], "polys": Ps}
    R["icor"] = g("icor")[1]
    R["gamma"] = D["gamma"]["n"]
    k = lambda F, M, Ps: {"list": F, "mat": mat(M, len(F)), "polys": Ps}
    if "kl" in parts:
        F, st, M, Ps = g("kls")
        R["kls"] = dict(k(F, M, Ps), start=st)
        F, st, M, Ps = g("dualr")
        R["dualr"] = k([pr.index(f) if f in pr else -1 for f in F], M, Ps)
        F, st, M, Ps = g("duals")
        R["duals"] = dict(k(F, M, Ps), start=st)
        R["partial"] = [dict(k(F, M, Ps), z=z) for z, F, M, Ps in g("partial")]
        R["column"] = [{"y": y, "col": [{"x": a, "p": p} for a, p in c]} for y, c in g("column")]
    if "wg" in parts:
        st, W = g("wgraph")
        R["wg"] = graph(W)
        R["wgstart"] = st
        st, C = g("wcells")
        R["cells"] = [{"members": m, "graph": graph(W)} for m, W in C]
        R["cellstart"] = st
        R["cox"] = g("cox")
    return R


def graph(W):
    return [{"tau": t, "edges": [{"to": a, "mu": b} for a, b in e]} for t, e in W]


def parse_vertex(t):
    """"{1,2}" -> [1,2]"""
    return [int(a) for a in t.split(",") if a.strip()]


def parse_wgraph(txt):
    rows = []
    for l in txt.split("\n"):
        m = re.match(r"^(\d+):\{([\d,]*)\}:\{(.*)\}$", l.strip())
        if m:
            if int(m.group(1)) != len(rows):
                raise vlib.Rejected("W-graph numbering")
            rows.append({"tau": parse_vertex(m.group(2)), "edges": [{"to": int(a), "mu": int(b)} for a, b in re.findall(r"\((\d+),(\d+)\)", m.group(3))]})
    return rows


def parse_wcells(txt):
    cells, induced, graphs = [], [], []
    for l in txt.split("\n"):
        l = l.strip()
        m = re.match(r"^#(\d+)=\{([\d,]*)\}$", l)
        if m:
            cells.append(parse_vertex(m.group(2)))
            continue
        m = re.match(r"^#(\d+):(->)?([#\d,]*)\.$", l)
        if m:
            induced.append([int(a) for a in re.findall(r"\d+", m.group(3))])
            continue
        m = re.match(r"^// cell #(\d+):$", l)
        if m:
            graphs.append([])
            continue
        m = re.match(r"^(\d+)\[(\d+)\]: \{([\d,]*)\}(?: --> (.*))?$", l)
        if m:
            e = []
            for a, b, c in re.findall(r"\((\d+),(\d+)\)|(\d+)", m.group(4) or ""):
                e.append({"to": int(c), "mu": 1} if c else {"to": int(a), "mu": int(b)})
            graphs[-1].append({"member": int(m.group(2)), "tau": parse_vertex(m.group(3)), "edges": e})
    return {"cells": cells, "induced": induced, "graphs": graphs}


COX = "let C=Cartan_matrix(%s) in let (n,)=shape(C) in for i:n do for j:n do let k=C[i,j]*C[j,i] in if k=0 then 2 elif k=1 then 3 elif k=2 then 4 elif k=3 then 6 else 1 fi od od"


def queue_wgraph(s, tag):
    """after queue_block"""
    q = lambda k, e: s.q("%s.%s" % (tag, k), "(%s)" % e)
    q("wg", "W_graph(B)")
    q("cells", "W_cells(B)")
    q("cox", COX % "root_datum(ic)")
    s.raw(tag + ".pgraph", "print_W_graph(B)")
    s.raw(tag + ".pcells", "print_W_cells(B)")


def collect_wgraph(v, tag, R):
    g = lambda k: v["%s.%s" % (tag, k)]
    R["wg"] = graph(g("wg"))
    R["cells"] = [{"members": m, "graph": graph(W)} for m, W in g("cells")]
    R["cox"] = g("cox")
    R["pgraph"] = parse_wgraph(g("pgraph"))
    R["pcells"] = parse_wcells(g("pcells"))
    return R
