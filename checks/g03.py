"""G03: real forms and Cartan classes (InnerClass.tla)"""
import re
import axval
import groups
import vlib
LEVEL = "model_checking"
CFG = "SPECIFICATION Spec\nINVARIANT Agree\nPOSTCONDITION Complete\n"
DEFS = groups.IC_DEFS + """
set NUM(RealForm G)=int: form_number(G)
set CINFO(CartanClass C)=((int,int,int),vec,(int,int),[string]): let (a,b,c,(d,e,f))=Cartan_info(C) in (a,b,c,[to_string(d),to_string(e),to_string(f)])
"""


def lietype(s):
    return [["ABCDEFG".index(a) + 1, int(n)] for a, n in re.findall(r"([A-G])(\d+)", s)]


def record(ctx, ics):
    s = axval.Script()
    s.lines.append(DEFS)
    for i, x in enumerate(ics):
        q = lambda k, e: s.q("%d.%s" % (i, k), "(%s)" % e)
        s.do("set ic=%s" % x["expr"])
        s.do("set rd=root_datum(ic)")
        s.do("set dic=dual(ic)")
        q("rank", "rank(rd)")
        for k, e in (("sr", "simple_roots(rd)"), ("sc", "simple_coroots(rd)"), ("pr", "posroots(rd)"), ("pc", "poscoroots(rd)"), ("de", "distinguished_involution(ic)"),
                     ("dd", "distinguished_involution(dic)"), ("occ", "occurrence_matrix(ic)"), ("docc", "dual_occurrence_matrix(ic)"), ("blocks", "block_sizes(ic)")):
            q(k, "MX(%s)" % e)
        q("nr", "nr_of_real_forms(ic),nr_of_dual_real_forms(ic),nr_of_Cartan_classes(ic),form_number(quasisplit_form(ic)),form_number(dual_quasisplit_form(ic))")
        q("forms", "for i:nr_of_real_forms(ic) do let G=real_form(ic,i) in (torus_factor(KGB(G,0)),KGB_size(G),components_rank(G),central_fiber(G),MX(Cartan_order(G)),"
          "for j:nr_of_Cartan_classes(G) do MX(involution(Cartan_class(G,j))) od,MX(involution(most_split_Cartan(G))),form_number(G)) od")
        q("dforms", "for i:nr_of_dual_real_forms(ic) do let G=dual_real_form(ic,i) in (torus_factor(KGB(G,0)),KGB_size(G),form_number(G)) od")
        q("cartans", "for i:nr_of_Cartan_classes(ic) do let C=Cartan_class(ic,i) in let th=involution(C) in (MX(th),CINFO(C),for G in real_forms(C) do NUM(G) od,"
          "for G in dual_real_forms(C) do NUM(G) od,for G in real_forms(C) do fiber_partition(C,G) od,square_classes(C),classify_involution(th),"
          "let (w,jc)=twisted_involution(rd,th) in (word(w),MX(distinguished_involution(jc)),MX(distinguished_involution(inner_class(rd,th))))) od")
        q("blk", "for i:nr_of_real_forms(ic) do for j:nr_of_dual_real_forms(ic) do block_size(ic,i,j) od od")
        q("names", "form_names(ic),dual_form_names(ic),form_names(dic),dual_form_names(dic)")
        q("eqs", "for i:nr_of_real_forms(ic) do for j:nr_of_real_forms(ic) do real_form(ic,i)=real_form(ic,j) od od")
        q("dualok", "[dual(dic)=ic,dic=dual(ic),root_datum(dic)=dual_datum(ic),dual(root_datum(dic))=rd]##for i:nr_of_dual_real_forms(ic) do dual_real_form(ic,i)=real_form(dic,i) od"
          "##for i:nr_of_real_forms(ic) do dual_real_form(dic,i)=real_form(ic,i) od")
    v = s.run(ctx, "inner classes", timeout=400)
    out = []
    for i, x in enumerate(ics):
        g = lambda k: v["%d.%s" % (i, k)]
        nf, nd, nc, qs, dqs = g("nr")
        D = {"name": x["name"], "rank": g("rank"), "sroots": g("sr")[1], "scoroots": g("sc")[1], "posroots": g("pr")[1], "poscoroots": g("pc")[1], "delta": g("de")[1], "ddelta": g("dd")[1],
             "occ": g("occ")[1], "docc": g("docc")[1], "blocks": g("blocks")[1], "qs": qs, "dqs": dqs, "blk": g("blk"), "eqs": g("eqs"), "dualok": g("dualok"),
             "nr": [nf, nd, nc]}
        D["names"], D["dnames"], D["dnames2"], D["ddnames"] = g("names")
        D["forms"] = [dict(tf=e[0], size=e[1], comp=e[2], central=e[3], order=e[4][1], cartans=[m[1] for m in e[5]], split=e[6][1], nr=e[7]) for e in g("forms")]
        D["dforms"] = [dict(tf=e[0], size=e[1], nr=e[2]) for e in g("dforms")]
        D["cartans"] = []
        for e in g("cartans"):
            torus, word, (size, fib), types = e[1]
            D["cartans"].append(dict(inv=e[0][1], torus=torus, word=word, size=size, fiber=fib, imag=lietype(types[0]), real=lietype(types[1]), cplx=lietype(types[2]), rf=e[2], drf=e[3],
                                     part=e[4], sq=e[5], classify=e[6], tww=e[7][0], twd=e[7][1][1], icd=e[7][2][1]))
        out.append(D)
    return out


EXTRA = [("A1.A1", "sc", "sc"), ("A1.A1.A1", "sc", "ccc"), ("C2.A1", "sc", "cc"), ("A1.C2", "sc", "cc"), ("A2.A1", "sc", "sc"), ("A1.A1.T1", "(ratvec:[1/2,1/2,1/2])", "ccs")]


def run(ctx):
    lim = 700 if ctx.quick else 3000
    ics = groups.IC_SMALL + groups.IC_MED + groups.IC_BIG + [groups.ic(*e) for e in EXTRA]
    if not ctx.quick:
        ics += [groups.ic(*e) for e in (("D5", "sc", "c"), ("A6", "sc", "s"), ("A6", "sc", "c"), ("B3.C3", "sc", "cc"), ("E6", "sc", "c"), ("A2.A2.A2", "sc", "sC"), ("D4.A1", "(ratvec:[1/2,1/2,1/2])", "cc"))]
    out = record(ctx, ics)
    tot = lambda D: sum(f["size"] for f in D["forms"] + D["dforms"])
    out = [D for D in out if tot(D) <= lim]
    r = vlib.tlc_check("real forms or Cartan classes", "InnerClass", CFG, {"data": out}, timeout=850, files={"data.json": out})
    ctx.tlc_stats(r, "InnerClass")
    ctx.count("traces_validated_against_impl", len(out))
    ctx.cov["inner_classes"] = [D["name"] for D in out]
    ctx.count("real_forms", sum(len(D["forms"]) for D in out))
    ctx.count("cartan_classes", sum(len(D["cartans"]) for D in out))
    ctx.sample({"name": out[5]["name"], "forms": out[5]["forms"]})
