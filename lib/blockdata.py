"""recording of blocks for pairs of real forms"""
import axval
import groups
import kgbdata

DEFS = kgbdata.DEFS + """
set BTAB(Block B,int S)=[int,int,[int],[int],[int],[int],int]: for i:#B do let (x,y)=element(B,i) in (NR(x),NR(y),for s:S do status(s,B,i) od,for s:S do cross(s,B,i) od,for s:S do Cayley(s,B,i) od,for s:S do inverse_Cayley(s,B,i) od,index(B,x,y)) od
"""


def pairs(ctx, ics, lim):
    """(ic, rf, drf, size) of all non-empty blocks up to a size"""
    s = axval.Script()
    s.lines.append(kgbdata.DEFS)
    for i, x in enumerate(ics):
        s.q(str(i), "(MX(block_sizes(%s)))" % x["expr"])
    v = s.run(ctx, "block sizes")
    res = []
    for i, x in enumerate(ics):
        for drf, col in enumerate(v[str(i)][1]):
            for rf, n in enumerate(col):
                if 0 < n <= lim:
                    res.append((x, rf, drf, n))
    return res


def queue(s, tag, x, rf, drf):
    s.do("set ic=%s" % x["expr"])
    s.do("set G=real_form(ic,%d)" % rf)
    s.do("set dG=dual_real_form(ic,%d)" % drf)
    s.do("set B=block(G,dG)")
    s.do("set DB=dual(B)")
    s.do("set S=semisimple_rank(root_datum(ic))")
    q = lambda k, e: s.q("%s.%s" % (tag, k), "(%s)" % e)
    for k, g in (("kgb", "G"), ("dkgb", "dG")):
        q(k, "for i:KGB_size(%s) do let x=KGB(%s,i) in (MX(involution(x)),length(x),for s:S do status(s,x) od,for s:S do NR(cross(s,x)) od,for s:S do NR(Cayley(s,x)) od) od" % (g, g))
    q("rank", "rank(root_datum(ic)),S")
    q("block", "BTAB(B,S)")
    q("dblock", "BTAB(DB,S)")
    q("size", "#B,block_size(ic,%d,%d)" % (rf, drf))
    q("forms", "let (g,h)=%%B,(h1,g1)=%%DB in g=G and h=dG and g1=G and h1=dG and dual(DB)=B" if False else "let (g,h)=%B,(h1,g1)=%DB in g=G and h=dG and g1=G and h1=dG")


def collect(v, tag):
    g = lambda k: v["%s.%s" % (tag, k)]
    D = {"name": tag, "rank": g("rank")[0], "ss": g("rank")[1], "size": g("size")[0], "size2": g("size")[1], "forms": g("forms")}
    for k in ("kgb", "dkgb"):
        D[k] = [{"inv": e[0][1], "length": e[1], "status": e[2], "cross": e[3], "cayley": e[4]} for e in g(k)]
    for k in ("block", "dblock"):
        D[k] = [dict(zip(("x", "y", "status", "cross", "cayley", "icayley", "index"), e)) for e in g(k)]
    return D
