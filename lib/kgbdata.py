"""recording of root datum and KGB tables of real forms (used by several checks)"""
import axval
import groups

DEFS = groups.IC_DEFS + """
set NR(KGBElt x)=int: let (,n)=%x in n
set REFLTAB(RootDatum rd)=[[int]]: let n=nr_of_posroots(rd) in for s:semisimple_rank(rd) do let p=root_involution(rd,s) in for k:n do let m=p[k+n]-n in 1+if m<0 then -1-m else m fi od od
"""


def hasse(m):
    """columns of a 0/1 matrix as lists of row numbers"""
    return [[i for i, v in enumerate(c) if v] for c in m[1]]


def queue(s, tag, gexpr, back=True):
    """queue queries on a real form"""
    q = lambda k, e: s.q("%s.%s" % (tag, k), "(%s)" % e)
    s.do("set G=%s" % gexpr)
    s.do("set rd=root_datum(inner_class(G))")
    q("size", "KGB_size(G)")
    q("delta", "MX(distinguished_involution(inner_class(G)))")
    q("pos", "MX(posroots(rd))")
    q("copos", "MX(poscoroots(rd))")
    q("sr", "MX(simple_roots(rd))")
    q("scr", "MX(simple_coroots(rd))")
    q("trc", "two_rho_check(rd)")
    q("refl", "REFLTAB(rd)")
    q("base", "base_grading_vector(G)")
    q("hasse", "MX(KGB_Hasse(G))")
    s.do("set S=semisimple_rank(rd)")
    s.do("set NP=nr_of_posroots(rd)")
    q("kgb", "for i:KGB_size(G) do let x=KGB(G,i) in (MX(involution(x)),torus_factor(x),torus_bits(x),length(x),"
      "for s:S do status(s,x) od,for s:S do NR(cross(s,x)) od,for s:S do NR(Cayley(s,x)) od,NR(twist(x)),NR(x)) od")
    if back:
        q("more", "for i:KGB_size(G) do let x=KGB(G,i) in (for s:NP do status(s,x) od,for s:NP do NR(cross(s,x)) od,for s:NP do NR(Cayley(s,x)) od,"
          "let th=involution(x),t=torus_factor(x),r=rank(rd) in ([NR(KGB_elt(G,th,t))]##for i:r do let v=null(r) in begin v[i]:=1+i; NR(KGB_elt(G,th,t+(v+v*th)/1)) end od"
          "##for i:r do let v=null(r) in begin v[i]:=1; NR(KGB_elt(G,th,t+(v-v*th)/3)) end od),"
          "let th=involution(x),t=torus_factor(x) in let H=real_form(inner_class(G),th,t) in let y=KGB_elt(H,th,t) in form_number(H)=form_number(G) and involution(y)=th and torus_factor(y)=t,"
          "let (H,n)=%x in KGB(H,n)=x and not (KGB(H,n)!=x) and form_number(H)=form_number(G)) od")


def collect(v, tag, back=True):
    g = lambda k: v["%s.%s" % (tag, k)]
    D = {"name": tag, "rank": g("delta")[0], "delta": g("delta")[1], "posroots": g("pos")[1], "poscoroots": g("copos")[1], "sroots": g("sr")[1], "scoroots": g("scr")[1],
         "trc": g("trc"), "refl": g("refl"), "base": g("base"), "hasse": hasse(g("hasse")), "kgb": []}
    for i, e in enumerate(g("kgb")):
        k = {"inv": e[0][1], "tf": e[1], "bits": e[2], "length": e[3], "status": e[4], "cross": e[5], "cayley": e[6], "twist": e[7], "hash": e[8]}
        if back:
            m = g("more")[i]
            k.update({"allstatus": m[0], "allcross": m[1], "allcayley": m[2], "back": m[3], "synth": m[4], "eq": m[5]})
        D["kgb"].append(k)
    return D
