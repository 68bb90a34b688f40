"""Queries whose answers are remembered by the program (Rep_table), recorded in canonical form"""
import re
import axval
import groups
import paramdata
import vlib

DEFS = paramdata.DEFS + """
set_type [MPP=(void none|ParamPol some)]
set_type [MKP=(void none|KTypePol some)]
set_type [MQP=(void none|[Param,vec] some)]
set CP(ParamPol P)=[(int,int),(int,vec,ratvec)]: for c@q in P do (%c,PM(q)) od
set KM(KType t)=(int,vec): let (x,l)=%t in (NR(x),l)
set CK(KTypePol P)=[(int,int),(int,vec)]: for c@t in P do (%c,KM(t)) od
set H10(Param p)=int: height(p)+5
set FX(Param p)=bool: twist(p)=p
set NOP=[(int,int),(int,vec,ratvec)]: []
set NOK=[(int,int),(int,vec)]: []
set YP(ParamPol P)=(int,[(int,int),(int,vec,ratvec)]): (1,CP(P))
set YK(KTypePol P)=(int,[(int,int),(int,vec)]): (1,CK(P))
set YQ([Param,vec] P)=(int,[(int,vec,ratvec),vec]): (1,for (q,v) in P do (PM(q),v) od)
"""
# kind -> (model action, reads a stored result of, axis expression in p)
KINDS = {
    "deform": ("kl", "CP(deform(p))"),
    "fdeform": ("def", "CK(full_deform(p))"),
    "tdeform": ("tw", "if FX(p) then CP(twisted_deform(p)) else NOP fi"),
    "tfdeform": ("tdef", "if FX(p) then CK(twisted_full_deform(p)) else NOK fi"),
    "klsum": ("kl", "CP(KL_sum_at_s(p))"),
    "klht": ("full", "CP(KL_sum_at_s_to_height(p,height(p)))"),
    "klhtall": ("full", "CP(KL_sum_at_s_to_height(p,-1))"),
    "klhtmid": ("full", "CP(KL_sum_at_s_to_height(p,height(p)+4))"),
    "tklsum": ("tw", "if FX(p) then CP(twisted_KL_sum_at_s(p)) else NOP fi"),
    "klcol": ("kl", "for (,q,v) in KL_column(p) do (PM(q),v) od"),
    "block": ("full", "let (L,)=block(p) in PL(L)"),
    "pblock": ("part", "PL(partial_block(p))"),
    "hasse": ("full", "let (L,M)=block_Hasse(p) in (PL(L),MX(M))"),
    "klb": ("klfull", "let (L,,M,P)=KL_block(p) in (PL(L),MX(M),P)"),
    "dklb": ("klfull", "let (L,,M,P)=dual_KL_block(p) in (PL(L),MX(M),P)"),
    "pklb": ("klpart", "let (L,M,P)=partial_KL_block(p) in (PL(L),MX(M),P)"),
    "wg": ("klfull", "let (L,)=block_Hasse(p) in let (,W)=W_graph(p) in (PL(L),W)"),
    "cells": ("klfull", "let (L,)=block_Hasse(p) in let (,C)=W_cells(p) in (PL(L),C)"),
    "len": ("part", "length(p)"),
    "skl": ("ask", "case stored_KL_sum_at_s(p) | some(P): YP(P) | none: (0,NOP) esac"),
    "sklq": ("ask", "case stored_KL_Q_polynomials(p) | some(P): YQ(P) | none: (0,[(int,vec,ratvec),vec]:[]) esac"),
    "sklqfresh": ("full", "let P=KL_sum_at_s_to_height(p,-1) in case stored_KL_Q_polynomials(p) | some(Q): YQ(Q) | none: (0,[(int,vec,ratvec),vec]:[]) esac"),
    "sfd": ("ask", "case stored_full_deform(p) | some(P): YK(P) | none: (0,NOK) esac"),
    "stfd": ("ask", "if FX(p) then case stored_twisted_full_deform(p) | some(P): YK(P) | none: (0,NOK) esac else (0,NOK) fi"),
    "eblock": ("fresh", "let (L,A,B,C)=extended_block(p,delta) in (PL(L),MX(A),MX(B),MX(C))"),
    "ekl": ("tw", "let (L,M,P)=partial_extended_KL_block(p,delta) in (PL(L),MX(M),P)"),
    "ktf": ("ktf", "CK(K_type_formula(K_type(p),H10(p)))"),
    "ktfmid": ("ktf", "CK(K_type_formula(K_type(p),2*height(K_type(p))+3))"),
    "ktfhigh": ("ktf", "CK(K_type_formula(K_type(p),2*height(K_type(p))+12))"),
    "ktfraw": ("fresh", "CK(K_type_formula_raw(K_type(p),H10(p)))"),
    "ktflow": ("ktf", "CK(K_type_formula(K_type(p),height(K_type(p))))"),
    "branch": ("ktf", "CK(branch(null_K_module(real_form(p))+K_type(p),H10(p)))"),
    "bdef": ("full", "let (P,Q)=block_deform(p,null_module(real_form(p))+p,height(p)) in (CP(P),CP(Q))"),
    "bdefall": ("full", "let P=null_module(real_form(p))+(let (L,)=block(p) in for q in L do (Split:(1,1),q) od) in let (P,Q)=block_deform(p,P,-1) in (CP(P),CP(Q))"),
    "bdefmid": ("full", "let P=null_module(real_form(p))+p in let (P,Q)=block_deform(p,P,height(p)+4) in (CP(P),CP(Q))"),
    "red": ("fresh", "reducibility_points(p)"),
    "ori": ("fresh", "orientation_nr(p)"),
}
BASE = {"skl": "klsum", "sfd": "fdeform", "stfd": "tfdeform", "sklq": "sklqfresh"}


def head(x, f):
    return ["set G=real_form(%s,%d)" % (x["expr"], f), "set rd=root_datum(inner_class(G))", "set delta=distinguished_involution(inner_class(G))"]


def ptext(t):
    x, l, n = t
    return "param(KGB(G,%d),(vec:%s),(vec:%s)/%d)" % (x, l, n["n"], n["d"])


def key(t):
    return "%d|%s|%s/%d" % (t[0], t[1], t[2]["n"], t[2]["d"])


def kkey(t):
    return "%d|%s" % (t[0], t[1])


def trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def matrix(M):
    return M[1]          # columns


def canon(kind, v):
    """list of entries (strings), whose order does not matter"""
    poly = lambda P, k: ["%s %s" % (c, k(q)) for c, q in P]
    if kind in ("deform", "tdeform", "klsum", "klht", "klhtall", "klhtmid", "tklsum"):
        return poly(v, key)
    if kind in ("fdeform", "tfdeform", "ktf", "ktfraw", "ktflow", "ktfmid", "ktfhigh", "branch"):
        return poly(v, kkey)
    if kind in ("skl", "sfd", "stfd"):
        return None if v[0] == 0 else poly(v[1], key if kind == "skl" else kkey)
    if kind in ("sklq", "sklqfresh"):
        return None if v[0] == 0 else ["%s %s" % (key(q), trim(p)) for q, p in v[1]]
    if kind == "klcol":
        return ["%s %s" % (key(q), trim(p)) for q, p in v]
    if kind in ("block", "pblock"):
        return [key(q) for q in v]
    if kind == "hasse":
        L = [key(q) for q in v[0]]
        cols = matrix(v[1])
        return [key(q) for q in v[0]] + ["%s > %s" % (L[j], L[i]) for j in range(len(cols)) for i in range(len(L)) if cols[j][i]]
    if kind in ("klb", "dklb", "pklb", "ekl"):
        L = [key(q) for q in v[0]]
        cols = matrix(v[1])
        out = list(L)
        for j in range(len(cols)):
            for i in range(len(L)):
                e = cols[j][i]
                p = [-c for c in v[2][-e]] if e < 0 else v[2][e]
                p = trim(p)
                if p:
                    out.append("%s , %s %s" % (L[i], L[j], p))
        return out
    if kind == "wg":
        L = [key(q) for q in v[0]]
        out = []
        for i, (tau, es) in enumerate(v[1]):
            out.append("%s tau %s" % (L[i], sorted(tau)))
            out += ["%s -> %s %d" % (L[i], L[e], m) for e, m in es]
        return out
    if kind == "cells":
        L = [key(q) for q in v[0]]
        out = []
        for els, gr in v[1]:
            out.append("cell " + " ; ".join(sorted(L[e] for e in els)))
            for i, (tau, es) in enumerate(gr):
                out.append("%s tau %s" % (L[els[i]], sorted(tau)))
                out += ["%s -> %s %d" % (L[els[i]], L[els[e]], m) for e, m in es]
        return out
    if kind == "eblock":
        L = [key(q) for q in v[0]]
        T, A, B = (matrix(m) for m in v[1:])
        out = []
        lab = lambda e: ("-" + L[-1 - e]) if e < 0 else "none" if e >= len(L) else L[e]
        for n in range(len(L)):
            out.append("%s %s" % (L[n], [T[s][n] for s in range(len(T))]))
            out += ["%s %d: %s" % (L[n], s, sorted([lab(A[s][n]), lab(B[s][n])])) for s in range(len(T))]
        return out
    if kind.startswith("bdef"):
        return ["d " + t for t in poly(v[0], key)] + ["r " + t for t in poly(v[1], key)]
    return [str(v)]
