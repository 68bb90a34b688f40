"""G10: transparency of remembered results (Store.tla generates histories, HistoryTrace.tla judges the answers)"""
import json
from concurrent.futures import ThreadPoolExecutor
import axval
import g04
import groups
import kgbdata
import paramdata
import querydata as Q
import vlib
LEVEL = "model_checking"

GENCFG = "SPECIFICATION Spec\nINVARIANT Disjoint LowerClosed Columns Report\n"
CFG = "SPECIFICATION Spec\n"


def fams_of(v, tags):
    fams, items, names = {}, [], []
    for t in tags:
        L, M = v[t + ".h"]
        p = v[t + ".p"]
        keys = [Q.key(q) for q in L]
        if Q.key(p) not in keys:
            raise vlib.Rejected("parameter is not in its own block", detail=str(p))
        cov = [[i + 1 for i, e in enumerate(c) if e] for c in M[1]]
        lab = str(([q[0] for q in L], cov))
        if lab not in fams:
            fams[lab] = (len(fams) + 1, cov)
        items.append({"fam": fams[lab][0], "idx": keys.index(Q.key(p)) + 1})
        names.append(p)
    return {"items": items, "fams": [c for _, c in sorted(fams.values())]}, names


def pools(ctx, d, forms, cap, lim):
    def one(a):
        x, f, n, cs = a
        s = axval.Script()
        s.lines.append(Q.DEFS)
        s.lines += Q.head(x, f)
        s.do("set L=([Param]:[])")
        s.do("set ADD(Param t)=void: let new=true in begin for q in L do if q=t then new:=false fi od; if new and #L<%d and is_final(t) then L#:=t fi end" % cap)
        for c in cs:
            s.do("set P=let q=%s in if is_standard(q) then null_module(G)+q else null_module(G) fi" % c)
            s.do("for ct@t in P do let (B,)=block_Hasse(t) in if #B<=%d then ADD(t);let (F,)=block(t) in begin ADD(F[#F-1]);ADD(F[0]);ADD(F[#F\\2]) end;ADD(alcove_center(t)) fi od" % lim)
        s.q("n", "#L")
        s.q("all", "for p in L do let (B,M)=block_Hasse(p) in (PM(p),(PL(B),MX(M))) od")
        v = s.run(ctx, "choosing parameters", d=d)
        tags, w = [], {}
        for j, (p, h) in enumerate(v["all"]):
            w["%d.p" % j], w["%d.h" % j] = p, h
            tags.append(str(j))
        return fams_of(w, tags)
    todo = []
    for x, f, n in forms:
        r = sum(t[1] for t in x["lt"])
        todo.append((x, f, n, [paramdata.param_text(c, n) for c in paramdata.rand_gamma_params(ctx.rng, r, 8)]))
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, todo))


def session(ctx, d, x, f, qs):
    """answers (canonical; None for 'nothing remembered'; error text for refused queries) to queries in sequence"""
    s = axval.Script()
    s.lines.append(Q.DEFS)
    s.lines += Q.head(x, f)
    for j, (k, p) in enumerate(qs):
        s.do("set p=" + Q.ptext(p))
        s.q("q%d" % j, "(" + Q.KINDS[k][1] + ")")
    v = s.run(ctx, "queries %s real form %d: %s" % (x["name"], f, "; ".join("%s %s" % (k, Q.key(p)) for k, p in qs))[:400], allow_missing=True, d=d)
    return [Q.canon(k, v["q%d" % j]) if "q%d" % j in v else ["refused"] for j, (k, p) in enumerate(qs)]


def run(ctx):
    d = vlib.build(["atlas"])
    ics = groups.IC_SMALL + groups.IC_MED + ([] if ctx.quick else groups.IC_BIG[:4])
    lim = 40 if ctx.quick else 120
    forms = [(x, f, n) for x, ss in zip(ics, g04.sizes(ctx, ics)) for f, n in enumerate(ss) if n <= lim]
    if ctx.quick:
        forms = [a for a in forms if a[2] > 2 or ctx.rng.random() < .4]
    pl = pools(ctx, d, forms, 9 if ctx.quick else 14, 60 if ctx.quick else 150)
    sel = [(a, p, n) for a, (p, n) in zip(forms, pl) if n]
    par = {"len": 26 if ctx.quick else 40, "runs": 4 if ctx.quick else 14, "seed": ctx.seed}
    kinds = [{"kind": k, "act": Q.KINDS[k][0]} for k in sorted(Q.KINDS) if k != "sklqfresh"]
    r = vlib.tlc("Store", GENCFG, {"pools": [p for _, p, _ in sel], "kinds": kinds, "par": par}, timeout=400)
    if not r.ok:
        raise vlib.Infra("Store: " + r.out[-2000:])
    ctx.tlc_stats(r, "Store")
    hists = sorted((json.loads(json.loads(h)) for h in r.prints("HIST")), key=lambda h: (h["pool"], h["run"]))
    if len(hists) != len(sel) * par["runs"]:
        raise vlib.Infra("Store printed %d histories" % len(hists))
    ctx.count("behaviours_generated_from_spec", len(hists))
    classes = {}
    for h in hists:
        for s in h["hist"]:
            c = "%s/%s/swallow%d/%s" % (s["act"], s["pre"], min(s["swallow"], 2), "column known" if s["haskl"] else "no column")
            classes[c] = classes.get(c, 0) + 1
    ctx.cov["transition_classes"] = classes

    def replay(h):
        (x, f, _), _, names = sel[h["pool"] - 1]
        return session(ctx, d, x, f, [(s["k"], names[s["i"] - 1]) for s in h["hist"]])
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(replay, hists))
    want = sorted({(h["pool"], s["i"], Q.BASE.get(s["k"], s["k"])) for h in hists for s in h["hist"]})

    def alone(w):
        (x, f, _), _, names = sel[w[0] - 1]
        return session(ctx, d, x, f, [(w[2], names[w[1] - 1])])[0]
    with ThreadPoolExecutor(8) as ex:
        fresh = dict(zip(want, ex.map(alone, want)))
    num, data, kc, ent = {}, [], {}, 0
    for h, g in zip(hists, got):
        (x, f, _), _, names = sel[h["pool"] - 1]
        loc = {}
        steps = []
        for s, v in zip(h["hist"], g):
            fr = fresh[(h["pool"], s["i"], Q.BASE.get(s["k"], s["k"]))]
            code = lambda e: [loc.setdefault(t, len(loc)) for t in e or []]
            steps.append({"k": "%s %s" % (s["k"], Q.key(names[s["i"] - 1])), "asks": s["act"] == "ask", "some": v is not None, "v": code(v), "f": code(fr)})
            kk = s["k"] + (" (nothing)" if v is None else " (refused)" if v == ["refused"] else "")
            kc[kk] = kc.get(kk, 0) + 1
            ent += len(v or [])
        data.append({"name": "%s#%d" % (x["name"], f), "steps": steps})
    r = vlib.tlc_check("answer of a query depends on earlier queries", "HistoryTrace", CFG, {"data": data}, timeout=800,
                       files={"data.json": data})
    ctx.tlc_stats(r, "HistoryTrace")
    ctx.count("traces_validated_against_impl", len(data))
    ctx.count("queries", sum(len(h["hist"]) for h in hists))
    ctx.count("fresh_sessions", len(want))
    ctx.count("entries_compared", ent)
    ctx.cov["queries_by_kind"] = kc
    ctx.sample({"name": data[0]["name"], "steps": data[0]["steps"][:4]})
