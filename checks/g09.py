"""G09: formal sums of parameters and K-types, and the library types for formal sums (LinearTrace.tla)"""
import json
import axval
import groups
import paramdata
import querydata
import u01
import vlib
import g06
LEVEL = "model_checking"
CFG = "SPECIFICATION Spec\n"

DEFS = querydata.DEFS + """
set LP=[Param]: []
set LK=[KType]: []
set ADDP(Param p)=void: begin for q in LP do if q=p then return () fi od; LP#:=p end
set ADDK(KType p)=void: begin for q in LK do if q=p then return () fi od; LK#:=p end
set IDP(Param p)=int: begin for q@i in LP do if q=p then return i+1 fi od; -1 end
set IDK(KType p)=int: begin for q@i in LK do if q=p then return i+101 fi od; -1 end
set SV(ParamPol P)=[(int,int,int)]: for c@p in P do let (a,b)=%c in (IDP(p),a,b) od
set SK(KTypePol P)=[(int,int,int)]: for c@p in P do let (a,b)=%c in (IDK(p),a,b) od
set SVR(ParamPol P)=[(int,int,int)]: for c@p in P ~do let (a,b)=%c in (IDP(p),a,b) od
set SKR(KTypePol P)=[(int,int,int)]: for c@p in P ~do let (a,b)=%c in (IDK(p),a,b) od
set addP(ParamPol P,Param p)=ParamPol: begin P+:=p; P end
set addK(KTypePol P,KType p)=KTypePol: begin P+:=p; P end
"""
NF, NN = 8, 4        # final and other terms used
SCALES = ((1, 2), (2, 3), (0, 1))




def setup(s, rng, t, x, f, n, other):
    """tables of the terms of one real form: LP from 1 (the first NB are used), LK from 101, other terms NP from 201, NK from 301"""
    s.lines += querydata.head(x, f)
    r = sum(a[1] for a in x["lt"])
    cs = [paramdata.param_text(c, n) for c in paramdata.rand_gamma_params(rng, r, 12)]
    s.do("LP:=[]")
    s.do("LK:=[]")
    s.do("set NP=([Param]:[])")
    s.do("for p in ([Param]:[%s]) do if is_standard(p) then if is_final(p) then ADDP(p) elif is_dominant(p) then NP#:=p fi fi od" % ",".join(cs))
    s.do("for p@i in (let (B,)=block(param(KGB(G,%d),null(%d),two_rho(rd)/2)) in B) do if i<5 and #LP<7 then ADDP(p) fi od" % (n - 1, r))
    s.do("for p in LP do let (x,lr,ga)=%p in let q=param(x,lr,ga/2) in if is_standard(q) then if is_final(q) then ADDP(q) elif #NP<9 and is_dominant(q) then NP#:=q fi fi od")
    s.do("set NB=if #LP<%d then #LP else %d fi" % (NF, NF))
    s.do("if #NP>%d then NP:=NP[:%d] fi" % (NN, NN))
    s.do("for p in NP do for @q in null_module(G)+p do ADDP(q) od od")
    s.do("set NE=#LP")
    for a, b in SCALES:
        s.do("for p@i in LP do if i<NE then for @q in (null_module(G)+p)*(%d/%d) do ADDP(q) od fi od" % (a, b))
    s.do("for p@i in LP do if i<NE then for @q in K_type_pol(null_module(G)+p) do ADDK(q) od fi od")
    s.do("set KB=if #LK<%d then #LK else %d fi" % (NF, NF))
    s.do("set NK=for p in NP do K_type(p) od")
    s.do("for t in NK do for @q in null_K_module(G)+t do ADDK(q) od od")
    s.do("for p in NP do for @q in K_type_pol(null_module(G)+p) do ADDK(q) od od")
    s.q(t + ".n", "[NB,NE,KB,#LP,#LK,#NP]")
    s.q(t + ".ht", "(for p in LP do height(p) od,for t in LK do height(t) od)")
    s.q(t + ".ex", "(for p in NP do SV(null_module(G)+p) od,for k in NK do SK(null_K_module(G)+k) od)")
    s.q(t + ".img", "for p@i in LP do if i<NE then SK(K_type_pol(null_module(G)+p)) else ([(int,int,int)]:[]) fi od")
    for j, (a, b) in enumerate(SCALES):
        s.q("%s.sc%d" % (t, j), "for p@i in LP do if i<NE then SV((null_module(G)+p)*(%d/%d)) else ([(int,int,int)]:[]) fi od" % (a, b))
    s.do("set HT=(for p in LP do height(p) od)##for t in LK do height(t) od")
    s.do("set QP=param(KGB(real_form(%s,%d),0),null(%d),null(%d)/1)" % (x["expr"], other, r, r))
    for j in range(4):
        s.do("set v%d=null_module(G)" % j)
        s.do("set k%d=null_K_module(G)" % j)
    # terms chosen by position modulo the size of the pool, found out at run time
    s.do("set PF(int i)=int: i%NB")
    s.do("set KF(int i)=int: i%KB")


class Session:
    def __init__(self, s, rng, t):
        self.s, self.rng, self.t, self.steps = s, rng, t, []
        self.mag, self.args = [0] * 8, None

    def name(self, r):
        return "v%d" % r if r < 4 else "k%d" % (r - 4)

    def show(self, c, rev=None):
        """print the arguments, the result and the registers of a step"""
        rv = ""
        if rev is not None:
            rv = "%s(%s)" % ("SVR" if rev < 4 else "SKR", self.name(rev))
        self.s.q("%s.o%d" % (self.t, len(self.steps)), "(%s,[%s],%s)" % (c or "([int]:[])", ",".join(("SV(%s)" if r < 4 else "SK(%s)") % self.name(r) for r in range(8)),
                                                                        rv or "([(int,int,int)]:[])"))
        self.steps.append((self.op, self.args, rev))

    def term(self, k, final=False):
        """axis text of a term and of its id"""
        i = self.rng.randrange(24)
        if k < 4:
            if not final and self.rng.random() < .3:
                return "(if #NP=0 then LP[0] else NP[%d%%#NP] fi)" % i, "(if #NP=0 then 1 else 201+%d%%#NP fi)" % i, 4
            return "LP[PF(%d)]" % i, "(1+PF(%d))" % i, 1
        if not final and self.rng.random() < .3:
            return "(if #NK=0 then LK[0] else NK[%d%%#NK] fi)" % i, "(if #NK=0 then 101 else 301+%d%%#NK fi)" % i, 4
        return "LK[KF(%d)]" % i, "(101+KF(%d))" % i, 1

    def coef(self):
        a, b = self.rng.choice([(1, 0), (-1, 0), (0, 1), (2, 0), (1, 1), (1, -1), (-2, 2), (-1, -1), (3, -1), (0, 0), (-3, 2)])
        return a, b, "(Split:(%d,%d))" % (a, b)

    def step(self):
        rng, s = self.rng, self.s
        r = rng.randrange(8)
        base = r & 4
        q, t = base + rng.randrange(4), base + rng.randrange(4)
        R, Q, T = self.name(r), self.name(q), self.name(t)
        nul = "null_module(G)" if r < 4 else "null_K_module(G)"
        op = rng.choice(["null", "copy", "pm", "pm", "op", "op", "op", "term", "term", "list", "list", "pp", "pp", "mul", "mul", "smul", "smul", "put", "put", "coef",
                         "size", "eq", "first", "cut", "img", "sc", "err", "let"])
        if op in ("put", "img") and rng.random() < .5:
            op = "pm"
        lim = self.mag[q] + self.mag[t]
        if lim > 10**5 or op == "null" and rng.random() < .5:
            s.do("%s:=%s" % (R, nul))
            self.op, self.args, self.mag[r] = "null", None, 0
            return self.show("[%d]" % (r + 1))
        self.op = "add"
        if op in ("null", "pm", "op", "let"):
            p, i, m = self.term(r)
            sg = rng.choice("+-")
            if op == "op":
                q, Q = r, R
                s.do("%s%s:=%s" % (R, sg, p))
            elif op == "let":
                s.do("%s:=(let w=%s in begin w%s:=%s; let u=w in begin w+:=%s; w:=2*w; u end end)" % (R, Q, sg, p, p))
            elif rng.random() < .3 and sg == "+":
                s.do("%s:=add%s(%s,%s)" % (R, "P" if r < 4 else "K", Q, p))
            else:
                s.do("%s:=%s%s%s" % (R, Q, sg, p))
            self.mag[r] = self.mag[q] + m
            self.show("[%d,%d,%s,%d,0]" % (r + 1, q + 1, i, 1 if sg == "+" else -1), r if rng.random() < .3 else None)
        elif op == "term":
            p, i, m = self.term(r)
            a, b, c = self.coef()
            s.do("%s:=%s+(%s,%s)" % (R, Q, c, p))
            self.mag[r] = self.mag[q] + 5 * m
            self.show("[%d,%d,%s,%d,%d]" % (r + 1, q + 1, i, a, b), r if rng.random() < .3 else None)
        elif op == "list":
            L = [(self.term(r), self.coef()) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
            tp = "Param" if r < 4 else "KType"
            s.do("%s:=%s+([(Split,%s)]:[%s])" % (R, Q, tp, ",".join("(%s,%s)" % (c[2], p[0]) for p, c in L)))
            self.mag[r] = self.mag[q] + 20 * len(L)
            self.op = "list"
            self.show("[%d,%d%s]" % (r + 1, q + 1, "".join(",%s,%d,%d" % (p[1], c[0], c[1]) for p, c in L)), r)
        elif op == "pp":
            sg = rng.choice("+-")
            if rng.random() < .3:
                q, Q = r, R
                s.do("%s%s:=%s" % (R, sg, T))
            else:
                s.do("%s:=%s%s%s" % (R, Q, sg, T))
            self.mag[r] = self.mag[q] + self.mag[t]
            self.op = "addm"
            self.show("[%d,%d,%d,%d,0]" % (r + 1, q + 1, t + 1, 1 if sg == "+" else -1), r)
        elif op in ("mul", "smul"):
            a, b, c = self.coef()
            if op == "mul":
                a, b, c = rng.choice([-2, -1, 0, 1, 2, 3]), 0, None
            s.do("%s:=%s*%s" % (R, c or "(%d)" % a, Q))
            self.mag[r] = self.mag[q] * 5
            self.op = "mul"
            self.show("[%d,%d,%d,%d]" % (r + 1, q + 1, a, b), r)
        elif op == "put":
            p, i, m = self.term(r, True)
            a, b, c = self.coef()
            s.do("%s[%s]:=%s" % (R, p, c))
            self.mag[r] += 5
            self.op = "put"
            self.show("[%d,%s,%d,%d]" % (r + 1, i, a, b), r)
        elif op == "coef":
            p, i, m = self.term(q, True)
            self.op = "coef"
            self.show("[%d,%s],(let (a,b)=%%%s[%s] in [a,b])" % (q + 1, i, Q, p))
        elif op == "size":
            u = rng.randrange(3)
            self.op = ("size", "zero", "nonzero")[u]
            self.show("[%d],[%s]" % (q + 1, ("#%s", "if =%s then 1 else 0 fi", "if !=%s then 1 else 0 fi")[u] % Q))
        elif op == "eq":
            u = rng.randrange(3)
            self.op = "neq" if u == 0 else "eq"
            if u == 2:     # equal by a detour
                p, i, m = self.term(t)
                T, t = "((%s+%s)-%s)" % (Q, p, p), q
            self.show("[%d,%d],[if %s%s%s then 1 else 0 fi]" % (q + 1, t + 1, Q, "!=" if u == 0 else "=", T))
        elif op == "first":
            self.op = rng.choice(["first", "last"])
            self.show("[%d],(if =%s then [-1] else let (c,p)=%s_term(%s) in let (a,b)=%%c in [ID%s(p),a,b] fi)" % (q + 1, Q, self.op, Q, "P" if q < 4 else "K"))
        elif op == "cut":
            h = "(HT[%d%%#HT]+%d)" % (rng.randrange(40), rng.choice([-1, 0, 0, 1]))
            s.do("set hh=%s" % h)
            s.do("%s:=truncate_above_height(%s,hh)" % (R, Q))
            self.mag[r] = self.mag[q]
            self.op = "cut"
            self.show("[%d,%d,hh]" % (r + 1, q + 1), r)
        elif op == "img":
            r, q = 4 + r % 4, q % 4
            s.do("%s:=K_type_pol(%s)" % (self.name(r), self.name(q)))
            self.mag[r] = self.mag[q] * 30
            self.op = "img"
            self.show("[%d,%d]" % (r + 1, q + 1), r)
        elif op == "sc":
            q = q % 4
            j = rng.randrange(len(SCALES))
            self.op = "sc"
            self.show("[%d,%d],(for (i,a,b) in SV(%s*(%d/%d)) do [i,a,b] od)" % (q + 1, j + 1, self.name(q), *SCALES[j]))
        elif op == "err":
            self.op = "err"
            e = rng.choice(["v%d+QP" % (q % 4), "v%d-QP" % (q % 4), "v%d[QP]" % (q % 4), "v%d+(null_module(real_form(QP))+QP)" % (q % 4), "v%d-(null_module(real_form(QP))+QP)" % (q % 4),
                            "v%d+(Split:(1,1),QP)" % (q % 4), "v%d+[(Split:(1,1),LP[0]),(Split:(1,1),QP)]" % (q % 4), "v%d[QP]:=(Split:(1,1))" % (q % 4),
                            "k%d+K_type(QP)" % (q % 4), "k%d+(null_K_module(real_form(QP))+K_type(QP))" % (q % 4), "k%d[K_type(QP)]" % (q % 4), "k%d[K_type(QP)]:=(Split:(1,1))" % (q % 4),
                            "first_term(null_module(G))", "last_term(null_K_module(G))", "v%d+[(Split:(1,1),QP)]" % (q % 4), "k%d-K_type(QP)" % (q % 4)])
            s.q("%s.e%d" % (self.t, len(self.steps)), "(let w=(%s) in 1)" % e)
            self.show("")


def run(ctx):
    rng = ctx.rng
    d = vlib.build()
    exe = u01.harness(d, "linear", ("error",))
    runs, length = (150, 120) if ctx.quick else (1200, 200)
    p = vlib.run_prog([exe, str(ctx.seed), str(runs), str(length)], timeout=300)
    if p.timed_out or p.rc != 0:
        raise vlib.Rejected("operations on formal sums fail: %s" % ("no end" if p.timed_out else "exit status %s" % p.rc), detail=p.out[-600:] + "\n" + p.err[-1500:])
    data = [json.loads(l) for l in p.out.splitlines()]
    ctx.count("library_histories", len(data))
    ctx.count("library_operations", sum(len(h["steps"]) for h in data))

    ics = groups.IC_SMALL + groups.IC_MED
    forms = g06.choose_forms(ctx, ics, 60 if ctx.quick else 130)
    nforms = {}
    for x, f, n in forms:
        nforms.setdefault(x["name"], []).append(f)
    forms = [(x, f, n) for x, f, n in forms if len(nforms[x["name"]]) > 1]
    rng.shuffle(forms)
    forms = forms[:36] if ctx.quick else forms
    s = axval.Script()
    s.lines.append(DEFS)
    ss = []
    for gi, (x, f, n) in enumerate(forms):
        t = "g%d" % gi
        other = rng.choice([g for g in nforms[x["name"]] if g != f])
        setup(s, rng, t, x, f, n, other)
        w = Session(s, rng, t)
        for _ in range(80 if ctx.quick else 200):
            w.step()
        ss.append(w)
    v = s.run(ctx, "formal sums", timeout=600, allow_missing=True)
    err = 0
    for w, (x, f, n) in zip(ss, forms):
        g = lambda k: v[w.t + "." + k] if w.t + "." + k in v else vlib_missing(w.t + "." + k)
        nb, ne, kb, lp, lk, np = g("n")
        if lp > 100 or lk > 100:
            continue
        ht = g("ht")
        S = 300 + np
        pad = lambda m: [m.get(k, []) for k in range(1, S + 1)]
        ident = lambda k: [[k, 1, 0]]
        ex = {k: ident(k) for k in list(range(1, lp + 1)) + list(range(101, 101 + lk))}
        for i, a in enumerate(g("ex")[0]):
            ex[201 + i] = a
        for i, a in enumerate(g("ex")[1]):
            ex[301 + i] = a
        D = {"kind": "%s#%d" % (x["name"], f), "dir": 0, "regs": 8, "ex": pad(ex), "img": pad(dict(enumerate(g("img"), 1))),
             "sc": [pad(dict(enumerate(g("sc%d" % j), 1))) for j in range(len(SCALES))], "steps": [],
             "ht": [ht[0][k - 1] if k <= lp else ht[1][k - 101] if 101 <= k <= 100 + lk else 0 for k in range(1, S + 1)]}
        for j, (op, args, rev) in enumerate(w.steps):
            o = g("o%d" % j)
            if op in ("coef", "size", "zero", "nonzero", "eq", "neq", "first", "last", "sc"):
                a, r, regs, rv = o
            else:
                a, regs, rv = o
                r = []
            if op == "err":
                r = [1] if "%s.e%d" % (w.t, j) in v else [-1]
                err += 1
            D["steps"].append({"op": op, "a": a, "r": r, "o": [[k + 1, q] for k, q in enumerate(regs)], "v": [] if rev is None else [rev + 1, rv]})
        data.append(D)
    t = vlib.tlc_check("formal sums", "LinearTrace", CFG, data={"data": data}, timeout=800)
    ctx.tlc_stats(t, "LinearTrace.tla")
    A = [D for D in data if D["dir"] == 0]
    ctx.count("traces_validated_against_impl", len(data))
    ctx.count("sessions", len(A))
    ctx.count("steps", sum(len(D["steps"]) for D in A))
    ctx.count("refusals", err)
    ctx.count("nonzero_sums_shown", sum(1 for D in A for e in D["steps"] for q in e["o"] if q[1]))
    ctx.count("terms_not_final", sum(1 for D in A for k in D["ex"][200:] if k))
    for D in A[::6]:
        ctx.sample("%s: %s" % (D["kind"], "; ".join("%s %s" % (e["op"], e["a"]) for e in D["steps"][:6])))


def vlib_missing(tag):
    raise vlib.Rejected("no answer for %s" % tag)
