"""Random well-typed axis programs: produces both program text and the syntax
tree (JSON) that spec/Axis.tla evaluates.  Values are never computed here."""
STORE = 1000      # bound on integers kept in variables and components
BIG = 10 ** 8     # bound on intermediate integers


def tname(t):
    if isinstance(t, str):
        return {"i": "int", "b": "bool", "s": "string", "v2": "vec", "v3": "vec", "vx": "vec", "u": "un0", "p": "pt0"}[t]
    if t[0] == "m":
        return "mat"
    if t[0] == "row":
        return "[" + tname(t[1]) + "]"
    if t[0] == "tup":
        return "(" + ",".join(map(tname, t[1])) + ")"
    if t[0] == "fun":
        return "(" + ",".join(map(tname, t[1])) + "->" + tname(t[2]) + ")"
    raise ValueError(t)


def is_t(t, k):
    return isinstance(t, tuple) and t[0] == k


class E:
    """expression: syntax tree, text, bound on integer magnitudes"""
    __slots__ = ("n", "t", "b")

    def __init__(self, n, t, b=0):
        self.n, self.t, self.b = n, t, b


IMPURE = {"ass", "mass", "cass", "cass2", "fass", "call", "prints"}


def impure(n):
    if isinstance(n, dict):
        return n.get("o") in IMPURE or any(impure(v) for v in n.values())
    if isinstance(n, list):
        return any(impure(v) for v in n)
    return False


def exits(n):
    """may leave by break/return/error: not wanted in initialisers of loops counters"""
    if isinstance(n, dict):
        return n.get("o") in ("brk", "ret", "die") or any(exits(v) for v in n.values())
    if isinstance(n, list):
        return any(exits(v) for v in n)
    return False


def I(n):
    return {"o": "lit", "v": {"t": "i", "v": n}}


def ilit(v):
    return E(I(v), str(v) if v >= 0 else "(-%d)" % -v, abs(v))


VOIDE = {"o": "lit", "v": {"t": "tup", "v": []}}
UN = [("ui", "i"), ("us", "s"), ("ur", ("row", "i"))]
PT = [("px", "i"), ("pv", "v2"), ("pr", ("row", "i"))]


class Gen:
    def __init__(self, rng, loops=True, maxcost=1500, errors=True):
        self.r = rng
        self.scope = []
        self.loops = 0          # enclosing loops in the current function
        self.fun = None         # result type of the enclosing function
        self.mult = 1
        self.cost = 0
        self.maxcost = maxcost
        self.errors = errors
        self.safe = False
        self.focus_loops = loops
        self.nw = 0
        self.dep = 0            # nesting depth of functions

    # ---- helpers
    def pick(self, *ws):
        tot = sum(w for w, _ in ws)
        x = self.r.random() * tot
        for w, f in ws:
            x -= w
            if x < 0:
                return f
        return ws[-1][1]

    def vars(self, pred):
        seen, out = set(), []
        for v in reversed(self.scope):
            if v["n"] in seen:
                continue
            seen.add(v["n"])
            if pred(v):
                out.append(v)
        return out

    def fresh(self, k):
        return self.r.sample(["a", "b", "c", "d", "e", "x", "y", "z"], k)

    def wrap(self, e, T):
        """bring integers within the storage bound"""
        if e.b <= STORE:
            return e
        k = self.r.choice([7, 10, 16, 23, 97])
        if T == "i":
            return E({"o": "op", "f": "%", "as": [e.n, I(k)]}, "(%s%%%d)" % (e.t, k), k)
        if T in ("v2", "v3", "vx"):
            return E({"o": "op", "f": "v%i", "as": [e.n, I(k)]}, "(%s%%%d)" % (e.t, k), k)
        raise ValueError(T)

    def expr(self, T, d):
        self.cost += self.mult
        if d <= 0 or self.cost > self.maxcost:
            return self.leaf(T)
        r = self.r
        for _ in range(3):
            e = self.try_expr(T, d)
            if e is not None:
                return e
        return self.leaf(T)

    def sexpr(self, T, d):
        return self.wrap(self.expr(T, d), T)

    # ---- leaves
    def leaf(self, T):
        r = self.r
        vs = self.vars(lambda v: v["t"] == T)
        if vs and r.random() < 0.75:
            v = r.choice(vs)
            return E({"o": "var", "n": v["n"]}, v["n"], STORE if T in ("i", "v2", "v3", "vx") or is_t(T, "m") else 0)
        return self.literal(T)

    def literal(self, T):
        r = self.r
        if T == "i":
            return ilit(r.choice([0, 1, 2, 3, -1, 5, r.randint(-20, 40)]))
        if T == "b":
            v = r.random() < 0.5
            return E({"o": "lit", "v": {"t": "b", "v": v}}, "true" if v else "false")
        if T == "s":
            v = "".join(r.choice("pqrst ") for _ in range(r.choice([0, 1, 1, 2, 3, 4])))
            return E({"o": "lit", "v": {"t": "s", "v": v}}, '"%s"' % v)
        if T in ("v2", "v3", "vx"):
            n = {"v2": 2, "v3": 3, "vx": r.randint(0, 4)}[T]
            es = [ilit(r.randint(-9, 30)) for _ in range(n)]
            return E({"o": "op", "f": "r2v", "as": [{"o": "row", "es": [e.n for e in es]}]},
                     "(vec:[%s])" % ",".join(e.t for e in es), 30)
        if is_t(T, "m"):
            cols = [[r.randint(-9, 30) for _ in range(T[1])] for _ in range(T[2])]
            return E({"o": "lit", "v": {"t": "mat", "v": cols, "n": T[1]}},
                     "(mat:[%s])" % ",".join("[%s]" % ",".join(map(str, c)) for c in cols), 30)
        if is_t(T, "row"):
            es = [self.literal(T[1]) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
            if not es:
                return E({"o": "row", "es": []}, "(%s:[])" % tname(T))
            return E({"o": "row", "es": [e.n for e in es]}, "[%s]" % ",".join(e.t for e in es))
        if is_t(T, "tup"):
            es = [self.literal(t) for t in T[1]]
            return E({"o": "tup", "es": [e.n for e in es]}, "(%s)" % ",".join(e.t for e in es))
        if T == "u":
            i = r.randrange(3)
            e = self.literal(UN[i][1])
            return E({"o": "inj", "tag": UN[i][0], "a": e.n}, "%s(%s)" % (UN[i][0], e.t))
        if T == "p":
            es = [self.literal(t) for _, t in PT]
            return E({"o": "tup", "es": [e.n for e in es]}, "(pt0:(%s))" % ",".join(e.t for e in es))
        if is_t(T, "fun"):
            return self.lam(T, 1)
        raise ValueError(T)

    # ---- patterns
    def pattern(self, T, const=False, names=None, allow_skip=True):
        """returns (tree, text, [(name,type,const)])"""
        r = self.r
        if is_t(T, "tup") and r.random() < 0.5:
            ps, ts, bs = [], [], []
            for t in T[1]:
                if allow_skip and r.random() < 0.2:
                    ps.append({"o": "skip"})
                    ts.append("")
                else:
                    p, tx, b = self.pattern(t, const, names, allow_skip)
                    ps.append(p)
                    ts.append(tx)
                    bs += b
            nm = ""
            if names and not const and r.random() < 0.3:
                nm = names.pop()
                bs.append((nm, T, False))
            return ({"o": "tup", "ps": ps, "n": nm}, "(" + ",".join(ts) + ")" + (":" + nm if nm else ""), bs)
        if not names:
            return ({"o": "skip"}, "()" if T == () else "", []) if False else ({"o": "id", "n": self.dummy(), "c": True}, "!" + self.last, [])
        n = names.pop()
        c = const or r.random() < 0.1
        bang = "!" if (c and not const) else ""
        return ({"o": "id", "n": n, "c": c}, bang + n, [(n, T, c)])

    def dummy(self):
        self.nw += 1
        self.last = "dm%d" % self.nw
        return self.last

    def push(self, bs):
        for n, t, c in bs:
            self.scope.append({"n": n, "t": t, "c": c, "dep": self.dep})

    # ---- functions
    def lam(self, T, d, name=None):
        args, res = T[1], T[2]
        names = self.fresh(min(8, len(args)))
        sc, lo, fu, mu = len(self.scope), self.loops, self.fun, self.mult
        bs = [(n, t, False) for n, t in zip(names, args)]
        self.dep += 1
        self.push(bs)
        self.loops, self.fun = 0, res
        body = self.sexpr(res, d)
        del self.scope[sc:]
        self.dep -= 1
        self.loops, self.fun, self.mult = lo, fu, mu
        ps = [{"o": "id", "n": n, "c": False} for n in names]
        head = "(%s)" % ",".join("%s %s" % (tname(t), n) for n, t in zip(names, args)) if args else "@"
        return E({"o": "fun", "ps": ps, "b": body.n}, "(%s %s: %s)" % (head, tname(res), body.t))

    def call_args(self, args, d):
        es = [self.sexpr(t, d - 1) for t in args]
        return [e.n for e in es], "(" + ",".join(e.t for e in es) + ")"

    # ---- the main choice
    def try_expr(self, T, d):
        ws = [(3, self.g_if), (1.2, self.g_case), (3, self.g_let), (2.5, self.g_seq), (0.8, self.g_next),
              (1.5, self.g_ass), (1.5, self.g_call), (1.5, self.g_sub), (0.7, self.g_proj), (2, self.leaf2),
              (0.7, self.g_ucase), (0.8, self.g_exit)]
        if T == "i":
            ws += [(6, self.g_int), (0.7, self.g_field)]
        elif T == "b":
            ws += [(8, self.g_bool)]
        elif T == "s":
            ws += [(4, self.g_str)]
        elif T in ("v2", "v3", "vx"):
            ws += [(6, self.g_vec)]
        elif is_t(T, "m"):
            ws += [(4, self.g_mat)]
        elif is_t(T, "row"):
            ws += [(14 if self.focus_loops else 6, self.g_row)]
        elif is_t(T, "tup"):
            ws += [(6, self.g_tup)]
        elif T == "u":
            ws += [(4, self.g_un)]
        elif T == "p":
            ws += [(4, self.g_pt)]
        elif is_t(T, "fun"):
            ws = [(5, lambda T, d: self.lam(T, d - 1)), (1, self.g_if), (1, self.g_let), (1, self.g_ass), (1, self.leaf2), (1, self.g_sub)]
        return self.pick(*ws)(T, d)

    def leaf2(self, T, d):
        return self.leaf(T)

    def g_exit(self, T, d):
        """branch that leaves the evaluation"""
        r = self.r
        opts = []
        if self.loops > 0:
            opts += ["brk"] * 4
        if self.fun is not None:
            opts += ["ret"] * 3
        if self.errors and not self.safe and r.random() < 0.3:
            opts += ["die"]
        if not opts:
            return None
        k = r.choice(opts)
        c = self.expr("b", d - 1)
        e = self.expr(T, d - 1)
        if k == "brk":
            n = r.choice([0, 0, 0, 1, 2])
            n = min(n, self.loops - 1)
            x, xt = {"o": "brk", "n": n}, " ".join(["break"] * (n + 1))
        elif k == "ret":
            v = self.sexpr(self.fun, d - 2)
            x, xt = {"o": "ret", "e": v.n}, "return %s" % v.t
        else:
            x, xt = {"o": "die"}, "die"
        if r.random() < 0.5:
            return E({"o": "if", "c": c.n, "a": x, "b": e.n}, "if %s then %s else %s fi" % (c.t, xt, e.t), e.b)
        return E({"o": "if", "c": c.n, "a": e.n, "b": x}, "if %s then %s else %s fi" % (c.t, e.t, xt), e.b)

    def g_if(self, T, d):
        c, a, b = self.expr("b", d - 1), self.expr(T, d - 1), self.expr(T, d - 1)
        n = {"o": "if", "c": c.n, "a": a.n, "b": b.n}
        k = self.r.random()
        if k < 0.7:
            t = "if %s then %s else %s fi" % (c.t, a.t, b.t)
        elif k < 0.85:
            t = "if %s else %s then %s fi" % (c.t, b.t, a.t)
        else:
            c2, e2 = self.expr("b", d - 2), self.expr(T, d - 2)
            t = "if %s then %s elif %s then %s else %s fi" % (c.t, a.t, c2.t, e2.t, b.t)
            n["b"] = {"o": "if", "c": c2.n, "a": e2.n, "b": b.n}
            return E(n, t, max(a.b, b.b, e2.b))
        return E(n, t, max(a.b, b.b))

    def g_case(self, T, d):
        r = self.r
        c = self.sexpr("i", d - 1)
        if r.random() < 0.5:
            k = r.choice([2, 3, 4])
            c = E({"o": "op", "f": "-", "as": [{"o": "op", "f": "%", "as": [c.n, I(6)]}, I(k)]}, "%s%%6-%d" % (c.t, k))
        bs = [self.expr(T, d - 2) for _ in range(r.randint(1, 3))]
        lo, hi = [], []
        inb = " in " + ",".join(b.t for b in bs)
        k = r.random()
        if k < 0.35:
            t = "case %s%s esac" % (c.t, inb)
        else:
            h = self.expr(T, d - 2)
            hi = [h]
            ht = " else " + h.t
            if k < 0.65:
                t = "case %s%s esac" % (c.t, r.choice([inb + ht, ht + inb]))
            else:
                l = self.expr(T, d - 2)
                lo = [l]
                lt = " then " + l.t
                t = "case %s%s esac" % (c.t, r.choice([inb + lt + ht, lt + inb + ht, lt + ht + inb]))
        return E({"o": "case", "c": c.n, "bs": [b.n for b in bs], "lo": [x.n for x in lo], "hi": [x.n for x in hi]},
                 t, max(b.b for b in bs + lo + hi))

    def rtype(self, d=1):
        r = self.r
        k = r.random()
        if k < 0.35:
            return "i"
        if k < 0.42:
            return "b"
        if k < 0.5:
            return "s"
        if k < 0.6:
            return r.choice(["v2", "v3"])
        if k < 0.66:
            return ("m", 2, r.choice([2, 3]))
        if k < 0.7:
            return "u"
        if k < 0.75:
            return "p"
        if d > 0 and k < 0.9:
            return ("row", self.rtype(d - 1))
        if d > 0:
            return ("tup", tuple(self.rtype(d - 1) for _ in range(r.choice([2, 2, 3]))))
        return "i"

    def ftype(self):
        r = self.r
        ts = ["i", "i", "b", "v2", ("row", "i"), ("tup", ("i", "s")), "s"]
        return ("fun", tuple(r.choice(ts) for _ in range(r.choice([0, 1, 1, 2]))), r.choice(ts))

    def g_let(self, T, d):
        r = self.r
        names = self.fresh(6)
        k = r.choice([1, 1, 1, 2])
        sc = len(self.scope)
        ps, es, txt, bs = [], [], [], []
        for _ in range(k):
            if r.random() < 0.2:
                ft = self.ftype()
                n = names.pop()
                if r.random() < 0.3 and ft[1] and ft[1][0] == "i":
                    e = self.recfun(ft, d - 1, n)
                    es.append(e.n)
                    ps.append({"o": "id", "n": n, "c": False})
                    txt.append(e.t)
                else:
                    e = self.lam(ft, d - 1)
                    es.append(e.n)
                    ps.append({"o": "id", "n": n, "c": False})
                    txt.append("%s=%s" % (n, e.t))
                bs.append((n, ft, False))
                continue
            t = self.rtype()
            e = self.sexpr(t, d - 1)
            p, pt, b = self.pattern(t, False, names)
            ps.append(p)
            es.append(e.n)
            txt.append("%s=%s" % (pt, e.t))
            bs += b
        self.push(bs)
        if r.random() < 0.5:
            q = self.stmt(d - 1)
            b0 = self.expr(T, d - 1)
            b = E({"o": "seq", "a": q.n, "b": b0.n}, "%s; %s" % (q.t, b0.t), b0.b)
        else:
            b = self.expr(T, d - 1)
        del self.scope[sc:]
        return E({"o": "let", "ps": ps, "es": es, "b": b.n}, "(let %s in %s)" % (", ".join(txt), b.t), b.b)

    def recfun(self, ft, d, name):
        """recursive function, decreasing its first argument"""
        r = self.r
        args, res = ft[1], ft[2]
        names = [x for x in self.fresh(len(args) + 1) if x != name][:len(args)]
        sc, lo, fu, mu = len(self.scope), self.loops, self.fun, self.mult
        self.dep += 1
        self.scope.append({"n": name, "t": "hidden", "c": True})
        self.push([(n, t, True if i == 0 else False) for i, (n, t) in enumerate(zip(names, args))])
        self.loops, self.fun, self.mult = 0, res, self.mult * 3
        base = self.sexpr(res, d - 1)
        others = [self.sexpr(t, d - 2) for t in args[1:]]
        n0 = names[0]
        rc = {"o": "call", "f": {"o": "var", "n": name},
              "as": [{"o": "op", "f": "-", "as": [{"o": "var", "n": n0}, I(1)]}] + [x.n for x in others]}
        rt = "%s(%s)" % (name, ",".join(["%s-1" % n0] + [x.t for x in others]))
        # step: bind the recursive result, then compute
        free = [x for x in ["a", "b", "c", "d", "e", "x", "y", "z"] if x != name and x not in names][0]
        self.push([(free, res, False)])
        step = self.sexpr(res, d - 1)
        del self.scope[sc:]
        self.dep -= 1
        self.loops, self.fun, self.mult = lo, fu, mu
        test = {"o": "op", "f": "<=", "as": [{"o": "var", "n": n0}, I(0)]}
        # arguments are capped so that recursion is shallow
        capped = {"o": "if", "c": {"o": "op", "f": ">", "as": [{"o": "var", "n": n0}, I(4)]},
                  "a": base.n,
                  "b": {"o": "let", "ps": [{"o": "id", "n": free, "c": False}], "es": [rc], "b": step.n}}
        body = {"o": "if", "c": test, "a": base.n, "b": capped}
        bt = "if %s<=0 then %s elif %s>4 then %s else let %s=%s in %s fi" % (n0, base.t, n0, base.t, free, rt, step.t)
        ps = [{"o": "id", "n": n, "c": False} for n in names]
        t = "rec_fun %s(%s)=%s: %s" % (name, ",".join("%s %s" % (tname(t), n) for n, t in zip(names, args)), tname(res), bt)
        return E({"o": "rec", "n": name, "ps": ps, "b": body}, t)

    def g_seq(self, T, d):
        q = self.stmt(d - 1)
        e = self.expr(T, d - 1)
        return E({"o": "seq", "a": q.n, "b": e.n}, self.r.choice(["(%s; %s)", "begin %s; %s end"]) % (q.t, e.t), e.b)

    def g_next(self, T, d):
        e = self.expr(T, d - 1)
        q = self.stmt(d - 1)
        return E({"o": "next", "a": e.n, "b": q.n}, "(%s next %s)" % (e.t, q.t), e.b)

    def assignable(self, pred):
        return self.vars(lambda v: not v["c"] and pred(v))

    def g_ass(self, T, d):
        vs = self.assignable(lambda v: v["t"] == T)
        if not vs:
            return None
        v = self.r.choice(vs)
        e = self.sexpr(T, d - 1)
        n = e.n
        # x := x op e evaluates e before x: keep e free of side effects
        if n["o"] == "op" and any(a["o"] == "var" and a["n"] == v["n"] for a in n["as"]) and any(impure(a) for a in n["as"]):
            return None
        return E({"o": "ass", "n": v["n"], "e": n}, "(%s:=%s)" % (v["n"], e.t), e.b)

    def g_call(self, T, d):
        r = self.r
        # an assignable function variable is only called at its own function depth (no accidental recursion)
        vs = self.vars(lambda v: is_t(v["t"], "fun") and v["t"][2] == T and (v["c"] or v.get("dep", 0) == self.dep))
        vs = [v for v in vs if self.cost + self.mult * v.get("cost", 30) < self.maxcost]
        if vs and r.random() < 0.8:
            v = r.choice(vs)
            self.cost += self.mult * v.get("cost", 30)
            an, at = self.call_args(v["t"][1], d)
            return E({"o": "call", "f": {"o": "var", "n": v["n"]}, "as": an}, v["n"] + at, STORE)
        fs = self.vars(lambda v: is_t(v["t"], "row") and is_t(v["t"][1], "fun") and v["t"][1][2] == T and v.get("dep", 0) == self.dep)
        if fs:
            v = r.choice(fs)
            i = r.randint(0, 1)
            self.cost += self.mult * 30
            an, at = self.call_args(v["t"][1][1], d)
            return E({"o": "call", "f": {"o": "sub", "a": {"o": "var", "n": v["n"]}, "i": I(i), "r": False}, "as": an},
                     "%s[%d]%s" % (v["n"], i, at), STORE)
        if d < 2:
            return None
        args = tuple(self.rtype(0) for _ in range(r.choice([0, 1, 2])))
        f = self.lam(("fun", args, T), d - 1)
        an, at = self.call_args(args, d - 1)
        return E({"o": "call", "f": f.n, "as": an}, f.t + at, STORE)

    def index(self, d, nonempty=None):
        r = self.r
        return ilit(r.choice([0, 0, 1, 1, 2]))

    def g_sub(self, T, d):
        r = self.r
        rev = r.random() < 0.3
        br = "~[" if rev else "["
        if T == "i" and r.random() < 0.5:
            k = r.choice(["v2", "v3", "m"])
            if k == "m":
                a = self.expr(("m", 2, 2), d - 1)
                i, j = ilit(r.randint(0, 1)), ilit(r.randint(0, 1))
                if self.errors and not self.safe and r.random() < 0.05:
                    j = ilit(r.choice([2, -1]))
                return E({"o": "sub2", "a": a.n, "i": i.n, "j": j.n, "r": rev}, "(%s)%s%s,%s]" % (a.t, br, i.t, j.t), a.b)
            n = int(k[1])
            a = self.expr(k, d - 1)
            i = self.sexpr("i", d - 2)
            if self.errors and not self.safe and r.random() < 0.05:
                return E({"o": "sub", "a": a.n, "i": i.n, "r": rev}, "(%s)%s%s]" % (a.t, br, i.t), a.b)
            return E({"o": "sub", "a": a.n, "i": {"o": "op", "f": "%", "as": [i.n, I(n)]}, "r": rev},
                     "(%s)%s%s%%%d]" % (a.t, br, i.t, n), a.b)
        if T == "v2" and r.random() < 0.5:
            a = self.expr(("m", 2, 2), d - 1)
            i = ilit(r.randint(0, 1))
            return E({"o": "sub", "a": a.n, "i": i.n, "r": rev}, "(%s)%s%s]" % (a.t, br, i.t), a.b)
        if T == "s":
            a = self.expr("s", d - 1)
            return self.guarded(a, "s", T, d, rev, br, lambda s: "#(%s)" % s)
        a = self.expr(("row", T), d - 1)
        return self.guarded(a, "r", T, d, rev, br, lambda s: "#(%s)" % s)

    def guarded(self, a, kind, T, d, rev, br, ln):
        """let q=array in if #q=0 then default else q[i % #q] fi, or unguarded"""
        r = self.r
        i = self.sexpr("i", d - 2)
        if self.errors and not self.safe and r.random() < 0.12:
            return E({"o": "sub", "a": a.n, "i": i.n, "r": rev}, "(%s)%s%s]" % (a.t, br, i.t), STORE)
        alt = self.leaf(T)
        q = self.dummy()
        qv = {"o": "var", "n": q}
        le = {"o": "op", "f": "#r", "as": [qv]}
        return E({"o": "let", "ps": [{"o": "id", "n": q, "c": True}], "es": [a.n],
                  "b": {"o": "if", "c": {"o": "op", "f": "=", "as": [le, I(0)]}, "a": alt.n,
                        "b": {"o": "sub", "a": qv, "i": {"o": "op", "f": "%", "as": [i.n, le]}, "r": rev}}},
                 "(let !%s=%s in if #%s=0 then %s else %s%s%s%%#%s] fi)" % (q, a.t, q, alt.t, q, br, i.t, q), STORE)

    def g_proj(self, T, d):
        """take a component of a tuple through a pattern"""
        r = self.r
        o = self.rtype(0)
        k = r.randrange(2)
        tt = ("tup", (T, o) if k == 0 else (o, T))
        e = self.expr(tt, d - 1)
        n = self.dummy()
        ps = [{"o": "skip"}, {"o": "skip"}]
        ps[k] = {"o": "id", "n": n, "c": False}
        return E({"o": "let", "ps": [{"o": "tup", "ps": ps, "n": ""}], "es": [e.n], "b": {"o": "var", "n": n}},
                 "(let (%s)=%s in %s)" % (n + "," if k == 0 else "," + n, e.t, n), STORE)

    def g_ucase(self, T, d):
        r = self.r
        c = self.expr("u", d - 1)
        tags = list(range(3))
        r.shuffle(tags)
        full = r.random() < 0.5
        use = tags if full else tags[:2]
        bs, txt, bb = [], [], [0]
        for i in use:
            tag, t = UN[i]
            sc = len(self.scope)
            names = self.fresh(2)
            n = names[0]
            self.push([(n, t, False)])
            b = self.expr(T, d - 2)
            del self.scope[sc:]
            bs.append({"tag": tag, "p": {"o": "id", "n": n, "c": False}, "e": b.n})
            txt.append("%s(%s): %s" % (tag, n, b.t))
            bb.append(b.b)
        els = {"o": "die"}
        if not full:
            e = self.expr(T, d - 2)
            els = e.n
            txt.append("else %s" % e.t)
            bb.append(e.b)
        return E({"o": "ucase", "c": c.n, "bs": bs, "els": els}, "case %s | %s esac" % (c.t, " | ".join(txt)), max(bb))

    def g_un(self, T, d):
        i = self.r.randrange(3)
        e = self.sexpr(UN[i][1], d - 1)
        return E({"o": "inj", "tag": UN[i][0], "a": e.n}, "%s(%s)" % (UN[i][0], e.t))

    def g_pt(self, T, d):
        es = [self.sexpr(t, d - 1) for _, t in PT]
        return E({"o": "tup", "es": [e.n for e in es]}, "(pt0:(%s))" % ",".join(e.t for e in es))

    def g_field(self, T, d):
        e = self.expr("p", d - 1)
        return E({"o": "proj", "a": e.n, "i": 1}, "(%s).px" % e.t, STORE)

    # ---- operations
    def g_int(self, T, d):
        r = self.r
        f = r.choice(["+", "+", "-", "*", "%", "\\", "neg", "#", "dot"])
        if f == "neg":
            a = self.expr("i", d - 1)
            return E({"o": "op", "f": "neg", "as": [a.n]}, "(-%s)" % a.t, a.b)
        if f == "#":
            t = r.choice([("row", "i"), ("row", "s"), "s", "vx"])
            a = self.expr(t, d - 1)
            return E({"o": "op", "f": "#r", "as": [a.n]}, "(#%s)" % a.t, STORE)
        if f == "dot":
            k = r.choice(["v2", "v3"])
            a, b = self.sexpr(k, d - 1), self.sexpr(k, d - 1)
            return E({"o": "op", "f": "v*v", "as": [a.n, b.n]}, "(%s*%s)" % (a.t, b.t), 3 * a.b * b.b)
        a = self.expr("i", d - 1)
        if f in ("%", "\\"):
            k = r.choice([1, 2, 3, 5, 7, 10, -2, -3])
            b = ilit(k)
            if self.errors and not self.safe and r.random() < 0.04:
                b = self.sexpr("i", d - 2)
            return E({"o": "op", "f": f, "as": [a.n, b.n]}, "(%s%s%s)" % (a.t, f, b.t), STORE if f == "%" else a.b)
        b = self.expr("i", d - 1)
        if f == "*":
            a, b = self.wrap(a, "i"), self.wrap(b, "i")
            nb = a.b * b.b
        else:
            nb = a.b + b.b
        if nb > BIG:
            a, b = self.wrap(a, "i"), self.wrap(b, "i")
            nb = a.b + b.b
        return E({"o": "op", "f": f, "as": [a.n, b.n]}, "(%s%s%s)" % (a.t, f, b.t), nb)

    def g_bool(self, T, d):
        r = self.r
        k = r.random()
        if k < 0.55:
            f = r.choice(["=", "!=", "<", "<=", ">", ">="])
            a, b = self.expr("i", d - 1), self.expr("i", d - 1)
        elif k < 0.65:
            f = r.choice(["=", "!="])
            t = r.choice(["s", "v2", "v3"])
            a, b = self.expr(t, d - 1), self.expr(t, d - 1)
        elif k < 0.75:
            a = self.expr("b", d - 1)
            return E({"o": "op", "f": "not", "as": [a.n]}, "(not (%s))" % a.t)
        else:
            f = r.choice(["and", "or"])
            a, b = self.expr("b", d - 1), self.expr("b", d - 1)
            return E({"o": f, "a": a.n, "b": b.n}, "((%s) %s (%s))" % (a.t, f, b.t))
        return E({"o": "op", "f": f, "as": [a.n, b.n]}, "(%s%s%s)" % (a.t, f, b.t))

    def g_str(self, T, d):
        r = self.r
        k = r.random()
        if k < 0.5:
            a, b = self.expr("s", d - 2), self.leaf("s")
            return E({"o": "op", "f": "s##", "as": [a.n, b.n]}, "(%s##%s)" % (a.t, b.t))
        if k < 0.7:
            a = self.sexpr("i", d - 1)
            return E({"o": "op", "f": "i2s", "as": [a.n]}, "to_string(%s)" % a.t)
        return self.slice("s", d)

    def slice(self, T, d, a=None):
        r = self.r
        a = a or self.expr(T, d - 1)
        lo, hi = r.choice([0, 0, 1, 1, 2]), r.choice([0, 0, 1, 2])
        lr, hr = r.random() < 0.3, r.random() < 0.75
        if self.safe or not self.errors or r.random() < 0.8:
            # forms that cannot fail for long enough arrays are guarded by empty bounds
            if not hr:
                hi = r.choice([0, 0, 1]) if not self.safe else 0
            if self.safe:
                lo, lr = (0, False)
                hi = 0
        rev = r.random() < 0.35
        lot, hit = ilit(lo), ilit(hi)
        if lo == 0 and not lr and r.random() < 0.4:
            lt = ""
        else:
            lt = lot.t + ("~" if lr else "")
        if hi == 0 and hr and r.random() < 0.4:
            ht = ""
        else:
            ht = hit.t + ("~" if hr else "")
        at = a.t if a.n["o"] == "var" else "(%s)" % a.t
        return E({"o": "slice", "a": a.n, "lo": lot.n, "lr": lr, "hi": hit.n, "hr": hr, "r": rev},
                 "%s%s%s:%s]" % (at, "~[" if rev else "[", lt, ht), a.b)

    def g_vec(self, T, d):
        r = self.r
        n = {"v2": 2, "v3": 3, "vx": None}[T]
        if n is None:
            k = r.random()
            if k < 0.3:
                return self.slice("v3", d)
            if k < 0.5:
                a, b = self.expr("vx", d - 2), self.expr("v2", d - 2)
                return E({"o": "op", "f": "v##", "as": [a.n, b.n]}, "(%s##%s)" % (a.t, b.t), max(a.b, b.b))
            if k < 0.7:
                a, b = self.expr("vx", d - 2), self.sexpr("i", d - 2)
                if r.random() < 0.5:
                    return E({"o": "op", "f": "v#e", "as": [a.n, b.n]}, "(%s#%s)" % (a.t, b.t), max(a.b, b.b))
                return E({"o": "op", "f": "e#v", "as": [b.n, a.n]}, "(%s#%s)" % (b.t, a.t), max(a.b, b.b))
            a = self.expr(("row", "i"), d - 1)
            return E({"o": "op", "f": "r2v", "as": [a.n]}, "(vec:%s)" % a.t, STORE)
        f = r.choice(["v+", "v-", "vneg", "v*i", "v%i", "v\\i", "disp", "rev", "m*v", "pv", "col"])
        if f in ("v+", "v-"):
            a, b = self.expr(T, d - 1), self.expr(T, d - 1)
            if a.b + b.b > BIG:
                a, b = self.wrap(a, T), self.wrap(b, T)
            return E({"o": "op", "f": f, "as": [a.n, b.n]}, "(%s%s%s)" % (a.t, f[1], b.t), a.b + b.b)
        if f == "vneg":
            a = self.expr(T, d - 1)
            return E({"o": "op", "f": f, "as": [a.n]}, "(-%s)" % a.t, a.b)
        if f == "v*i":
            a, b = self.sexpr(T, d - 1), self.sexpr("i", d - 1)
            return E({"o": "op", "f": f, "as": [a.n, b.n]}, "(%s*%s)" % (a.t, b.t), a.b * b.b)
        if f in ("v%i", "v\\i"):
            a, k = self.expr(T, d - 1), r.choice([2, 3, 7, 10])
            return E({"o": "op", "f": f, "as": [a.n, I(k)]}, "(%s%s%d)" % (a.t, f[1], k), max(k, a.b if f[1] == "\\" else 0))
        if f == "rev":
            a = self.expr(T, d - 1)
            return E({"o": "slice", "a": a.n, "lo": I(0), "lr": False, "hi": I(0), "hr": True, "r": True}, "(%s)~[:]" % a.t, a.b)
        if f == "m*v" and n == 2:
            a, b = self.expr(("m", 2, 3), d - 1), self.sexpr("v3", d - 1)
            return E({"o": "op", "f": f, "as": [a.n, b.n]}, "(%s*%s)" % (a.t, b.t), 3 * STORE * b.b)
        if f == "pv" and n == 2:
            a = self.expr("p", d - 1)
            return E({"o": "proj", "a": a.n, "i": 2}, "(%s).pv" % a.t, STORE)
        es = [self.sexpr("i", d - 1) for _ in range(n)]
        return E({"o": "op", "f": "r2v", "as": [{"o": "row", "es": [e.n for e in es]}]},
                 "(vec:[%s])" % ",".join(e.t for e in es), max(e.b for e in es))

    def g_mat(self, T, d):
        r = self.r
        k = r.random()
        if k < 0.25 and T[1] == T[2]:
            a = self.expr(T, d - 1)
            return E({"o": "op", "f": "^m", "as": [a.n]}, "(^%s)" % a.t, a.b)
        cols = [self.sexpr("v%d" % T[1], d - 2) for _ in range(T[2])]
        return E({"o": "op", "f": "r2m", "as": [{"o": "row", "es": [c.n for c in cols]}]},
                 "(mat:[%s])" % ",".join(c.t for c in cols), max(c.b for c in cols))

    def g_tup(self, T, d):
        es = [self.sexpr(t, d - 1) for t in T[1]]
        return E({"o": "tup", "es": [e.n for e in es]}, "(%s)" % ",".join(e.t for e in es))

    # ---- rows and loops
    def g_row(self, T, d):
        r = self.r
        t = T[1]
        fl = 1.0 if self.focus_loops else 0.5
        ws = [(2, "disp"), (4 * fl, "cfor"), (5 * fl, "forin"), (4 * fl, "while"), (2.5, "slice"), (1, "cat"), (2 * fl, "nest")]
        if t in ("i", "b", "s") or is_t(t, "tup"):
            ws.append((1, "app"))
        k = self.pick(*ws)
        if k == "disp":
            es = [self.sexpr(t, d - 1) for _ in range(r.choice([1, 2, 2, 3]))]
            return E({"o": "row", "es": [e.n for e in es]}, "[%s]" % ",".join(e.t for e in es))
        if k == "cat":
            a, b = self.expr(T, d - 1), self.leaf(T)
            return E({"o": "op", "f": "r##", "as": [a.n, b.n]}, "(%s##%s)" % (a.t, b.t))
        if k == "app":
            a, b = self.expr(T, d - 1), self.sexpr(t, d - 1)
            if r.random() < 0.5:
                return E({"o": "op", "f": "r#e", "as": [a.n, b.n]}, "(%s#%s)" % (a.t, b.t))
            return E({"o": "op", "f": "e#r", "as": [b.n, a.n]}, "(%s#%s)" % (b.t, a.t))
        if k == "slice":
            return self.slice(T, d)
        if self.mult > 100:
            return None
        if k == "nest":
            return self.nested(T, d)
        return self.loop(t, d, lambda dd: self.sexpr(t, dd))

    def in_loop(self, bs, f, iters=3, brk=True):
        sc, mu = len(self.scope), self.mult
        self.push(bs)
        self.loops += 1
        self.mult *= iters
        x = f()
        self.loops -= 1
        self.mult = mu
        del self.scope[sc:]
        return x

    def heading(self, d):
        """for-loop heading: (node without body, text, bindings, has ~do)"""
        r = self.r
        k = r.random()
        if k < 0.4:
            n = ilit(r.choice([0, 1, 2, 3, 3, 4, -1])) if r.random() < 0.7 else None
            if n is None:
                e = self.sexpr("i", d - 2)
                n = E({"o": "op", "f": "%", "as": [e.n, I(5)]}, "(%s)%%5" % e.t)
            kk = r.random()
            if kk < 0.25:
                return {"o": "cfor", "n": n.n, "lo": I(0), "p": {"o": "tup", "ps": [{"o": "skip"}], "n": ""}, "tr": False}, "for :%s" % n.t, [], False
            i = self.fresh(1)[0]
            p = {"o": "tup", "ps": [{"o": "id", "n": i, "c": True}], "n": ""}
            if kk < 0.5:
                return {"o": "cfor", "n": n.n, "lo": I(0), "p": p}, "for %s:%s" % (i, n.t), [(i, "i", True)], True
            lo = self.sexpr("i", d - 2)
            if kk < 0.85:
                return {"o": "cfor", "n": n.n, "lo": lo.n, "p": p}, "for %s:%s from %s" % (i, n.t, lo.t), [(i, "i", True)], True
            return {"o": "cfor", "n": n.n, "lo": lo.n, "p": p, "tr": True}, "for %s:%s downto %s" % (i, n.t, lo.t), [(i, "i", True)], None
        src = self.pick((3, ("row", "i")), (1.5, ("row", ("tup", ("i", "s")))), (1, ("row", "v2")), (1, "v2"), (1, "v3"), (1, "s"),
                        (0.7, ("m", 2, 3)), (0.5, ("row", ("row", "i"))), (0.5, ("row", self.rtype(0))))
        a = self.expr(src, d - 1)
        et = src[1] if is_t(src, "row") else "i" if src in ("v2", "v3") else "s" if src == "s" else "v2"
        names = self.fresh(4)
        idx = names.pop() if r.random() < 0.5 else None
        if r.random() < 0.1:
            p, pt, bs = {"o": "skip"}, "", []
        else:
            p, pt, bs = self.pattern(et, True, names)
        ip = {"o": "id", "n": idx, "c": True} if idx else {"o": "skip"}
        if idx:
            bs = bs + [(idx, "i", True)]
        return ({"o": "forin", "a": a.n, "p": {"o": "tup", "ps": [p, ip], "n": ""}},
                "for %s%s in %s" % (pt, "@" + idx if idx else "", a.t), bs, True)

    def loop(self, t, d, bodyf):
        r = self.r
        if r.random() < 0.3:
            return self.whileloop(t, d, bodyf)
        h, ht, bs, til = self.heading(d)
        tr = til is True and r.random() < 0.3
        rr = til is not None and r.random() < 0.3
        body = self.in_loop(bs, lambda: bodyf(d - 1))
        h["tr"] = h.get("tr", tr)
        h["rr"] = rr
        h["body"] = body.n
        return E(h, "%s %sdo %s %sod" % (ht, "~" if tr else "", body.t, "~" if rr else ""))

    def nested(self, T, d):
        """for ... for ... do od od, for ... if ... do fi od: concatenated"""
        r = self.r
        t = T[1]
        h, ht, bs, til = self.heading(d)
        tr = til is True and r.random() < 0.25
        rr = til is not None and r.random() < 0.25
        if r.random() < 0.5:
            def inner():
                c = self.expr("b", d - 2)
                e = self.sexpr(t, d - 2)
                return E({"o": "if", "c": c.n, "a": {"o": "row", "es": [e.n]}, "b": {"o": "row", "es": []}},
                         "if %s do %s fi" % (c.t, e.t))
        else:
            def inner():
                h2, ht2, bs2, til2 = self.heading(d - 1)
                tr2 = til2 is True and r.random() < 0.25
                rr2 = til2 is not None and r.random() < 0.25
                b = self.in_loop(bs2, lambda: self.sexpr(t, d - 2))
                h2["tr"] = h2.get("tr", tr2)
                h2["rr"] = rr2
                h2["body"] = b.n
                return E(h2, "%s %sdo %s %sod" % (ht2, "~" if tr2 else "", b.t, "~" if rr2 else ""))
        b = self.in_loop(bs, inner)
        h["tr"] = h.get("tr", tr)
        h["rr"] = rr
        h["body"] = b.n
        return E({"o": "op", "f": "##r", "as": [h]}, "%s %s%s %sod" % (ht, "~" if tr else "", b.t, "~" if rr else ""))

    def whileloop(self, t, d, bodyf):
        r = self.r
        self.nw += 1
        w = "w%d" % self.nw
        k = r.choice([1, 2, 3, 3, 4])
        wv = {"o": "var", "n": w}
        dec = {"o": "ass", "n": w, "e": {"o": "op", "f": "-", "as": [wv, I(1)]}}
        neg = {"o": "op", "f": "<", "as": [wv, I(0)]}
        form = r.choice([1, 2, 3, 4, 5])
        rr = r.random() < 0.3

        def dob(c, b):
            return {"o": "do", "c": c, "b": b}
        T_ = {"o": "lit", "v": {"t": "b", "v": True}}

        def mk():
            if form == 1:
                b = bodyf(d - 1)
                return E(dob({"o": "op", "f": ">=", "as": [dec, I(0)]}, b.n), "(%s-:=1)>=0 do %s" % (w, b.t))
            if form == 2:
                b = bodyf(d - 1)
                q = self.dummy()
                return E({"o": "let", "ps": [{"o": "id", "n": q, "c": False}], "es": [wv],
                          "b": {"o": "seq", "a": dec, "b": dob({"o": "op", "f": ">", "as": [{"o": "var", "n": q}, I(0)]}, b.n)}},
                         "let %s=%s in %s-:=1; %s>0 do %s" % (q, w, w, q, b.t))
            if form == 3:
                c = self.expr("b", d - 2)
                c2 = self.expr("b", d - 2)
                a, b = bodyf(d - 2), bodyf(d - 2)
                return E({"o": "seq", "a": dec, "b": {"o": "if", "c": neg, "a": {"o": "dont"},
                          "b": {"o": "if", "c": c.n, "a": dob(T_, a.n), "b": dob(c2.n, b.n)}}},
                         "%s-:=1; if %s<0 then dont else if %s then do %s else %s do %s fi fi" % (w, w, c.t, a.t, c2.t, b.t))
            if form == 4:
                a, b = bodyf(d - 2), bodyf(d - 2)
                c2 = self.expr("b", d - 2)
                return E({"o": "seq", "a": dec, "b": {"o": "if", "c": neg, "a": {"o": "dont"},
                          "b": {"o": "case", "c": wv, "lo": [], "hi": [], "bs": [dob(T_, a.n), dob(c2.n, b.n)]}}},
                         "%s-:=1; if %s<0 then dont else case %s in do %s, %s do %s esac fi" % (w, w, w, a.t, c2.t, b.t))
            q = self.stmt(d - 2)
            b = bodyf(d - 1)
            return E({"o": "seq", "a": dec, "b": {"o": "seq", "a": q.n, "b": dob({"o": "op", "f": ">=", "as": [wv, I(0)]}, b.n)}},
                     "%s-:=1; %s; %s>=0 do %s" % (w, q.t, w, b.t))
        b = self.in_loop([], mk)
        return E({"o": "let", "ps": [{"o": "id", "n": w, "c": False}], "es": [I(k)], "b": {"o": "while", "body": b.n, "rr": rr}},
                 "(let %s=%d in while %s %sod)" % (w, k, b.t, "~" if rr else ""))

    # ---- statements (value ignored)
    def stmt(self, d):
        self.cost += self.mult
        r = self.r
        ws = [(3, self.s_ass), (4, self.s_comp), (2, self.s_prints), (1.5, self.s_if), (2.5, self.s_loop), (1, self.s_opass), (1, self.s_mass), (1.2, self.s_field), (1.2, self.s_expr)]
        if d <= 0 or self.cost > self.maxcost:
            ws = [(1, self.s_prints)]
        for _ in range(4):
            q = self.pick(*ws)(d)
            if q is not None:
                return q
        return self.s_prints(d)

    def s_expr(self, d):
        t = self.rtype(1)
        while t == "b":     # a voided equality test is refused statically
            t = self.rtype(1)
        return self.expr(t, d - 1)

    def s_prints(self, d):
        r = self.r
        es = [self.literal("s")]
        for _ in range(r.choice([1, 1, 2])):
            t = r.choice(["i", "s", "b", ("row", "i"), "v2"])
            es.append(self.expr(t, min(d - 1, 1)))
        return E({"o": "prints", "es": [e.n for e in es]}, "prints(%s)" % ",".join(e.t for e in es))

    def s_ass(self, d):
        vs = self.assignable(lambda v: v["t"] != "hidden")
        if not vs:
            return None
        v = self.r.choice(vs)
        if is_t(v["t"], "fun") and self.r.random() < 0.6:
            return None
        return self.g_ass_to(v, d)

    def g_ass_to(self, v, d):
        e = self.sexpr(v["t"], d - 1)
        n = e.n
        if n["o"] == "op" and any(a["o"] == "var" and a["n"] == v["n"] for a in n["as"]) and any(impure(a) for a in n["as"]):
            return None
        return E({"o": "ass", "n": v["n"], "e": n}, "%s:=%s" % (v["n"], e.t), e.b)

    def s_opass(self, d):
        r = self.r
        vs = self.assignable(lambda v: v["t"] in ("i", "v2", "v3"))
        if not vs:
            return None
        v = r.choice(vs)
        e = self.literal(v["t"]) if r.random() < 0.5 else self.leaf(v["t"])
        f = r.choice(["+", "-"]) if r.random() < 0.7 or v["t"] != "i" else "%"
        if f == "%":
            e = ilit(r.choice([5, 7, 11]))
        fn = f if v["t"] == "i" else "v" + f
        a = E({"o": "ass", "n": v["n"], "e": {"o": "op", "f": fn, "as": [{"o": "var", "n": v["n"]}, e.n]}}, "%s%s:=%s" % (v["n"], f, e.t))
        if f == "%":
            return a
        # bring back into bounds
        k = r.choice([50, 97, 101])
        fm = "%" if v["t"] == "i" else "v%i"
        b = E({"o": "ass", "n": v["n"], "e": {"o": "op", "f": fm, "as": [{"o": "var", "n": v["n"]}, I(k)]}}, "%s%%:=%d" % (v["n"], k))
        return E({"o": "seq", "a": a.n, "b": b.n}, "(%s; %s)" % (a.t, b.t))

    def s_mass(self, d):
        r = self.r
        vs = self.assignable(lambda v: not is_t(v["t"], "fun") and v["t"] != "hidden")
        if len(vs) < 2:
            return None
        vs = r.sample(vs, 2)
        T = ("tup", tuple(v["t"] for v in vs))
        if r.random() < 0.5:
            es = [self.leaf(t) for t in T[1]]
            e = E({"o": "tup", "es": [x.n for x in es]}, "(%s)" % ",".join(x.t for x in es))
        else:
            e = self.expr(T, d - 1)
        return E({"o": "mass", "ns": [v["n"] for v in vs], "e": e.n}, "set (%s):=%s" % (",".join(v["n"] for v in vs), e.t))

    def eff(self, v, ix, it):
        """an index or value expression with an assignment from or to the same aggregate before it"""
        r = self.r
        if r.random() > 0.25:
            return ix, it
        ws = self.assignable(lambda w: w["t"] == v["t"] and w["n"] != v["n"])
        if ws:
            w = r.choice(ws)
            a, b = (w, v) if r.random() < 0.7 else (v, w)
            if a is v and is_t(v["t"], "row") and self.safe:
                a, b = w, v
            return {"o": "seq", "a": {"o": "ass", "n": a["n"], "e": {"o": "var", "n": b["n"]}}, "b": ix}, "(%s:=%s;%s)" % (a["n"], b["n"], it)
        return ix, it

    def s_comp(self, d):
        r = self.r
        vs = self.assignable(lambda v: is_t(v["t"], "row") or is_t(v["t"], "m") or v["t"] in ("v2", "v3"))
        if not vs:
            return None
        v = r.choice(vs)
        T = v["t"]
        rev = r.random() < 0.3
        br = "~[" if rev else "["
        n = v["n"]
        bad = self.errors and not self.safe and r.random() < 0.04
        if is_t(T, "m"):
            if r.random() < 0.5:
                e = self.sexpr("i", d - 1)
                i = r.randrange(T[1])
                j = T[2] if bad else r.randrange(T[2])
                ix, it = self.eff(v, I(i), str(i))
                return E({"o": "cass2", "n": n, "i": ix, "j": I(j), "r": rev, "f": "", "e": e.n}, "%s%s%s,%d]:=%s" % (n, br, it, j, e.t), e.b)
            e = self.sexpr("v%d" % T[1], d - 1)
            j = T[2] if bad else r.randrange(T[2])
            ix, it = self.eff(v, I(j), str(j))
            en, et = self.eff(v, e.n, e.t)
            return E({"o": "cass", "n": n, "i": ix, "r": rev, "f": "", "e": en}, "%s%s%s]:=%s" % (n, br, it, et), e.b)
        if T in ("v2", "v3"):
            k = int(T[1])
            e = self.sexpr("i", d - 1)
            i = self.sexpr("i", d - 2)
            ix, it = ({"o": "op", "f": "%", "as": [i.n, I(k)]}, "%s%%%d" % (i.t, k)) if not bad else (I(k), str(k))
            ix, it = self.eff(v, ix, it)
            if r.random() < 0.2:
                return E({"o": "cass", "n": n, "i": ix, "r": rev, "f": "%", "e": I(r.choice([3, 7]))}, "", 0) if False else \
                    self.upd(n, ix, it, rev, br, "%", ilit(r.choice([3, 7])))
            return E({"o": "cass", "n": n, "i": ix, "r": rev, "f": "", "e": e.n}, "%s%s%s]:=%s" % (n, br, it, e.t), e.b)
        # rows: guard by length
        t = T[1]
        e = self.sexpr(t, d - 1)
        i = r.choice([0, 0, 1, 2])
        nv = {"o": "var", "n": n}
        ix, it = self.eff(v, I(i), str(i))
        en, et = self.eff(v, e.n, e.t)
        if t == "i" and r.random() < 0.25:
            core = self.upd(n, ix, it, rev, br, r.choice(["%", "\\"]), ilit(r.choice([2, 3, 5])))
        else:
            core = E({"o": "cass", "n": n, "i": ix, "r": rev, "f": "", "e": en}, "%s%s%s]:=%s" % (n, br, it, et))
        if bad:
            return core
        return E({"o": "if", "c": {"o": "op", "f": ">", "as": [{"o": "op", "f": "#r", "as": [nv]}, I(i)]}, "a": {"o": "void", "a": core.n}, "b": VOIDE},
                 "if #%s>%d then %s fi" % (n, i, core.t))

    def upd(self, n, ix, it, rev, br, f, e):
        return E({"o": "cass", "n": n, "i": ix, "r": rev, "f": f, "e": e.n}, "%s%s%s]%s:=%s" % (n, br, it, f, e.t), STORE)

    def s_field(self, d):
        r = self.r
        vs = self.assignable(lambda v: v["t"] == "p")
        if not vs:
            return None
        v = r.choice(vs)
        i = r.randrange(3)
        if i == 0 and r.random() < 0.4:
            k = r.choice([3, 7, 10])
            return E({"o": "fass", "n": v["n"], "i": 1, "f": "%", "e": I(k)}, "%s.px%%:=%d" % (v["n"], k), STORE)
        e = self.sexpr(PT[i][1], d - 1)
        return E({"o": "fass", "n": v["n"], "i": i + 1, "f": "", "e": e.n}, "%s.%s:=%s" % (v["n"], PT[i][0], e.t), e.b)

    def s_if(self, d):
        c, s = self.expr("b", d - 1), self.stmt(d - 1)
        if self.loops and self.r.random() < 0.3:
            n = min(self.r.choice([0, 0, 1]), self.loops - 1)
            s = E({"o": "brk", "n": n}, " ".join(["break"] * (n + 1)))
        elif self.fun is not None and self.r.random() < 0.2:
            v = self.sexpr(self.fun, d - 2)
            s = E({"o": "ret", "e": v.n}, "return %s" % v.t)
        if self.r.random() < 0.5:
            return E({"o": "if", "c": c.n, "a": {"o": "void", "a": s.n}, "b": VOIDE}, "if %s then %s fi" % (c.t, s.t))
        s2 = self.stmt(d - 1)
        return E({"o": "if", "c": c.n, "a": {"o": "void", "a": s.n}, "b": {"o": "void", "a": s2.n}},
                 "if %s then (%s;()) else (%s;()) fi" % (c.t, s.t, s2.t))

    def s_loop(self, d):
        if self.mult > 100:
            return None

        def body(dd):
            return self.stmt(dd)
        return self.loop(None, d, body)
