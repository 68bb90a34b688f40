"""L06: exact integers and rationals - register machine programs run in atlas, validated by ArithTrace.tla"""
import re
from fractions import Fraction
import vlib

LEVEL = "model_checking"
NI, NR = 6, 4


def limbs(n):
    m, d = abs(n), []
    while m:
        d.append(m % 1000)
        m //= 1000
    return {"s": (n > 0) - (n < 0), "d": d}


def rat(a, b):
    return {"n": limbs(a), "q": limbs(b)}


def rint(rng, big=True):
    k = rng.random()
    if k < 0.25:
        return rng.randint(-3, 3)
    if k < 0.4:
        return rng.randint(-1000, 1000)
    if k < 0.75 or not big:
        e = rng.choice([15, 16, 30, 31, 32, 33, 48, 62, 63, 64, 65, 95, 96, 97, 127, 128, 160, 192])
        if not big:
            e = rng.choice([15, 16, 31, 32, 33, 63, 64])
        v = rng.choice([1, 1, 3, 5]) * 2 ** e + rng.randint(-2, 2)
        if rng.random() < 0.2:
            v -= 2 ** rng.randint(0, e)
    elif k < 0.85:
        # words chosen from extreme values, to stress carries and quotient estimates
        v = 0
        for _ in range(rng.randint(1, 6)):
            v = (v << 32) | rng.choice([0, 1, 2 ** 31, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32 - 2, rng.getrandbits(32)])
    else:
        v = rng.getrandbits(rng.randint(1, 220))
    return v if rng.random() < 0.5 else -v


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def leaf(self, t):
        r = self.rng
        if t == "i":
            if r.random() < 0.6:
                return {"o": "i", "k": r.randint(1, NI)}
            v = r.choice([-1, 0, 1, 1, 2]) if r.random() < 0.4 else rint(r)
            return {"o": "lit", "v": v}
        if r.random() < 0.8:
            return {"o": "r", "k": r.randint(1, NR)}
        f = Fraction(rint(r, False), r.choice([1, 2, 3, 7, 2 ** 32, 2 ** 31 - 1, 10 ** 6]))
        return {"o": "rlit", "v": f}

    def expr(self, t, depth):
        r = self.rng
        if t in "ir" and (depth == 0 or r.random() < 0.12):
            return self.leaf(t)
        e = lambda tt: self.expr(tt, max(0, depth - 1))
        if t == "i":
            k = r.random()
            if k < 0.58:
                f = r.choice(["+", "-", "*", "\\", "%", "+", "-", "*", "\\", "%", "AND", "OR", "XOR", "AND_NOT"])
                return {"o": "bin", "f": f, "a": e("i"), "b": e("i")}
            if k < 0.68:
                f = r.choice(["neg", "compl", "succ", "pred", "bit_length"])
                return {"o": "un", "f": f, "a": e("i")}
            if k < 0.75:
                return {"o": "bin", "f": "^", "a": self.leaf("i"),
                        "b": {"o": "lit", "v": r.choice([-1, 0, 1, 2, 3, 4, 5])}}
            if k < 0.78:
                return {"o": "bin", "f": "^", "a": {"o": "lit", "v": r.choice([0, 1, -1])},
                        "b": {"o": "lit", "v": rint(r)}}
            if k < 0.83:
                return {"o": "bin", "f": "nth_set_bit", "a": self.leaf("i"), "b": {"o": "lit", "v": r.choice([0, 1, 2, 5, 17, 31, 32, 40, 64, 100, -1, -2, -5, -33])}}
            if k < 0.86:
                v = [r.choice([0, 1, 2, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 97]) for _ in range(r.randint(0, 5))]
                return {"o": "bitset", "v": v}
            if k < 0.93:
                return {"o": "un", "f": r.choice(["floor", "ceil"]), "a": e("r")}
            return {"o": "bin", "f": "\\", "a": e("r"), "b": e("i")}
        if t == "r":
            k = r.random()
            if k < 0.5:
                x, y = r.choice([("r", "r"), ("r", "i"), ("i", "r"), ("r", "r")])
                f = r.choice(["+", "-", "*", "/", "%", "+", "-"])
                return {"o": "bin", "f": f, "a": e(x), "b": e(y)}
            if k < 0.7:
                return {"o": "bin", "f": "/", "a": e("i"), "b": e("i")}
            if k < 0.85:
                f = r.choice(["neg", "inv", "frac"])
                return {"o": "un", "f": f, "a": e("r")}
            if k < 0.9:
                return {"o": "un", "f": "inv", "a": e("i")}
            if k < 0.97:
                return {"o": "bin", "f": "^", "a": self.leaf("r"),
                        "b": {"o": "lit", "v": r.choice([-3, -2, -1, 0, 1, 2, 3])}}
            return {"o": "bin", "f": "^", "a": {"o": "rlit", "v": Fraction(r.choice([0, 1, -1]), 1)}, "b": {"o": "lit", "v": rint(r)}}
        if t == "b":
            f = r.choice(["=", "!=", "<", "<=", ">", ">="])
            k = r.random()
            if k < 0.4:
                return {"o": "bin", "f": f, "a": e("i"), "b": e("i")}
            if k < 0.8:
                x, y = r.choice([("r", "r"), ("r", "i"), ("i", "r")])
                return {"o": "bin", "f": f, "a": e(x), "b": e(y)}
            return {"o": "bin", "f": "bitwise_subset", "a": e("i"), "b": e("i")}
        if t == "ii":
            if r.random() < 0.6:
                return {"o": "bin", "f": "\\%", "a": e("i"), "b": e("i")}
            return {"o": "un", "f": "unfrac", "a": e("r")}


def est(e, ib, rb):
    """upper bound for the bit lengths of a result: keeps programs bounded"""
    o = e["o"]
    if o == "i":
        return (ib[e["k"] - 1], 1)
    if o == "r":
        return rb[e["k"] - 1]
    if o == "lit":
        return (e["v"].bit_length() + 1, 1)
    if o == "rlit":
        return (e["v"].numerator.bit_length() + 1, e["v"].denominator.bit_length())
    if o == "bitset":
        return (100, 1)
    if o == "un":
        n, q = est(e["a"], ib, rb)
        return (q + 1, n) if e["f"] == "inv" else (n + 1, q)
    (a, p), (b, q) = est(e["a"], ib, rb), est(e["b"], ib, rb)
    f = e["f"]
    if f == "*":
        return (a + b, p + q)
    if f == "^":
        k = abs(e["b"]["v"]) if abs(e["b"]["v"]) < 10 else 1
        return (max(a, p) * max(k, 1), max(a if p > 1 else 1, p) * max(k, 1))
    if f == "/":
        return (a + q, p + b)
    if f in ("+", "-", "%"):
        return (max(a + q, b + p) + 1, p + q)
    return (max(a + q, b + p) + 1, 1)


def ilit(v):
    return str(v) if v >= 0 else "(-%d)" % -v


UN = {"neg": "(-%s)", "compl": "(~%s)", "inv": "(/%s)", "succ": "succ(%s)", "pred": "pred(%s)",
      "bit_length": "bit_length(%s)", "floor": "floor(%s)", "ceil": "ceil(%s)", "frac": "frac(%s)",
      "unfrac": "(%%%s)"}


def text(e):
    o = e["o"]
    if o == "i":
        return "x%d" % e["k"]
    if o == "r":
        return "q%d" % e["k"]
    if o == "lit":
        return ilit(e["v"])
    if o == "rlit":
        return "(%s/%d)" % (ilit(e["v"].numerator), e["v"].denominator)
    if o == "bitset":
        return "to_bitset([int]:%s)" % e["v"]
    if o == "un":
        return UN[e["f"]] % text(e["a"])
    if e["f"] in ("bitwise_subset", "nth_set_bit", "AND", "OR", "XOR", "AND_NOT"):
        return "%s(%s,%s)" % (e["f"], text(e["a"]), text(e["b"]))
    return "(%s %s %s)" % (text(e["a"]), e["f"], text(e["b"]))


def enc(e):
    r = {}
    for k, v in e.items():
        if k in ("a", "b"):
            r[k] = enc(v)
        elif k == "v":
            if isinstance(v, Fraction):
                r[k] = rat(v.numerator, v.denominator)
            elif isinstance(v, list):
                b = [0] * (max(v) + 1 if v else 0)
                for i in v:
                    b[i] = 1
                r[k] = b
            else:
                r[k] = limbs(v)
        else:
            r[k] = v
    return r


def bounds(e, ib, rb):
    """sizes relative to the allowed maximum, over all subexpressions"""
    n, q = est(e, ib, rb)
    r = [n / 700] if q == 1 else [(n + q) / 300]
    for c in ("a", "b"):
        if c in e:
            r += bounds(e[c], ib, rb)
    return r


def dest(rng, e, n, o):
    """A destination register.  When the outermost operation can fail it is
    not one of its direct operands: see the known finding under L03 about
    variables lost by a failing assignment x := x op y."""
    bad = set()
    if e["o"] in ("bin", "un") and e["f"] in ("\\", "%", "/", "inv", "\\%"):
        bad = {e[c]["k"] for c in ("a", "b") if c in e and e[c]["o"] == o}
    return rng.choice([k for k in range(1, n + 1) if k not in bad])


def parse_val(s):
    s = s.strip()
    if s in ("true", "false"):
        return {"t": "b", "v": int(s == "true")}
    m = re.fullmatch(r"(-?\d+)/(\d+)", s)
    if m:
        return {"t": "r", "v": rat(int(m.group(1)), int(m.group(2)))}
    if re.fullmatch(r"-?\d+", s):
        return {"t": "i", "v": limbs(int(s))}
    raise ValueError(s)


def run(ctx):
    d = vlib.build(["atlas"])
    rng = ctx.rng
    np, nc = (60, 40) if ctx.quick else (400, 60)
    progs, script = [], []
    for p in range(np):
        g = Gen(rng)
        xs = [rint(rng) for _ in range(NI)]
        qs = [Fraction(rint(rng, False), rng.choice([1, 2, 3, 12, 2 ** 16, 2 ** 32, 10 ** 9 + 7])) for _ in range(NR)]
        script.append("set (x1,x2,x3,x4,x5,x6)=(" + ",".join(map(ilit, xs)) + ")")
        script.append("set (q1,q2,q3,q4)=(" + ",".join("%s/%d" % (ilit(q.numerator), q.denominator) for q in qs) + ")")
        cmds = []
        ib = [x.bit_length() + 1 for x in xs]
        rb = [(q.numerator.bit_length() + 1, q.denominator.bit_length()) for q in qs]
        for c in range(nc):
            t = rng.choice(["i", "i", "i", "r", "r", "b", "ii"])
            # every few steps, reset a register so that sizes stay bounded
            e = {"o": "lit", "v": rint(rng)} if c % 4 == 3 and t == "i" else g.expr(t, rng.choice([1, 1, 2, 2, 3]))
            if c % 5 == 4 and t == "r":
                e = {"o": "bin", "f": "/", "a": {"o": "lit", "v": rint(rng, False)}, "b": {"o": "lit", "v": rint(rng, False) or 1}}
            while max(bounds(e, ib, rb)) > 1.0:
                e = g.expr(t, rng.choice([1, 1, 2]))
            tag = "@%d.%d" % (p, c)
            if t == "i":
                if rng.random() < 0.15:
                    # compound assignment
                    k = rng.randint(1, NI)
                    f = rng.choice(["+", "-", "*"])
                    b = g.leaf("i")
                    while ib[k - 1] + est(b, ib, rb)[0] > 700:
                        b, f = g.leaf("i"), "+"
                    e = {"o": "bin", "f": f, "a": {"o": "i", "k": k}, "b": b}
                    ds = [{"t": "i", "k": k}]
                    cmd = "x%d %s:= %s" % (k, f, text(b))
                else:
                    k = dest(rng, e, NI, "i")
                    ds = [{"t": "i", "k": k}]
                    cmd = "x%d := %s" % (k, text(e))
            elif t == "r":
                k = dest(rng, e, NR, "r")
                ds = [{"t": "r", "k": k}]
                cmd = "q%d := %s" % (k, text(e))
            elif t == "b":
                ds = [{"t": "b", "k": 1}]
                cmd = text(e)
            else:
                j, k = rng.sample(range(1, NI + 1), 2)
                ds = [{"t": "i", "k": j}, {"t": "i", "k": k}]
                cmd = "let (a,b)=%s in (x%d:=a, x%d:=b)" % (text(e), j, k)
            if t == "i":
                ib[k - 1] = est(e, ib, rb)[0]
            elif t == "r":
                rb[k - 1] = est(e, ib, rb)
            elif t == "ii":
                m = est(e, ib, rb)
                ib[j - 1] = ib[k - 1] = max(m)
            if t == "ii":
                script.append('prints("%s=", let (a,b)=%s in begin x%d:=a; x%d:=b; to_string(a)##","##to_string(b) end)' % (tag, text(e), j, k))
            elif rng.random() < 0.3:
                # the same inside a function body (no global constant folding context changes)
                script.append('prints("%s=", (@: %s)())' % (tag, cmd))
            else:
                script.append('prints("%s=", %s)' % (tag, cmd))
            script.append('prints("%s!",x1," ",x2," ",x3," ",x4," ",x5," ",x6," ",q1," ",q2," ",q3," ",q4)' % tag)
            cmds.append({"ds": ds, "e": enc(e), "cmd": script[-2]})
        progs.append({"ints": [limbs(x) for x in xs], "rats": [rat(q.numerator, q.denominator) for q in qs], "cmds": cmds})
    text_in = "\n".join(script) + "\n"
    r = vlib.atlas(d, text_in, timeout=200)
    vlib.require_alive(r, "integer/rational programs", text_in)
    res, regs = {}, {}
    for line in r.out.splitlines():
        m = re.match(r"@(\d+)\.(\d+)([=!])(.*)", line)
        if m:
            (res if m.group(3) == "=" else regs)[(int(m.group(1)), int(m.group(2)))] = m.group(4)
    nerr = 0
    for p, pr in enumerate(progs):
        for c, cm in enumerate(pr["cmds"]):
            try:
                rg = [parse_val(s) for s in regs[(p, c)].split()]
                cm["ints"] = [v["v"] for v in rg[:NI]]
                cm["rats"] = [v["v"] for v in rg[NI:]]
                cm["err"] = (p, c) not in res
                nerr += cm["err"]
                cm["res"] = [] if cm["err"] else [parse_val(s) for s in res[(p, c)].split(",")]
            except (KeyError, ValueError) as ex:
                raise vlib.Rejected("no well-formed observation for command %d of program %d: %s" % (c, p, cm["cmd"]),
                                    detail=str(ex), files={"input.at": text_in})
    cfg = "SPECIFICATION Spec\nINVARIANT Conforms\nINVARIANT RatsReduced\n"
    t = vlib.tlc("ArithTrace", cfg, {"progs": progs}, timeout=700)
    if t.rejected:
        m = re.findall(r"/\\ p = (\d+)", t.out), re.findall(r"/\\ pc = (\d+)", t.out)
        what = "arithmetic result differs from the specification"
        if m[0] and m[1]:
            cm = progs[int(m[0][-1]) - 1]["cmds"][int(m[1][-1]) - 2]
            what += ": " + cm["cmd"]
        raise vlib.Rejected(what, detail=t.out[t.out.find("Error:"):][:5000], files={"input.at": text_in})
    if not t.ok:
        raise vlib.Infra("TLC rc %d\n%s" % (t.rc, t.out[max(0,t.out.find("Error:")):][:1500]))
    ctx.tlc_stats(t, "ArithTrace")
    ctx.count("traces_validated_against_impl", np)
    ctx.count("commands", np * nc)
    ctx.count("error_commands", nerr)
    for i in range(4):
        ctx.sample(progs[i]["cmds"][i]["cmd"])
