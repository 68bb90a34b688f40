"""Run generated axis sessions in the interpreter and validate them with AxisTrace."""
import re
import vlib
from axisgen import Gen, tname, is_t, E, I, impure

PRO = ["set_type [un0 = (int ui | string us | [int] ur)]", "set_type [pt0 = (int px, vec pv, [int] pr)]"]


def show(t, x):
    if is_t(t, "m"):
        return "for c_ in %s do c_ od" % x
    return x


SEQ = [0]


def session(rng, nfun, ncmd, loops, depth):
    """Returns (list of commands); command = dict(text, e, d, gl, fun)"""
    g = Gen(rng, loops=loops)
    cmds, gl = [], []
    SEQ[0] += 1     # overloads of different sessions must not interfere
    gtypes = ["i", "i", "b", "s", "v2", "v3", ("m", 2, 2), ("m", 2, 3), "u", "p", ("row", "i"), ("row", "v2"), ("row", ("tup", ("i", "s"))),
              ("tup", ("i", ("row", "i"))), ("row", ("row", "i")), ("tup", ("v2", "p"))]
    g.safe = True
    k = 0
    for t in rng.sample(gtypes, 9) + [("row", "i"), "i", "v2"]:
        n = "g%d" % k
        k += 1
        g.cost = 0
        e = g.sexpr(t, 2)
        cmds.append({"kind": "def", "text": "set %s = %s" % (n, e.t if t != "p" else e.t), "e": e.n, "d": [{"o": "id", "n": n, "c": False}], "fun": True})
        g.scope.append({"n": n, "t": t, "c": False})
        gl.append((n, t))
        cmds[-1]["gl"] = list(gl)
    for j in range(nfun):
        ft = g.ftype()
        n = "f%d_%d" % (j, SEQ[0])
        g.cost = 0
        e = g.lam(ft, depth - 1)
        cmds.append({"kind": "def", "text": "set %s = %s" % (n, e.t), "e": e.n, "d": [{"o": "id", "n": n, "c": True}], "fun": True, "gl": list(gl)})
        g.scope.append({"n": n, "t": ft, "c": True, "cost": max(10, g.cost)})
        # a variable holding a closure
    fv = ("fun", ("i",), "i")
    g.cost = 0
    e = g.lam(fv, depth - 1)
    cmds.append({"kind": "def", "text": "set fv = [%s]" % e.t, "e": {"o": "row", "es": [e.n]}, "d": [{"o": "id", "n": "fv", "c": False}], "fun": True, "gl": list(gl)})
    g.scope.append({"n": "fv", "t": ("row", fv), "c": False})
    g.safe = False
    for j in range(ncmd):
        t = g.rtype(2) if not loops or rng.random() < 0.4 else ("row", g.rtype(1))
        g.cost = 0
        g.mult = 1
        e = g.sexpr(t, depth)
        cmds.append({"kind": "ex", "t": t, "text": e.t, "e": e.n, "d": [], "fun": False, "gl": list(gl)})
    return cmds


KINDS = {
    "row": (["i", {"o": "lit", "v": {"t": "row", "v": [{"t": "i", "v": x} for x in (4, 7, -2)]}}], "[4,7,-2]", ("row", "i")),
    "vec": (["i", {"o": "lit", "v": {"t": "vec", "v": [5, -1, 8, 3]}}], "(vec:[5,-1,8,3])", "v4"),
    "str": (["s", {"o": "lit", "v": {"t": "s", "v": "abc"}}], '"abc"', "s"),
    "mat": (["v2", {"o": "lit", "v": {"t": "mat", "v": [[1, 2], [3, 4], [5, 6]], "n": 2}}], "(mat:[[1,2],[3,4],[5,6]])", ("m", 2, 3)),
    "ratvec": (["q", {"o": "lit", "v": {"t": "rv", "v": [3, -18, 20], "d": 6}}], "(ratvec:[1/2,-3,10/3])", "rv"),
}


def num(v):
    return "(-%d)" % -v if v < 0 else str(v)


def grid():
    """every slice, subscription and loop form of every kind of array, with all bounds and
    break positions: list of sessions"""
    res = []
    for kd, ((et, lit), txt, ty) in KINDS.items():
        n = len(lit["v"]["v"])
        gl = [("arr", ty)]
        d = {"kind": "def", "text": "set arr = %s" % txt, "e": lit, "d": [{"o": "id", "n": "arr", "c": False}], "fun": True, "gl": gl}
        var = {"o": "var", "n": "arr"}
        cmds = []

        def ex(t, text, e):
            cmds.append({"kind": "ex", "t": t, "text": text, "e": e, "d": [], "fun": False, "gl": gl})
        for rev in (False, True):
            for i in range(-1, n + 2):
                ex(et, "arr%s[%s]" % ("~" * rev, num(i)), {"o": "sub", "a": var, "i": I(i), "r": rev})
            for lr in (False, True):
                for hr in (False, True):
                    for lo in range(-1, n + 2):
                        for hi in range(-1, n + 2):
                            ex(ty, "arr%s[%s%s:%s%s]" % ("~" * rev, num(lo), "~" * lr, num(hi), "~" * hr),
                               {"o": "slice", "a": var, "lo": I(lo), "lr": lr, "hi": I(hi), "hr": hr, "r": rev})
        res.append([d] + cmds)
        cmds = []
        x = {"o": "id", "n": "x", "c": True}
        ix = {"o": "id", "n": "i", "c": True}
        vx, vi = {"o": "var", "n": "x"}, {"o": "var", "n": "i"}
        pair = {"o": "tup", "es": [vx, vi]}
        for tr in (False, True):
            for rr in (False, True):
                for br in [None] + list(range(n)):
                    for depth in (0, 1):
                        pr = {"o": "prints", "es": [vx, I(0)] if depth == 0 else [vi]}
                        brk = {"o": "brk", "n": depth}
                        body = pair if br is None else {"o": "if", "c": {"o": "op", "f": "=", "as": [vi, I(br)]}, "a": brk, "b": pair}
                        body = {"o": "seq", "a": pr, "b": body}
                        bt = "(x,i)" if br is None else "if i=%d then break %s else (x,i) fi" % (br, "break" if depth else "")
                        f = {"o": "forin", "a": var, "p": {"o": "tup", "ps": [x, ix], "n": ""}, "tr": tr, "rr": rr, "body": body}
                        t = "for x@i in arr %sdo prints(%s);%s %sod" % ("~" * tr, "x,0" if depth == 0 else "i", bt, "~" * rr)
                        if depth:    # inside another loop
                            for orr in (False, True):
                                g = {"o": "forin", "a": {"o": "row", "es": [I(1), I(2)]}, "p": {"o": "tup", "ps": [{"o": "id", "n": "o", "c": True}, {"o": "skip"}], "n": ""},
                                     "tr": False, "rr": orr, "body": f}
                                ex(None, "for o in [1,2] do %s %sod" % (t, "~" * orr), g)
                        else:
                            ex(None, t, f)
                # without index, and index only
                f = {"o": "forin", "a": var, "p": {"o": "tup", "ps": [x, {"o": "skip"}], "n": ""}, "tr": tr, "rr": rr, "body": vx}
                ex(None, "for x in arr %sdo x %sod" % ("~" * tr, "~" * rr), f)
                f = {"o": "forin", "a": var, "p": {"o": "tup", "ps": [{"o": "skip"}, ix], "n": ""}, "tr": tr, "rr": rr, "body": vi}
                ex(None, "for @i in arr %sdo i %sod" % ("~" * tr, "~" * rr), f)
        res.append([d] + cmds)
    # counted loops
    gl = [("k", "i")]
    cmds = [{"kind": "def", "text": "set k = 0", "e": I(0), "d": [{"o": "id", "n": "k", "c": False}], "fun": True, "gl": gl}]

    def ex2(text, e):
        cmds.append({"kind": "ex", "t": None, "text": text, "e": e, "d": [], "fun": False, "gl": gl})
    ip = {"o": "tup", "ps": [{"o": "id", "n": "i", "c": True}], "n": ""}
    vi, vk = {"o": "var", "n": "i"}, {"o": "var", "n": "k"}
    bump = {"o": "ass", "n": "k", "e": {"o": "op", "f": "+", "as": [vk, I(1)]}}
    for n in (-2, 0, 1, 3):
        for form in ("anon", "plain", "from", "downto"):
            for lo in ((0,) if form in ("anon", "plain") else (-2, 0, 3)):
                for tr in ((False, True) if form != "downto" and form != "anon" else (form == "downto",)):
                    for rr in ((False, True) if form != "downto" else (False,)):
                        for br in (None, 0, 1, 2):
                            val = bump if form == "anon" else {"o": "tup", "es": [bump, vi]}
                            vt = "k:=k+1" if form == "anon" else "(k:=k+1,i)"
                            body, bt = val, vt
                            if br is not None:
                                c = {"o": "op", "f": "=", "as": [{"o": "op", "f": "%", "as": [vk, I(4)]}, I(br)]}
                                body = {"o": "if", "c": c, "a": {"o": "seq", "a": bump, "b": {"o": "brk", "n": 0}}, "b": val}
                                bt = "if k%%4=%d then k:=k+1; break else %s fi" % (br, vt)
                            head = {"anon": "for :%s", "plain": "for i:%s"}.get(form, "for i:%s " + form + " " + num(lo)) % num(n)
                            f = {"o": "cfor", "n": I(n), "lo": I(lo), "p": ip if form != "anon" else {"o": "tup", "ps": [{"o": "skip"}], "n": ""}, "tr": tr, "rr": rr, "body": body}
                            ex2("%s %sdo %s %sod" % (head, "~" * (tr and form != "downto"), bt, "~" * rr), f)
                            if br is None or br == 1:    # voided
                                ex2("(%s %sdo %s %sod; k)" % (head, "~" * (tr and form != "downto"), bt, "~" * rr), {"o": "seq", "a": f, "b": vk})
    res.append(cmds)
    return res


def run_sessions(ctx, sessions, what, timeout=240):
    d = vlib.build(["atlas"])
    script = list(PRO)
    for p, cmds in enumerate(sessions):
        for c, cm in enumerate(cmds):
            script.append('prints("@@%d.%d")' % (p, c))
            if cm["kind"] == "def":
                script.append(cm["text"])
            else:
                script.append('prints("=",("",%s))' % show(cm["t"], cm["text"] if not is_t(cm["t"], "m") else "(" + cm["text"] + ")"))
            script.append('prints("!",%s)' % ",".join('("",%s)' % show(t, n) for n, t in cm["gl"]))
        script.append('prints("@@end")')
        script.append("")
    text = "\n".join(script) + "\n"
    r = vlib.atlas(d, text, timeout=timeout)
    vlib.require_alive(r, what, text)
    obs, cur = {}, None
    for line in r.out.splitlines():
        m = re.match(r"@@(\d+)\.(\d+)$", line)
        if m:
            cur = (int(m.group(1)), int(m.group(2)))
            obs[cur] = ([], None)
        elif line.startswith("@@end"):
            cur = None
        elif cur is not None:
            if line.startswith("!"):
                obs[cur] = (obs[cur][0], line[1:])
                cur = None
            else:
                obs[cur][0].append(line)
    progs = []
    nerr = 0
    for p, cmds in enumerate(sessions):
        cs = []
        for c, cm in enumerate(cmds):
            o = obs.get((p, c))
            lines, gvs = o if o else ([], None)
            if gvs is None:
                lines, gvs = lines + ["<no variables line>"], ""
            if cm["kind"] == "def":
                lines = [l for l in lines if not re.match(r"(Variable|Constant|Defined|Redefined|Added|Overload) ", l)]
            else:
                nerr += not any(l.startswith("=") for l in lines)
            # texts of the form ("",value)
            cs.append({"e": cm["e"], "d": cm["d"], "fun": cm["fun"], "gl": [n for n, _ in cm["gl"]], "obs": "".join(l + "\n" for l in lines), "vars": gvs})
        progs.append({"cmds": cs})
    return text, progs, nerr


def validate(ctx, sessions, what):
    text, progs, nerr = run_sessions(ctx, sessions, what)
    t = vlib.tlc("AxisTrace", "SPECIFICATION Spec\nINVARIANT Conforms\n", {"progs": progs}, timeout=800)
    if t.rejected:
        m = re.findall(r"/\\ p = (\d+)", t.out), re.findall(r"/\\ pc = (\d+)", t.out), re.findall(r'/\\ ok = "(.*)"', t.out)
        w, detail = what, t.out[t.out.find("Error:"):][:3000]
        if m[0] and m[1]:
            p, c = int(m[0][-1]) - 1, int(m[1][-1]) - 2
            if t.rc in (75, 76, 77, 255):
                c += 1
            cm = sessions[p][c]
            detail = "command: %s\nobserved: %s\nvars: %s\nspec: %s\n%s" % (cm["text"], progs[p]["cmds"][c]["obs"], progs[p]["cmds"][c]["vars"], m[2][-1:] , detail[:600])
            w += ": " + cm["text"][:300]
            one = PRO + [x for cc in sessions[p][:c + 1] for x in ([cc["text"]] if cc["kind"] == "def" else ['prints("=",("",%s))' % show(cc["t"], "(" + cc["text"] + ")")])]
            raise vlib.Rejected(w, detail=detail, files={"input.at": "\n".join(one) + "\n"})
        raise vlib.Rejected(w, detail=detail, files={"input.at": text})
    if not t.ok:
        raise vlib.Infra("TLC rc %d\n%s" % (t.rc, t.out[max(0, t.out.find("Error:")):][:2500]))
    ctx.tlc_stats(t, "AxisTrace")
    ctx.count("traces_validated_against_impl", len(sessions))
    ctx.count("commands", sum(len(s) for s in sessions))
    ctx.count("error_commands", nerr)
    for s in sessions[:4]:
        ctx.sample(s[-1]["text"][:400])
