"""L08: linear algebra over the integers and over the field of two elements (harness/linalg.cpp and axis
functions give records of questions and answers, LinAlgTrace.tla judges them)"""
import json
import os
import random
import axval
import vlib
LEVEL = "model_checking"
CFG = "SPECIFICATION Spec\nINVARIANT Holds\n"


def harness(d):
    objs = vlib.lib_objects(d, ("utilities", "error")) + [
        x for x in vlib.lib_objects(d, ("structure",)) if os.path.basename(x) in ("bitvector.o", "subquotient.o", "lattice.o")]
    return vlib.build_harness(d, "linalg.cpp", "linalg", objs=objs)


def matrix(rng, m, n):
    top = rng.choice([1, 2, 3, 4, 9])
    den = rng.random()
    rows = [[rng.randint(-top, top) if rng.random() < den else 0 for _ in range(n)] for _ in range(m)]
    if m > 1 and rng.random() < .3:
        i, k, c = rng.randrange(m), rng.randrange(m), rng.randint(-2, 2)
        rows[i] = [c * x for x in rows[k]]
    if m == n > 0 and rng.random() < .25:      # products of elementary matrices are invertible
        rows = [[int(i == j) for j in range(n)] for i in range(m)]
        for _ in range(8):
            i, k = rng.randrange(m), rng.randrange(m)
            if i != k:
                c = rng.randint(-1, 1)
                rows[i] = [x + c * y for x, y in zip(rows[i], rows[k])]
    return rows


def lit(rows, n):
    if not rows or not n:
        return "null(%d,%d)" % (len(rows), n)
    return "^(mat:[%s])" % ",".join("[%s]" % ",".join(map(str, r)) for r in rows)


def vec(v):
    return "(vec:[%s])" % ",".join(map(str, v))


def mx(v):
    return {"r": v[0], "c": v[1]}


def axis_records(ctx, rng, count):
    s = axval.Script()
    s.do("set_type affine = ( void empty_set | (vec,int,mat) solution )")
    jobs = []
    for k in range(count):
        m, n = (rng.randint(1, 4), rng.randint(1, 4)) if rng.random() < .9 else (rng.randint(0, 5), rng.randint(0, 5))
        op = rng.choice(["bezout", "echelon", "affine", "affine", "diag", "adapted", "kernel", "eigen", "saturate", "smith", "inverse", "isection", "normal", "normal"])
        if op in ("eigen", "inverse"):
            n = m
        if op in ("isection", "normal") and rng.random() < .3:
            m, n = rng.randint(5, 40), rng.randint(1, 9)
            if op == "isection" and m > 32 and rng.random() < .5:
                m, n = n, m
        A = matrix(rng, m, n)
        rec = {"op": op, "A": {"r": m, "c": [[A[i][j] for i in range(m)] for j in range(n)]}}
        a = lit(A, n)
        if op == "bezout":
            v = [rng.randint(-30, 30) if rng.random() < .7 else 0 for _ in range(rng.randint(0, 6))]
            rec = {"op": op, "v": v, "dest": 0, "s": 0}
            e = "(let v=%s then (d,C)=Bezout(v) in (gcd(v),d,MX(C)))" % vec(v)
        elif op == "echelon":
            e = "(let (E,C,p,s)=echelon(%s) in (MX(E),MX(C),p,s))" % a
        elif op == "affine":
            x = [rng.randint(-3, 3) for _ in range(n)]
            b = [sum(A[i][j] * x[j] for j in range(n)) for i in range(m)] if rng.random() < .6 else [rng.randint(-6, 6) for _ in range(m)]
            c = rng.choice([1, 1, 2, 3])
            if all(y % c == 0 for y in b):
                b = [y // c for y in b]
            rec["b"] = b
            e = "(case linear_solve(%s,%s) | empty_set: (0,null(0),MX(null(0,0))) | solution(v,f,K): (f,v,MX(K)) esac)" % (a, vec(b))
        elif op == "diag":
            e = "(let (d,R,C)=diagonalize(%s) in (d,MX(R),MX(C)))" % a
        elif op in ("adapted", "smith"):
            e = "(let (B,d)=%s(%s) in (MX(B),d))" % ("Smith" if op == "smith" else "adapted_basis", a)
        elif op == "kernel":
            e = "MX(kernel(%s))" % a
        elif op == "eigen":
            rec["l"] = rng.randint(-2, 2)
            e = "MX(eigen_lattice(%s,%d))" % (a, rec["l"])
        elif op == "saturate":
            e = "MX(row_saturate(%s))" % a
        elif op == "inverse":
            e = "(let (B,f)=invert(%s) in (MX(B),f))" % a
        elif op == "isection":
            e = "MX(mod2_section(%s))" % a
        else:
            e = "(let (B,C,R,p)=subspace_normal(%s) in (MX(B),MX(C),MX(R),p))" % a
        if op == "isection":
            s.raw("r%d" % k, "prints(\"\",(\"\",%s))" % e)
        else:
            s.q("r%d" % k, e)
        jobs.append(rec)
    res = s.run(ctx, "linear algebra in axis")
    out = []
    for k, rec in enumerate(jobs):
        v, op = res["r%d" % k], rec["op"]
        if op == "bezout":
            if v[0] != v[1]:
                raise vlib.Rejected("gcd and Bezout differ: %s %s" % (rec, v))
            rec.update(d=v[1], C=mx(v[2]))
        elif op == "echelon":
            rec.update(E=mx(v[0]), C=mx(v[1]), piv=v[2], s=v[3])
        elif op == "affine":
            rec.update(f=v[0], x=v[1], K=mx(v[2]))
        elif op == "diag":
            rec.update(d=v[0], R=mx(v[1]), C=mx(v[2]))
        elif op in ("adapted", "smith"):
            rec.update(B=mx(v[0]), d=v[1])
        elif op in ("kernel", "eigen"):
            rec["K"] = mx(v)
        elif op == "saturate":
            rec["S"] = mx(v)
        elif op == "inverse":
            rec.update(B=mx(v[0]), f=v[1])
        elif op == "isection":
            rec["refused"] = int(v == "")     # the error message goes to another stream
            rec["B"] = mx(axval.parse(v)[1]) if v else {"r": 0, "c": []}
        else:
            rec.update(B=mx(v[0]), C=mx(v[1]), R=mx(v[2]), piv=v[3])
        out.append(rec)
    return out


def run(ctx):
    d = vlib.build()
    exe = harness(d)
    runs, axis, rounds = (9000, 1500, 1) if ctx.tier == "quick" else (60000, 8000, 3)
    rng = random.Random(ctx.seed * 7919 + 8)
    for rnd in range(rounds):
        r = vlib.run_prog([exe, str(ctx.seed * 100 + rnd), str(runs)], timeout=300)
        if r.timed_out or r.rc != 0:
            raise vlib.Rejected("linear algebra functions fail: %s" % ("no end" if r.timed_out else "exit status %s" % r.rc),
                                detail=(r.out[-600:] + "\n" + r.err[-1500:]))
        data = [json.loads(l) for l in r.out.splitlines()] + axis_records(ctx, rng, axis)
        ctx.count("records", len(data))
        for rec in data[:: max(1, len(data) // 6)]:
            ctx.sample(json.dumps(rec))
        t = vlib.tlc_check("linear algebra", "LinAlgTrace", CFG, data={"data": data}, timeout=800)
        ctx.tlc_stats(t, "LinAlgTrace.tla")
