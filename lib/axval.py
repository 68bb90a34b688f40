"""Recording values from the axis interpreter: a script of tagged queries and a
parser of the printed values."""
import re
import vlib

PRELUDE = """
set MX(mat m)=(int,[vec]): let (r,)=shape(m) in (r,for c in m do c od)
"""

_tok = re.compile(r'\s*(?:("(?:[^"]|"")*")|(-?\d+)(?:/(\d+))?|([\[\]\(\),])|(/)(\d+)|([A-Za-z_][\w+\-]*)|(\.)([A-Za-z_]\w*))')


class ParseError(Exception):
    pass


def parse(s):
    """[a,b] -> list, (a,b) -> list, vec -> list of int, ratvec -> {"n":[..],"d":d},
    rational -> {"n":a,"d":b}, strings, booleans"""
    v, i = _p(s, 0)
    if s[i:].strip():
        raise ParseError("trailing text %r" % s[i:i + 60])
    return v


def _p(s, i):
    m = _tok.match(s, i)
    if not m:
        raise ParseError("at %r" % s[i:i + 60])
    j = m.end()
    if m.group(1) is not None:
        return m.group(1)[1:-1].replace('""', '"'), j
    if m.group(2) is not None:
        if m.group(3) is not None:
            return {"n": int(m.group(2)), "d": int(m.group(3))}, j
        return int(m.group(2)), j
    if m.group(7):
        if m.group(7) in ("true", "false"):
            return m.group(7) == "true", j
        return m.group(7), j
    if m.group(4) in ("[", "("):
        close = "]" if m.group(4) == "[" else ")"
        out = []
        k = re.compile(r"\s*").match(s, j).end()
        if s[k] == close:
            k += 1
        else:
            while True:
                v, k = _p(s, k)
                out.append(v)
                k = re.compile(r"\s*").match(s, k).end()
                if s[k] == ",":
                    k += 1
                elif s[k] == close:
                    k += 1
                    break
                else:
                    raise ParseError("expected , or %s at %r" % (close, s[k:k + 60]))
        if close == "]":
            m2 = re.compile(r"/(\d+)").match(s, k)
            if m2:
                return {"n": out, "d": int(m2.group(1))}, m2.end()
        return out, k
    raise ParseError("at %r" % s[i:i + 60])


class Script:
    """collects definitions and tagged queries, runs them, returns tag -> value"""

    def __init__(self, prelude=PRELUDE):
        self.lines = [prelude] if prelude else []
        self.tags = []

    def do(self, line):
        self.lines.append(line)

    def q(self, tag, expr):
        """expr is printed as a value"""
        self.tags.append(tag)
        self.lines.append('prints("@%s ",("",%s))' % (tag, expr))

    def raw(self, tag, command):
        """all lines printed by a command"""
        self.tags.append(tag)
        self.lines.append('prints("@%s<<")\n%s\nprints("@>>")' % (tag, command))

    def text(self):
        return "\n".join(self.lines) + "\n"

    def run(self, ctx, what, timeout=300, allow_missing=False, d=None, mem_gb=6):
        d = d or vlib.build(["atlas"])
        txt = self.text()
        r = vlib.atlas(d, txt, timeout=timeout, mem_gb=mem_gb)
        vlib.require_alive(r, what, txt)
        if not allow_missing and "Error in 'set' command" in r.err:
            i = r.err.index("Error in 'set' command")
            raise vlib.Rejected("%s: a definition fails" % what, detail=r.err[max(0, i - 600):i + 300], files={"input.at": txt})
        res, cur, rawtag = {}, None, None
        for line in r.out.split("\n"):
            if rawtag is not None:
                if line.startswith("@>>"):
                    res[rawtag] = "\n".join(cur)
                    rawtag = None
                else:
                    cur.append(line)
                continue
            m = re.match(r"@(\S+)<<$", line)
            if m:
                rawtag, cur = m.group(1), []
                continue
            m = re.match(r'@(\S+) \("",(.*)\)$', line)
            if m:
                try:
                    res[m.group(1)] = parse(m.group(2))
                except (ParseError, IndexError) as e:
                    raise vlib.Rejected("cannot parse value of %s: %s: %s" % (m.group(1), e, line[:200]))
            elif re.match(r'@\S+ ', line):
                raise vlib.Rejected("odd line %s" % line[:200])
        miss = [t for t in self.tags if t not in res]
        if miss and not allow_missing:
            i = next((k for k, l in enumerate(self.lines) if '"@%s ' % miss[0] in l or '"@%s<<' % miss[0] in l), 0)
            raise vlib.Rejected("%s: query fails: %s" % (what, self.lines[i][:300]),
                                detail=r.err[:1500] + r.out[:0], files={"input.at": txt})
        return res


def same_length(vs):
    return len({len(v) for v in vs}) <= 1
