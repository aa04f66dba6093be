"""A small reader for the Fortran modules: program units, declarations, enums, statements."""
import re

KIND = {"c_int": ("int", 4), "c_long": ("int", 8), "c_long_long": ("int", 8), "c_size_t": ("int", 8), "c_short": ("int", 2), "c_signed_char": ("int", 1),
        "c_int8_t": ("int", 1), "c_int16_t": ("int", 2), "c_int32_t": ("int", 4), "c_int64_t": ("int", 8), "c_intptr_t": ("int", 8),
        "c_double": ("real", 8), "c_float": ("real", 4), "c_char": ("char", 1), "1": (None, 1), "2": (None, 2), "4": (None, 4), "8": (None, 8)}


def strip_comment(l):
    q = None
    for i, c in enumerate(l):
        if q:
            if c == q: q = None
        elif c in "'\"": q = c
        elif c == "!": return l[:i]
    return l


def statements(text):
    """(line number, statement) with continuation lines joined, comments removed"""
    out, cur, start = [], None, 0
    for no, l in enumerate(text.splitlines(), 1):
        if l.startswith("#"): continue
        l = strip_comment(l).rstrip()
        if not l.strip(): continue
        s = l.strip()
        if cur is not None:
            if s.startswith("&"): s = s[1:].lstrip()
            cur += " " + s
        else: cur, start = s, no
        if cur.endswith("&"): cur = cur[:-1].rstrip(); continue
        for part in split_top(cur, ";"):
            if part.strip(): out.append((start, part.strip()))
        cur = None
    return out


def split_top(s, sep):
    out, d, q, cur = [], 0, None, ""
    for c in s:
        if q:
            cur += c
            if c == q: q = None
            continue
        if c in "'\"": q = c
        if c in "([": d += 1
        if c in ")]": d -= 1
        if c == sep and d == 0: out.append(cur); cur = ""
        else: cur += c
    out.append(cur)
    return out


def lower(s):
    """lower case outside string literals"""
    out, q = [], None
    for c in s:
        if q:
            out.append(c)
            if c == q: q = None
        else:
            if c in "'\"": q = c
            out.append(c.lower())
    return "".join(out)


class Unit:
    def __init__(self, kind, name, args, bind, result, line, parent):
        self.kind, self.name, self.args, self.bind, self.result, self.line, self.parent = kind, name, args, bind, result or name, line, parent
        self.decls = {}     # name -> dict(base, kind, value, intent, dim, len, l)
        self.stmts = []     # executable statements (line, text)
        self.in_interface = False


HEAD = re.compile(r"^(?:[\w\s()=*,]*?\s)??(function|subroutine)\s+(\w+)\s*(\((.*?)\))?\s*(.*)$")


def parse_decl(s):
    """declaration statement -> list of (name, info)"""
    if "::" not in s: return None
    left, right = s.split("::", 1)
    parts = [x.strip() for x in split_top(left, ",")]
    m = re.match(r"^(type|class|integer|real|character|logical|double precision)\s*(?:\((.*)\))?$", parts[0])
    if not m: return None
    base, arg = m.group(1), (m.group(2) or "").strip()
    info = {"base": base, "kind": None, "len": None, "value": False, "intent": None, "dim": None, "target": None, "param": False, "optional": False, "alloc": False}
    if base in ("type", "class"): info["kind"] = arg
    else:
        for i, a in enumerate(x.strip() for x in split_top(arg, ",") if x.strip()):
            if a.startswith("kind"): info["kind"] = a.split("=", 1)[1].strip()
            elif a.startswith("len"): info["len"] = a.split("=", 1)[1].strip()
            elif base == "character": info["len"] = a
            else: info["kind"] = a
    for a in parts[1:]:
        if a == "value": info["value"] = True
        elif a.startswith("intent"): info["intent"] = re.sub(r"\s", "", a[6:]).strip("()")
        elif a.startswith("dimension"): info["dim"] = a[9:].strip().strip("()")
        elif a == "parameter": info["param"] = True
        elif a == "optional": info["optional"] = True
        elif a == "allocatable": info["alloc"] = True
    out = []
    for e in split_top(right, ","):
        e = e.strip()
        init = None
        if "=" in e: e, init = [x.strip() for x in e.split("=", 1)]
        m = re.match(r"^(\w+)\s*(?:\((.*)\))?$", e)
        if not m: continue
        d = dict(info)
        if m.group(2): d["dim"] = m.group(2)
        d["init"] = init
        out.append((m.group(1), d))
    return out


class Module:
    """one source file"""

    def __init__(self, path, text):
        self.path = path
        self.units = []
        self.enums = []        # list of {name: (value, line, spelled)}
        self.params = {}       # named integer constants
        self.tbp = {}          # type-bound procedures: name -> (procedure, line)
        stack, iface, enum, typ = [], 0, None, False
        last = -1
        for no, raw in statements(text):
            s = lower(raw)
            if re.match(r"^(abstract\s+)?interface\b", s): iface += 1; continue
            if re.match(r"^end\s*interface\b", s): iface -= 1; continue
            if re.match(r"^enum\s*,", s): enum = {}; last = -1; continue
            if re.match(r"^end\s*enum\b", s): self.enums.append(enum); enum = None; continue
            if enum is not None and s.startswith("enumerator"):
                body = raw[len("enumerator"):].strip()
                if body.startswith("::"): body = body[2:]
                for e in split_top(body, ","):
                    e = e.strip()
                    if not e: continue
                    if "=" in e:
                        n, v = [x.strip() for x in e.split("=", 1)]
                        try: last = int(v, 0)
                        except ValueError: last = None
                    else: n, last = e, (None if last is None else last + 1)
                    enum[n] = (last, no)
                continue
            if re.match(r"^type\s*(,|::|\s\w+$)", s) and not s.startswith("type("): typ = True; continue
            if re.match(r"^end\s*type\b", s): typ = False; continue
            if typ:
                m = re.match(r"^procedure\b.*?::\s*(.*)$", s)
                if m:
                    for e in split_top(m.group(1), ","):
                        a = [x.strip() for x in e.split("=>")]
                        self.tbp[a[0]] = (a[-1], no)
                continue
            if re.match(r"^end(\s*(function|subroutine|procedure)(\s+\w+)?)?$", s) and stack:
                stack.pop(); continue
            if re.match(r"^(module|program)\s+\w+$", s) or s == "contains" or re.match(r"^end\s*(module|program)\b", s): continue
            m = HEAD.match(s) if "::" not in s.split("(")[0] else None
            if m and not re.match(r"^(call|if|else|end)\b", s):
                rest = m.group(5) or ""
                b = re.search(r"bind\s*\(\s*c\s*(?:,\s*name\s*=\s*[\"']([^\"']*)[\"'])?\s*\)", lower(raw))
                r = re.search(r"result\s*\(\s*(\w+)\s*\)", rest)
                args = [a.strip() for a in (m.group(4) or "").split(",") if a.strip()]
                bind = None
                if b: bind = b.group(1) if b.group(1) is not None else m.group(2)
                u = Unit(m.group(1), m.group(2), args, bind, r and r.group(1), no, stack[-1] if stack else None)
                pre = re.match(r"^((?:integer|real|type|character|logical)\s*(?:\([^)]*\))?)\s+(?:pure\s+|recursive\s+)*function", s)
                if pre:
                    d = parse_decl(pre.group(1) + " :: " + u.result)
                    if d: u.decls.update({d[0][0]: d[0][1]})
                u.in_interface = iface > 0
                self.units.append(u); stack.append(u)
                continue
            d = parse_decl(s)
            if d is not None:
                for n, i in d:
                    if i["param"] and i["init"] is not None and re.match(r"^\d+$", i["init"]): self.params[n] = i["init"]
                    if stack: stack[-1].decls[n] = i
                continue
            if stack and not re.match(r"^(use|implicit|import)\b", s): stack[-1].stmts.append((no, s))

    def kindof(self, info):
        """(class, size) of a declared entity; class in int, real, char, ptr, None"""
        b, k = info["base"], info["kind"]
        if b in ("type", "class"): return ("ptr", 8) if k in ("c_ptr", "c_funptr") else (None, None)
        k = self.params.get(k, k)
        if b == "character": return ("char", 1)
        if b == "double precision": return ("real", 8)
        cls = {"integer": "int", "real": "real", "logical": "logical"}[b]
        if k is None: return (cls, 4)
        if k in KIND:
            c, n = KIND[k]
            return (c or cls, n) if (c in (None, cls)) else (c + "?", n)
        return (cls, None)


CALL = re.compile(r"\b(\w+)\s*\(")


def calls(s):
    """(name, [actual arguments]) of all call-like constructs in a statement"""
    for m in CALL.finditer(s):
        i = m.end(); d = 1; q = None
        while i < len(s) and d:
            c = s[i]
            if q:
                if c == q: q = None
            elif c in "'\"": q = c
            elif c == "(": d += 1
            elif c == ")": d -= 1
            i += 1
        yield m.group(1), [a.strip() for a in split_top(s[m.end():i - 1], ",") if a.strip()], m.start(), i


# ---------------------------------------------------------------- linear values
class Lin(dict):
    """atom -> coefficient; the constant under ''"""
    def key(self): return tuple(sorted((k, v) for k, v in self.items() if v))
    def const(self): return self.get("", 0)
    def atoms(self): return {k for k, v in self.items() if v and k}


def lin_add(a, b, s=1):
    o = Lin(a)
    for k, v in b.items(): o[k] = o.get(k, 0) + s * v
    return Lin({k: v for k, v in o.items() if v})


TOK = re.compile(r"\s*(\d+\.\d*(?:[ed][+-]?\d+)?(?:_\w+)?|\d+(?:_\w+)?|\w+(?:\s*%\s*\w+)*|\*\*|//|==|/=|<=|>=|=>|\"[^\"]*\"|'[^']*'|\.\w+\.|.)")


class Eval:
    """linear value of an expression under env: name -> Lin"""
    def __init__(self, s, env, params=None):
        self.t = [x for x in TOK.findall(s) if x.strip()]; self.i = 0; self.env = env; self.params = params or {}

    def value(self):
        try:
            v = self.sum()
            return v if self.i == len(self.t) else None
        except (IndexError, ValueError): return None

    def peek(self): return self.t[self.i] if self.i < len(self.t) else None

    def sum(self):
        s = 1
        if self.peek() in ("+", "-"): s = -1 if self.t[self.i] == "-" else 1; self.i += 1
        v = lin_add(Lin(), self.prod(), s)
        while self.peek() in ("+", "-"):
            o = self.t[self.i]; self.i += 1
            v = lin_add(v, self.prod(), 1 if o == "+" else -1)
        return v

    def prod(self):
        v = self.prim()
        while self.peek() in ("*", "/", "**"):
            o = self.t[self.i]; self.i += 1
            w = self.prim()
            if o == "*" and not w.atoms(): v = Lin({k: x * w.const() for k, x in v.items()})
            elif o == "*" and not v.atoms(): v = Lin({k: x * v.const() for k, x in w.items()})
            else: v = Lin({"(%s %s %s)" % (v.key(), o, w.key()) if o != "*" else "(%s * %s)" % tuple(sorted((str(v.key()), str(w.key())))): 1})
        return v

    def prim(self):
        t = self.t[self.i]; self.i += 1
        if t == "(":
            v = self.sum()
            if self.t[self.i] != ")": raise ValueError
            self.i += 1
            return v
        if re.match(r"^\d+(_\w+)?$", t): return Lin({"": int(t.split("_")[0])} if int(t.split("_")[0]) else {})
        if not re.match(r"^[a-z_]", t): raise ValueError
        t = re.sub(r"\s", "", t)
        if self.peek() == "(":
            d = 0; j = self.i
            while True:
                d += {"(": 1, ")": -1}.get(self.t[j], 0); j += 1
                if not d: break
            inner = self.t[self.i + 1:j - 1]; self.i = j
            args = split_top(" ".join(inner), ",")
            if t in ("int", "real", "dble", "nint", "abs") and args and t != "abs":
                v = Eval(args[0], self.env, self.params).value()
                if v is None: raise ValueError
                return v
            out = []
            for a in args:
                a = a.strip()
                if re.match(r"^kind\s*=", a): continue
                v = Eval(a, self.env, self.params).value()
                out.append(str(v.key()) if v is not None and t not in ("size", "len", "product") else re.sub(r"\s", "", a))
            return Lin({"%s(%s)" % (t, ",".join(out)): 1})
        if t in self.env: return Lin(self.env[t])
        if t in self.params: return Lin({"": int(self.params[t])} if int(self.params[t]) else {})
        return Lin({t: 1})


class Flow:
    """values of the scalar variables of a unit, statement by statement: yields (line, statement, env, loops, conds)"""
    def __init__(self, m, u, params, lookup=None):
        self.m, self.u, self.params, self.lookup = m, u, params, lookup
        self.n = 0

    def fresh(self, v):
        self.n += 1
        return Lin({"%s#%d" % (v, self.n): 1})

    def run(self):
        env = {}; stack = []; loops = {}
        def kill(names):
            for v in names: env[v] = self.fresh(v)
        def merge(outs):
            nonlocal env
            outs = [o for o in outs if o is not None]
            if not outs: return
            new = {}
            for k in set().union(*outs):
                vs = [o.get(k, Lin({k: 1})) for o in outs]
                new[k] = vs[0] if all(v.key() == vs[0].key() for v in vs) else self.fresh(k)
            env = new
        dead = False
        for no, s in self.u.stmts:
            b = re.sub(r"^\w+\s*:\s*(?=do\b|if\b|select\b)", "", s)
            mm = re.match(r"^if\s*\(", b)
            if mm and re.search(r"\)\s*then$", b):
                yield no, s, env, loops
                stack.append(["if", dict(env), [], dead]); continue
            if re.match(r"^else\b", b) and stack:
                top = stack[-1]; top[2].append(None if dead else env); env = dict(top[1]); dead = top[3]
                if re.match(r"^else\s*if", b): yield no, s, env, loops
                else: top.append("else")
                continue
            if re.match(r"^end\s*if\b", b) and stack:
                top = stack.pop(); top[2].append(None if dead else env)
                if "else" not in top[4:]: top[2].append(top[1])
                d = all(o is None for o in top[2]) and "else" in top[4:]
                merge(top[2]); dead = d or top[3]; continue
            if re.match(r"^select\s*case", b):
                yield no, s, env, loops
                stack.append(["sel", dict(env), [], dead]); continue
            if re.match(r"^case\b", b) and stack:
                top = stack[-1]
                if len(top) > 4: top[2].append(None if dead else env)
                top.append("case"); env = dict(top[1]); dead = top[3]; continue
            if re.match(r"^end\s*select\b", b) and stack:
                top = stack.pop(); top[2].append(None if dead else env); top[2].append(top[1])
                merge(top[2]); dead = top[3]; continue
            md = re.match(r"^do\b\s*(?:(\w+)\s*=\s*(.*))?", b)
            if md:
                # everything assigned in the loop is unknown at its head
                i = self.u.stmts.index((no, s)); d = 1; names = set()
                for _, x in self.u.stmts[i + 1:]:
                    if re.match(r"^(\w+\s*:\s*)?do\b", x): d += 1
                    if re.match(r"^end\s*do\b", x): d -= 1
                    if not d: break
                    for y in re.finditer(r"(?:^|\)\s*)(\w+)\s*=(?![=>])", x): names.add(y.group(1))
                kill(names)
                if md.group(1):
                    r = split_top(md.group(2), ",")
                    v = self.fresh(md.group(1)); env[md.group(1)] = v
                    loops[next(iter(v.atoms()))] = (Eval(r[0], env, self.params).value(), Eval(r[1], env, self.params).value() if len(r) > 1 else None)
                stack.append(["do", dict(env), [], dead]); continue
            if re.match(r"^end\s*do\b", b) and stack:
                top = stack.pop(); merge([None if dead else env, top[1]]); dead = top[3]; continue
            yield no, s, env, loops
            if b in ("return", "stop", "exit", "cycle"): dead = b in ("return", "stop") or dead; continue
            one = re.match(r"^if\s*\(", b)
            x = b
            if one:
                d = 0
                for j, c in enumerate(b):
                    d += {"(": 1, ")": -1}.get(c, 0)
                    if c == ")" and not d: break
                x = b[j + 1:].strip()
                if x in ("return", "stop", "exit", "cycle"): continue
            ma = re.match(r"^(\w+)\s*=(?![=>])\s*(.*)$", x)
            if ma:
                v = Eval(ma.group(2), env, self.params).value()
                if v is None: v = self.fresh(ma.group(1))
                if one:
                    old = env.get(ma.group(1), Lin({ma.group(1): 1}))
                    if old.key() != v.key(): v = self.fresh(ma.group(1))
                env[ma.group(1)] = v
            elif re.match(r"^([\w%]+)\s*(\(.*?\))?\s*=(?![=>])", x): pass
            else: self.outs(x, env)

    def outs(self, x, env):
        """CALL: what the called procedure returns in its arguments"""
        m = re.match(r"^call\s+(\w+)\s*\(", x)
        if not m: return
        g = self.lookup(m.group(1)) if self.lookup else None
        for name, act, st, _ in calls(x):
            if name != m.group(1): continue
            for i, a in enumerate(act):
                k = re.match(r"^(\w+)\s*=(?!=)\s*(.*)$", a)
                d = k.group(1) if k else (g.args[i] if g is not None and i < len(g.args) else None)
                v = k.group(2) if k else a
                if not re.match(r"^\w+$", v): continue
                if g is None: env[v] = self.fresh(v)
                elif d in g.decls and g.decls[d]["intent"] != "in": self.n += 1; env[v] = Lin({"%s:%s#%d" % (g.name, d, self.n): 1})
            break
