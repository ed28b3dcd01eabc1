"""A small stand-in for Jinja2 (not installed here): Template(source).render(**context)
with set, if, for and filter blocks, filters, whitespace control and Jinja's rules
for attributes, items and undefined values. Templates are compiled to Python."""
import ast, re

class TemplateError(Exception): pass
class TemplateSyntaxError(TemplateError): pass
class UndefinedError(TemplateError): pass

class Undefined:
    def __init__(self, name): self._n = name
    def __str__(self): return ""
    def __bool__(self): return False
    def __iter__(self): return iter(())
    def __len__(self): return 0
    def __eq__(self, o): return isinstance(o, Undefined)
    def __hash__(self): return 0
    def _bad(self, *a, **k): raise UndefinedError("%r is undefined" % self._n)
    __call__ = __getitem__ = __add__ = __radd__ = __lt__ = __gt__ = __le__ = __ge__ = __int__ = _bad
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        self._bad()

def indent(s, width=4, first=False, blank=False):
    ind = width if isinstance(width, str) else " " * width
    s += "\n"
    if blank:
        rv = ("\n" + ind).join(s.splitlines())
    else:
        lines = s.splitlines()
        rv = lines.pop(0)
        if lines:
            rv += "\n" + "\n".join(ind + l if l else l for l in lines)
    return ind + rv if first else rv

FILTERS = {"indent": indent, "upper": lambda s: str(s).upper(), "lower": lambda s: str(s).lower(), "trim": lambda s, c=None: str(s).strip(c), "length": len, "list": list, "string": str, "int": int,
           "join": lambda s, d="": d.join(map(str, s)), "replace": lambda s, a, b: str(s).replace(a, b), "default": lambda v, d="", b=False: d if isinstance(v, Undefined) or b and not v else v,
           "first": lambda s: next(iter(s)), "last": lambda s: list(s)[-1], "safe": lambda s: s, "repr": repr, "abs": abs, "sum": sum, "min": min, "max": max, "sort": sorted, "unique": lambda s: list(dict.fromkeys(s)), "float": float, "count": len,
           "capitalize": lambda s: str(s).capitalize(), "reverse": lambda s: list(reversed(s)), "items": lambda d: list(d.items()), "map": lambda s, attribute=None: [_attr(x, attribute) for x in s]}
GLOBALS = {"range": range, "dict": dict, "true": True, "false": False, "none": None, "True": True, "False": False, "None": None}

def _attr(o, n):
    try:
        return getattr(o, n)
    except AttributeError:
        pass
    try:
        return o[n]
    except (TypeError, LookupError, AttributeError):
        return Undefined(n)

def _item(o, k):
    try:
        return o[k]
    except (AttributeError, TypeError, LookupError):
        if isinstance(k, str):
            try:
                return getattr(o, k)
            except AttributeError:
                pass
        return Undefined(k)

class Scope(dict):
    """Names of one block; outer ones are looked up further out."""
    def __init__(self, up): self.up = up
    def look(self, n):
        s = self
        while s is not None:
            if n in s: return s[n]
            s = s.up
        return GLOBALS[n] if n in GLOBALS else Undefined(n)

class _Names(ast.NodeTransformer):
    def visit_Name(self, n): return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_s", ast.Load()), "look", ast.Load()), [ast.Constant(n.id)], []), n)
    def visit_Attribute(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("_attr", ast.Load()), [n.value, ast.Constant(n.attr)], []), n)
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.slice, ast.Slice): return n
        return ast.copy_location(ast.Call(ast.Name("_item", ast.Load()), [n.value, n.slice], []), n)
    def visit_Call(self, n):
        f = n.func
        # filters and tests arrive as calls of names beginning with two underscores
        if isinstance(f, ast.Name) and f.id.startswith("__filter_"):
            n.args = [self.visit(a) for a in n.args]
            n.keywords = [ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords]
            n.func = ast.copy_location(ast.Subscript(ast.Name("_F", ast.Load()), ast.Constant(f.id[9:]), ast.Load()), f)
            return n
        self.generic_visit(n)
        return n

class Loop: pass
def loop(seq):
    seq = list(seq)
    for i, x in enumerate(seq):
        l = Loop()
        l.index0, l.index, l.first, l.last, l.length = i, i + 1, i == 0, i == len(seq) - 1, len(seq)
        l.revindex, l.revindex0 = len(seq) - i, len(seq) - i - 1
        yield x, l

TOK = re.compile(r"""\s*(?:(?P<str>"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*')|(?P<num>\d+(?:\.\d+)?)|(?P<name>[A-Za-z_]\w*)|(?P<op>==|!=|<=|>=|//|\*\*|[-+*/%<>()\[\]{},.:|~=]))""")

def tokens(s):
    i, out = 0, []
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise TemplateSyntaxError("unexpected %r in %r" % (s[i:i + 10], s))
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

def expr(s):
    """Jinja expression text to Python expression text."""
    t = tokens(s)
    # a filter applies to the primary before it
    out, starts = [], []
    i = 0
    def primary_start():
        """Where the primary that ends the output begins."""
        j = len(out) - 1
        while True:
            if out[j] in (")", "]", "}"):
                d = 0
                while True:
                    if out[j] in (")", "]", "}"): d += 1
                    if out[j] in ("(", "[", "{"): d -= 1
                    if d == 0: break
                    j -= 1
                if j > 0 and (re.match(r"\w", out[j - 1][-1]) or out[j - 1] in (")", "]")) and out[j - 1] not in ("and", "or", "not", "in", "if", "else", "is"):
                    j -= 1
                    continue
            if j > 1 and out[j - 1] == ".":
                j -= 2
                continue
            return j
    while i < len(t):
        k, v = t[i]
        if v == "|":
            name = t[i + 1][1]
            while i + 2 < len(t) and t[i + 2][1] == ".":   # dotted filter names do not occur
                raise TemplateSyntaxError(s)
            if name not in FILTERS: raise TemplateSyntaxError("no filter named %r" % name)
            j = primary_start()
            i += 2
            args = []
            if i < len(t) and t[i][1] == "(":
                d, a = 0, i
                while True:
                    if t[i][1] in "([{": d += 1
                    if t[i][1] in ")]}": d -= 1
                    i += 1
                    if d == 0: break
                args = [expr(" ".join(x[1] for x in t[a + 1:i - 1]))] if i - a > 2 else []
            out[j:] = ["__filter_" + name, "("] + out[j:] + ([","] + args if args else []) + [")"]
            # seen as one primary from now on
            out[j:] = ["(" + " ".join(out[j:]) + ")"]
            continue
        if v == "is":
            j = primary_start()
            neg = t[i + 1][1] == "not"
            test = t[i + 2 if neg else i + 1][1]
            body = " ".join(out[j:])
            code = {"defined": "not __filter__undef(%s)", "undefined": "__filter__undef(%s)", "none": "(%s) == none", "string": "__filter__isstr(%s)", "number": "__filter__isnum(%s)", "mapping": "__filter__ismap(%s)", "iterable": "__filter__isiter(%s)", "sequence": "__filter__isiter(%s)", "true": "(%s) == true", "false": "(%s) == false"}.get(test)
            if code is None: raise TemplateSyntaxError("no test named %r" % test)
            out[j:] = ["(" + ("not " if neg else "") + "(" + code % body + "))"]
            i += 3 if neg else 2
            continue
        out.append("+" if v == "~" else v)
        i += 1
    return " ".join(out)
FILTERS["_undef"] = lambda v: isinstance(v, Undefined)
FILTERS["_isstr"] = lambda v: isinstance(v, str)
FILTERS["_isnum"] = lambda v: isinstance(v, (int, float, complex))
FILTERS["_ismap"] = lambda v: isinstance(v, dict)
FILTERS["_isiter"] = lambda v: hasattr(type(v), "__iter__")

def code(s):
    tree = ast.parse(expr(s), mode="eval")
    tree = ast.fix_missing_locations(_Names().visit(tree))
    return ast.unparse(tree)

PART = re.compile(r"\{\{([-+]?)(.*?)([-+]?)\}\}|\{%([-+]?)(.*?)([-+]?)%\}|\{#([-+]?)(.*?)([-+]?)#\}", re.S)
_cache = {}

def compiled(src):
    f = _cache.get(src)
    if f is not None: return f
    text = src[:-1] if src.endswith("\n") else src
    parts, i, strip = [], 0, False
    for m in PART.finditer(text):
        s = text[i:m.start()]
        g = m.groups()
        left, body, right = next((g[k], g[k + 1], g[k + 2]) for k in (0, 3, 6) if g[k + 1] is not None)
        if strip: s = s.lstrip()
        if left == "-": s = s.rstrip()
        if s: parts.append(("text", s))
        if g[1] is not None: parts.append(("out", body))
        elif g[4] is not None: parts.append(("stmt", body.strip()))
        strip = right == "-"
        i = m.end()
    s = text[i:]
    if strip: s = s.lstrip()
    if s: parts.append(("text", s))
    L, ind, stack, n = ["def root(_s, _o):", "  pass"], 1, [], [0]
    def put(x): L.append("  " * ind + x)
    for k, v in parts:
        if k == "text": put("_o.append(%r)" % v)
        elif k == "out": put("_o.append(str(%s))" % code(v))
        else:
            w = v.split(None, 1)
            h = w[0]
            a = w[1] if len(w) > 1 else ""
            if h == "set":
                name, e = a.split("=", 1)
                put("_s[%r] = %s" % (name.strip(), code(e)))
            elif h == "if":
                put("if %s:" % code(a)); stack.append("if"); ind += 1; put("pass")
            elif h == "elif":
                ind -= 1; put("elif %s:" % code(a)); ind += 1; put("pass")
            elif h == "else":
                ind -= 1; put("else:"); ind += 1; put("pass")
            elif h == "endif":
                stack.pop(); ind -= 1
            elif h == "for":
                names, e, cond = re.match(r"(.*?)\s+in\s+(.*?)(?:\s+if\s+((?:(?!\belse\b).)*))?$", a, re.S).groups()
                n[0] += 1
                it = "_i%d" % n[0]
                names = [x.strip() for x in names.strip("() ").split(",")]
                seq = code(e)
                if cond is not None:
                    put("def _c%d(_i, _s=_s):" % n[0])
                    put("  _s = _Scope(_s)")
                    if len(names) == 1: put("  _s[%r] = _i" % names[0])
                    else:
                        for q, x in enumerate(names): put("  _s[%r] = _i[%d]" % (x, q))
                    put("  return " + code(cond))
                    seq = "filter(_c%d, %s)" % (n[0], seq)
                put("for %s, _l%d in _loop(%s):" % (it, n[0], seq)); ind += 1
                put("_s = _Scope(_s)")
                put("_s['loop'] = _l%d" % n[0])
                if len(names) == 1: put("_s[%r] = %s" % (names[0], it))
                else:
                    for q, x in enumerate(names): put("_s[%r] = %s[%d]" % (x, it, q))
                put("try:"); ind += 1; put("pass"); stack.append("for")
            elif h == "endfor":
                stack.pop(); ind -= 1; put("finally: _s = _s.up"); ind -= 1
            elif h == "filter":
                n[0] += 1
                f = re.match(r"(\w+)\s*(?:\((.*)\))?$", a, re.S)
                put("def _f%d(_s, _o):" % n[0]); stack.append(("filter", n[0], f.group(1), f.group(2) or "")); ind += 1; put("pass")
            elif h == "endfilter":
                _, q, name, args = stack.pop(); ind -= 1
                put("_b = []; _f%d(_Scope(_s), _b)" % q)
                fargs = code("f(%s)" % args) if args.strip() else None
                call = "_F[%r](''.join(_b)%s)" % (name, "".join(", " + ast.unparse(x) for x in ast.parse(fargs, mode="eval").body.args) if fargs else "")
                put("_o.append(%s)" % call)
            elif h == "macro":
                n[0] += 1
                name, args = re.match(r"(\w+)\s*\((.*)\)$", a, re.S).groups()
                sig = ast.parse("def f(%s): pass" % args).body[0].args
                names = [x.arg for x in sig.args]
                defaults = [code(ast.unparse(x)) for x in sig.defaults]
                put("def _m%d(*_a, _s=_s, _d=(%s), **_k):" % (n[0], "".join(x + ", " for x in defaults))); ind += 1
                put("_s = _Scope(_s); _o = []; _n = %r" % (names,))
                put("_s.update(zip(_n[len(_n) - len(_d):], _d)); _s.update(zip(_n, _a)); _s.update(_k)")
                stack.append(("macro", n[0], name))
            elif h == "endmacro":
                _, q, name = stack.pop()
                put("return ''.join(_o)"); ind -= 1
                put("_s[%r] = _m%d" % (name, q))
            elif h == "with":
                put("_s = _Scope(_s)")
                for x in ast.parse("f(%s)" % a, mode="eval").body.keywords: put("_s[%r] = %s" % (x.arg, code(ast.unparse(x.value))))
                put("try:"); ind += 1; put("pass"); stack.append("with")
            elif h == "endwith":
                stack.pop(); ind -= 1; put("finally: _s = _s.up")
            else:
                raise TemplateSyntaxError("unknown statement %r" % h)
    if stack: raise TemplateSyntaxError("a block is not closed")
    ns = {"_attr": _attr, "_item": _item, "_F": FILTERS, "_Scope": Scope, "_loop": loop}
    exec(compile("\n".join(L), "<template>", "exec"), ns)
    f = _cache[src] = ns["root"]
    return f

class Template:
    fault = None   # called at every rendering, may raise
    def __init__(self, source, **options):
        if not isinstance(source, str): raise TypeError("Can't compile non template nodes")
        self._f = compiled(source)
    def render(self, *a, **k):
        if Template.fault: Template.fault()
        s = Scope(None)
        for x in a: s.update(x)
        s.update(k)
        o = []
        self._f(Scope(s), o)
        return "".join(o)
class Environment:
    def __init__(self, **k): self.filters = FILTERS
    def from_string(self, s): return Template(s)
