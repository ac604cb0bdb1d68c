#!/usr/bin/env python3
"""Mechanical extraction of functions of /repo into Verus units.

A unit is a template (verus/*.rs) of ordinary Verus text (specifications, lemmas,
trusted models) with //@ directives naming functions, constants and types of
/repo.  On every run the named items are cut out of the current source and
spliced in, with the contracts written in the template.  The executable text is
taken token for token; the only changes are the ones listed in RULES, the
explicit //@sub substitutions of the template, and the insertion of contracts,
loop invariants and proof blocks (which are ghost and erased).
"""
import re, os, sys

RULES = [
 "comments and attributes (#[inline], doc comments) are dropped; log::*! calls are dropped",
 "next!/peek!/expect!/byte_map! are expanded from the definitions found in src/macros.rs",
 "assert!/debug_assert!/.._eq!  become a call of rt_assert, which requires its argument (the panic is proved absent)",
 "panic!/unreachable! becomes vstd unreached(), which requires false (the panic is proved absent)",
 "visibility qualifiers on extracted fns become none/pub as written; the return value is given a name",
 "for (i, P) in E.enumerate()  becomes  let mut i_n = 0; for P in E { let i = i_n; i_n += 1; .. }",
 "struct fields are made pub; bitflags! types become a struct over the integer with the constants of the source (model of the bitflags crate)",
 "for &x in E  becomes  for x_ref in E { let x = *x_ref; .. } (Verus has no reference patterns)",
 "//@inline: a call X.name(|P| BODY) of a method taking a closure is replaced by that method's body with each f(E) replaced by { let P = E; BODY }, both taken from the source (Verus has no closures over mutable variables)",
 "//@inline of a method with further parameters, self.NAME(E.., |P| BODY): as above, with each parameter bound by let to its argument first and the names of NAME suffixed; only where the call is followed by ? if NAME leaves early with ?, and NAME has no return",
 "for i in A..B { .. continue .. }  becomes  let mut i_n = A; let i_e = B; while i_n < i_e { let i = i_n; i_n += 1; .. } (Verus has no continue in for loops)",
 "for v in X.iter_mut() { B }  becomes  let mut v_n = 0; while v_n < X.len() { let v_i = v_n; v_n += 1; B with v replaced by X[v_i] } (Verus has no iter_mut specifications)",
 "//@strings: string literals become Str::lit(&[octets]), octet-string literals &[octets] (Verus gives literals no contents)",
 "static ref X: T = BODY of lazy_static! becomes fn x() -> T BODY",
 "//@strmatch: match E { text => A, .. _ => Z } over strings becomes if E == text { A } else .. { Z } (Verus has no string patterns)",
 "format!(\"a{}b\", x) and format_args! become the concatenation of the literal pieces and the Display (or {:x}) text of the arguments, in order",
 "#[cfg(debug_assertions)] A #[cfg(not(debug_assertions))] B  becomes  if rt_debug() A else B with rt_debug() arbitrary: both builds are verified",
 "a function declared inside another becomes an associated function of its impl",
 "contracts, loop invariants and ghost blocks of the template are inserted",
]

class Lost(Exception):
    """an anchor (function, loop, text) the template relies on is not there"""

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<com>//[^\n]*|/\*(?:[^*]|\*(?!/))*\*/)
 |(?P<raw>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
 |(?P<str>b?"(?:\\(?:.|\n)|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<id>[A-Za-z_]\w*!?(?!=)|[A-Za-z_]\w*)
 |(?P<p>::|->|=>|==|!=|<=|>=|&&|\|\||\.\.=|\.\.\.|\.\.|<<=|>>=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|.)
''', re.X | re.S)

class T:
    __slots__ = ("k", "s", "line", "sp")
    def __init__(self, k, s, line, sp): self.k, self.s, self.line, self.sp = k, s, line, sp
    def __repr__(self): return self.s

def lex(src):
    out, pos, line, sp = [], 0, 1, ""
    n = len(src)
    while pos < n:
        m = TOK.match(src, pos)
        if not m: raise Lost("cannot tokenize at line %d" % line)
        s = m.group(0); k = m.lastgroup
        if k == "h": k = "raw"
        if m.group("ws") is not None: sp += s
        elif m.group("com") is not None: sp += "\n" if s.startswith("//") else " "
        else:
            if m.group("raw") is not None: k = "str"
            # an identifier with ! is a macro only if followed by ( [ {
            if k == "id" and s.endswith("!") and s != "macro_rules!":
                nx = re.match(r'\s*[\(\[\{]', src[m.end():m.end()+40])
                if not nx:
                    s = s[:-1]
                    out.append(T("id", s, line, sp)); sp = ""
                    pos = m.start() + len(s)
                    continue
            out.append(T(k, s, line, sp)); sp = ""
        line += s.count("\n")
        pos = m.end()
    return out

def text(toks):
    r = []
    for i, t in enumerate(toks):
        if i and t.sp: r.append("\n" if "\n" in t.sp else " ")
        r.append(t.s)
    return "".join(r)

OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}
def match(toks, i):
    """index of the token closing toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == "p":
            if toks[j].s in OPEN: d += 1
            elif toks[j].s in CLOSE:
                d -= 1
                if d == 0: return j
    raise Lost("unbalanced brackets")

def strip_attrs(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == "#" and i + 1 < len(toks) and toks[i+1].s == "[" and norm(text(toks[i+1:match(toks, i+1)+1])) == "[cfg(debug_assertions)]" and toks[match(toks, i+1)+1].s == "{":
            # #[cfg(debug_assertions)] A #[cfg(not(debug_assertions))] B : both are verified
            a = match(toks, i+1) + 1; ae = match(toks, a); j = ae + 1
            if not (toks[j].s == "#" and norm(text(toks[j+1:match(toks, j+1)+1])) == "[cfg(not(debug_assertions))]"): raise Lost("cfg(debug_assertions) without its counterpart")
            b = match(toks, j+1) + 1
            if toks[b].s == "unsafe": b += 1
            be = match(toks, b)
            out += lex(" if rt_debug() ") + toks[a:ae+1] + lex(" else ") + toks[b:be+1]
            i = be + 1; continue
        if toks[i].s == "#" and i + 1 < len(toks) and toks[i+1].s == "[":
            i = match(toks, i+1) + 1; continue
        if toks[i].s == "#" and i + 2 < len(toks) and toks[i+1].s == "!" and toks[i+2].s == "[":
            i = match(toks, i+2) + 1; continue
        out.append(toks[i]); i += 1
    return out

class Source:
    def __init__(self, root, rel):
        p = os.path.join(root, rel)
        if not os.path.exists(p): raise Lost("file %s is gone" % rel)
        self.rel = rel
        self.toks = lex(open(p, encoding="utf-8").read())
        self.fns = []      # (impl header or "", name, start, end)
        self.items = []    # (kind, name, start, end)
        self.scan(0, len(self.toks), "")
    def scan(self, a, b, ctx):
        t, i = self.toks, a
        cfg_test = False
        while i < b:
            s = t[i].s
            if s == "#" and t[i+1].s == "[":
                j = match(t, i+1)
                body = text(t[i+1:j+1])
                if re.search(r'cfg\s*\(\s*test', body): cfg_test = True
                i = j + 1; continue
            if s == "mod" and t[i+1].k == "id":
                if t[i+2].s == "{":
                    j = match(t, i+2)
                    if not cfg_test and t[i+1].s != "tests": self.scan(i+3, j, ctx)
                    i = j + 1
                else: i += 3
                cfg_test = False; continue
            if s in ("impl", "trait") and t[i].k == "id":
                j = i
                while t[j].s not in ("{", ";"):
                    j += 1
                if t[j].s == "{":
                    k = match(t, j)
                    hdr = norm(text(t[i:j]))
                    if not cfg_test: self.scan(j+1, k, hdr)
                    i = k + 1
                else: i = j + 1
                cfg_test = False; continue
            if s == "fn" and t[i].k == "id" and t[i+1].k == "id":
                st = i
                while st > a and t[st-1].s in ("pub", "const", "unsafe", ")", "crate", "(", "async", "super"): st -= 1
                j = i
                while t[j].s not in ("{", ";"):
                    if t[j].s in ("(", "["): j = match(t, j)
                    j += 1
                e = match(t, j) if t[j].s == "{" else j
                if not cfg_test: self.fns.append((ctx, t[i+1].s, st, e + 1, i, j))
                i = e + 1; cfg_test = False; continue
            if s in ("struct", "enum", "const", "static", "type") and t[i].k == "id" and t[i+1].k == "id" and t[i+1].s != "fn":
                j = i
                while t[j].s not in ("{", ";"):
                    if t[j].s in ("(", "["): j = match(t, j)
                    j += 1
                if t[j].s == "{" and s in ("struct", "enum"): e = match(t, j)
                elif s in ("const", "static", "type"):
                    while t[j].s != ";":
                        if t[j].s in OPEN: j = match(t, j)
                        j += 1
                    e = j
                else: e = j
                if not cfg_test: self.items.append((s, t[i+1].s, i, e + 1, ctx))
                i = e + 1; cfg_test = False; continue
            if s == "macro_rules!":
                j = i + 1
                while t[j].s != "{": j += 1
                e = match(t, j)
                self.items.append(("macro", t[i+1].s, i, e + 1, ctx))
                i = e + 1; cfg_test = False; continue
            if s in OPEN and t[i].k == "p":
                i = match(t, i) + 1; cfg_test = False; continue
            i += 1
    def fn(self, hdr, name):
        want = norm(hdr)
        c = [f for f in self.fns if f[1] == name and f[0] == want]
        if len(c) != 1: raise Lost("%s: %d functions %s in `%s`" % (self.rel, len(c), name, hdr))
        return c[0]
    def item(self, kind, name, ctx=None):
        c = [f for f in self.items if f[0] == kind and f[1] == name and (ctx is None or f[4] == norm(ctx))]
        if len(c) != 1: raise Lost("%s: %d items %s %s" % (self.rel, len(c), kind, name))
        return c[0]

def norm(s):
    return re.sub(r'\s*([<>(),:&;{}\[\]=+])\s*', r'\1', re.sub(r'\s+', ' ', s)).strip()

# ---- macros of src/macros.rs -------------------------------------------------
def macro_rules(src, name):
    """[(pattern tokens, body tokens)] of a macro_rules! definition"""
    k, n, a, b, _ = src.item("macro", name)
    t = src.toks[a:b]
    i = 0
    while t[i].s != "{": i += 1
    end = match(t, i); i += 1
    rules = []
    while i < end:
        j = match(t, i); pat = t[i+1:j]
        i = j + 1
        if t[i].s != "=>": raise Lost("macro %s" % name)
        i += 1
        j = match(t, i); rules.append((pat, t[i+1:j])); i = j + 1
        if i < end and t[i].s == ";": i += 1
    return rules

def try_rule(pat, arg):
    """binds a (very) small subset of macro_rules matchers; returns dict or None"""
    b, i, j = {}, 0, 0
    while i < len(pat):
        if pat[i].s == "$" and i + 3 < len(pat) and pat[i+2].s == ":":
            name, kind = pat[i+1].s, pat[i+3].s
            i += 4
            if kind == "ident":
                if j >= len(arg) or arg[j].k != "id": return None
                b[name] = [arg[j]]; j += 1
            else:
                stop = pat[i].s if i < len(pat) else None
                k = j
                # token sequence up to the separator at depth 0
                while k < len(arg) and not (stop and arg[k].s == stop):
                    if stop == "|" and arg[k].s == "|": break
                    if arg[k].s in OPEN and arg[k].k == "p": k = match(arg, k)
                    k += 1
                b[name] = arg[j:k]; j = k
        else:
            if j >= len(arg) or arg[j].s != pat[i].s: return None
            i += 1; j += 1
    return b if j == len(arg) else None

def subst(body, b):
    out, i = [], 0
    while i < len(body):
        if body[i].s == "$" and i + 1 < len(body) and body[i+1].s in b:
            e = b[body[i+1].s]
            out.extend([T(e[0].k, e[0].s, e[0].line, body[i].sp or e[0].sp)] + e[1:] if e else []); i += 2
        else: out.append(body[i]); i += 1
    return out

def expand(toks, msrc, names=("next!", "peek!", "expect!")):
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.s in names:
            j = match(toks, i + 1)
            arg = toks[i+2:j]
            for pat, body in macro_rules(msrc, t.s[:-1]):
                b = try_rule(pat, arg)
                if b is not None:
                    e = expand(subst(body, b), msrc, names)
                    # a body that is one block/expression: keep it as an expression
                    out.extend(e); break
            else: raise Lost("no rule of %s matches %s" % (t.s, text(arg)))
            i = j + 1; continue
        if t.k == "id" and t.s == "byte_map!":
            j = match(toks, i + 1)
            out.append(T("p", "[", t.line, t.sp))
            for x in toks[i+2:j]:
                if x.k == "num": out.append(T("id", "true" if int(x.s) != 0 else "false", x.line, x.sp))
                elif x.s == ",": out.append(x)
                else: raise Lost("byte_map! argument %s" % x.s)
            out.append(T("p", "]", t.line, ""))
            i = j + 1; continue
        out.append(t); i += 1
    return out

def drop_logs(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == "log" and i + 2 < len(toks) and toks[i+1].s == "::" and toks[i+2].s.endswith("!"):
            j = match(toks, i + 3)
            i = j + 1
            if i < len(toks) and toks[i].s == ";": i += 1
            continue
        out.append(toks[i]); i += 1
    return out

def asserts(toks):
    """assert!/debug_assert!(A, ..) -> rt_assert(A); assert_eq!/debug_assert_eq!(A, B, ..) -> rt_assert((A) == (B)):
    rt_assert requires its argument, so that the panic is proved not to happen"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.s in ("panic!", "unreachable!", "todo!", "unimplemented!"):
            j = match(toks, i + 1)
            dead = toks[j+1].s == ";" and toks[j+2].s != "}" if j + 2 < len(toks) else False
            out.append(T("raw", "{ vstd::pervasive::unreached%s() }" % ("::<()>" if dead else ""), t.line, t.sp)); i = j + 1
            if not dead and i < len(toks) and toks[i].s == ";": i += 1
            continue
        if t.k == "id" and t.s in ("assert!", "debug_assert!", "assert_eq!", "debug_assert_eq!", "assert_ne!", "debug_assert_ne!"):
            j = match(toks, i + 1)
            args, cur, k = [], [], i + 2
            while k < j:
                if toks[k].s in OPEN and toks[k].k == "p":
                    e = match(toks, k); cur += toks[k:e+1]; k = e + 1; continue
                if toks[k].s == ",": args.append(cur); cur = []
                else: cur.append(toks[k])
                k += 1
            if cur: args.append(cur)
            out.append(T("id", "rt_assert", t.line, t.sp)); out.append(T("p", "(", t.line, ""))
            if "_eq" in t.s or "_ne" in t.s:
                a, b = ([x[1:] if x and x[0].s == "&" else [T("p", "*", t.line, ""), T("p", "(", t.line, "")] + x + [T("p", ")", t.line, "")] for x in args[:2]] if any(x and x[0].s == "&" for x in args[:2]) else args[:2])
                out += [T("p", "(", t.line, "")] + a + [T("p", ")", t.line, ""), T("p", "==" if "_eq" in t.s else "!=", t.line, " "), T("p", "(", t.line, " ")] + b + [T("p", ")", t.line, "")]
            else: out += args[0]
            out.append(T("p", ")", t.line, ""))
            i = j + 1; continue
        out.append(t); i += 1
    return out

def loops(toks):
    """[(keyword index, body open index, body close index)] in source order"""
    r = []
    for i, t in enumerate(toks):
        if t.k == "id" and t.s in ("loop", "while", "for"):
            if t.s == "for" and i + 1 < len(toks) and toks[i+1].s == "<": continue
            j = i + 1
            while toks[j].s != "{":
                if toks[j].s in ("(", "["): j = match(toks, j)
                j += 1
            r.append((i, j, match(toks, j)))
    return r

def raw(s, line=0): return [T("raw", s, line, "\n")]

def ref_patterns(toks):
    """for &x in E {, for &(x, y) in E {  ->  for x_ref in E { let x = *x_ref;   (also inside one tuple pattern)"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.s == "for" and not (i+1 < len(toks) and toks[i+1].s == "<"):
            j = i + 1
            while toks[j].s != "in":
                if toks[j].s in OPEN: j = match(toks, j)
                j += 1
            k = j
            while toks[k].s != "{":
                if toks[k].s in ("(", "["): k = match(toks, k)
                k += 1
            pat, lets, q, simple = toks[i+1:j], [], [], True
            if len(pat) > 1 and pat[0].s == "(":
                lets = [T("raw", " let %s = __item;" % text(pat).replace("&", ""), pat[0].line, "")]
                names = []
                z = 1
                while z < len(pat) - 1:
                    if pat[z].s == "&" and pat[z+1].k == "id": names.append(pat[z+1].s); z += 1
                    z += 1
                lets += [T("raw", " let %s = *%s;" % (x, x), pat[0].line, "") for x in names]
                q = [T("id", "__item", pat[0].line, " ")]
            elif len(pat) > 3 and pat[0].s == "&" and pat[1].s == "(":
                lets = [T("raw", " let %s = *__item;" % text(pat[1:]), pat[0].line, "")]
                q = [T("id", "__item", pat[0].line, " ")]
            elif len(pat) == 2 and pat[0].s == "&" and pat[1].k == "id":
                q = [T("id", pat[1].s + "_ref", pat[1].line, " ")]
                lets = [T("raw", " let %s = *%s_ref;" % (pat[1].s, pat[1].s), pat[1].line, "")]
            else: q = pat
            out.append(t); out.extend(q); out.extend(toks[j:k+1]); out.extend(lets)
            i = k + 1; continue
        out.append(t); i += 1
    return out

def enumerate_loops(toks):
    """for (i, P) in E.enumerate() {  ->  let mut i_n: usize = 0; for P in E { let i = i_n; i_n += 1;"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.s == "for" and i + 1 < len(toks) and toks[i+1].s == "(":
            pe = match(toks, i+1)
            k = pe + 1
            while k < len(toks) and toks[k].s != "{":
                if toks[k].s in ("(", "["): k = match(toks, k)
                k += 1
            ke = k
            if toks[k-1].s == ")" and [x.s for x in toks[k-5:k-2]] == [".", "take", "("] : ke = k - 5 + 0   # .enumerate().take(N) is .take(N) with the index
            tail = [x.s for x in toks[ke-4:ke]]
            if toks[pe+1].s == "in" and tail == [".", "enumerate", "(", ")"] and toks[i+2].k == "id" and toks[i+3].s == ",":
                v = toks[i+2].s
                out.append(T("raw", "let mut %s_n: usize = 0;" % v, t.line, "\n"))
                out.append(T(t.k, t.s, t.line, "\n"))
                out += toks[i+4:pe] + toks[pe+1:ke-4] + toks[ke:k]
                out.append(T("p", "{", toks[k].line, " "))
                out.append(T("raw", " let %s = %s_n; %s_n += 1;" % (v, v, v), t.line, ""))
                i = k + 1; continue
        out.append(t); i += 1
    return out

def iter_mut_loops(toks):
    """for v in X.iter_mut() { B }  ->  let mut v_n: usize = 0; while v_n < X.len() { let v_i = v_n; v_n += 1; B[v := X[v_i]] }"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.s == "for" and i + 3 < len(toks) and toks[i+1].k == "id" and toks[i+2].s == "in":
            k = i + 3
            while toks[k].s != "{":
                if toks[k].s in ("(", "["): k = match(toks, k)
                k += 1
            if [x.s for x in toks[k-4:k]] == [".", "iter_mut", "(", ")"]:
                v, X = toks[i+1].s, toks[i+3:k-4]
                e = match(toks, k)
                out.append(T("raw", "let mut %s_n: usize = 0;" % v, t.line, "\n"))
                out.append(T("id", "while", t.line, "\n"))
                out.append(T("raw", "%s_n < %s.len()" % (v, text(X)), t.line, " "))
                out.append(T("p", "{", t.line, " "))
                out.append(T("raw", " let %s_i = %s_n; %s_n += 1;" % (v, v, v), t.line, ""))
                B = toks[k+1:e]
                for j, x in enumerate(B):
                    if x.k == "id" and x.s == v and not (j and B[j-1].s == "."):
                        out += [T(y.k, y.s, y.line, y.sp if n else x.sp) for n, y in enumerate(X)]
                        out += lex("[%s_i]" % v)
                    else: out.append(x)
                out.append(T("p", "}", t.line, "\n"))
                i = e + 1; continue
        out.append(t); i += 1
    return out

def range_continue(toks):
    """for i in A..B { BODY with continue } -> let mut i_n = A; let i_e = B; while i_n < i_e { let i = i_n; i_n += 1; BODY }"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.s == "for" and i + 3 < len(toks) and toks[i+1].k == "id" and toks[i+2].s == "in":
            k, dd = i + 3, None
            while toks[k].s != "{":
                if toks[k].s == ".." and dd is None: dd = k
                if toks[k].s in ("(", "["): k = match(toks, k)
                k += 1
            e = match(toks, k)
            if dd and any(x.s == "continue" for x in toks[k:e]):
                v = toks[i+1].s
                out.append(T("raw", "let mut %s_n = %s; let %s_e = %s;" % (v, text(toks[i+3:dd]), v, text(toks[dd+1:k])), t.line, "\n"))
                out.append(T("id", "while", t.line, "\n"))
                out.append(T("raw", "%s_n < %s_e" % (v, v), t.line, " "))
                out.append(T("p", "{", t.line, " "))
                out.append(T("raw", " let %s = %s_n; %s_n += 1;" % (v, v, v), t.line, ""))
                out += range_continue(toks[k+1:e+1])
                i = e + 1; continue
        out.append(t); i += 1
    return out

ESC = {"n": 10, "r": 13, "t": 9, "0": 0, "\\": 92, "'": 39, '"': 34}
def str_octets(s):
    """octets of a (byte) string literal"""
    if s.startswith("b"): s = s[1:]
    if s.startswith("r"):
        return list(re.sub(r'^r(#*)"((?:.|\n)*)"\1$', r'\2', s).encode())
    s = s[1:-1]; out, i = [], 0
    while i < len(s):
        if s[i] != "\\": out += list(s[i].encode()); i += 1; continue
        c = s[i+1]
        if c == "x": out.append(int(s[i+2:i+4], 16)); i += 4
        elif c in ESC: out.append(ESC[c]); i += 2
        elif c == "\n":
            i += 2
            while i < len(s) and s[i] in " \t\n\r": i += 1
        else: raise Lost("escape in literal %s" % s)
    return out

def arr(o): return "[" + ", ".join(["%du8" % o[0]] + [str(x) for x in o[1:]] if o else []) + "]"

def formats(toks):
    """format!/format_args!("..{}..", a, b)  ->  { let mut f__ = Text::new(); f__.put_disp(&(a)); f__.put_str(..); .. f__ }"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.s in ("format!", "format_args!") and toks[i+2].k == "str":
            j = match(toks, i + 1)
            args, cur, k = [], [], i + 3
            while k < j:
                if toks[k].s in OPEN and toks[k].k == "p":
                    e = match(toks, k); cur += toks[k:e+1]; k = e + 1; continue
                if toks[k].s == ",":
                    if cur: args.append(cur)
                    cur = []
                else: cur.append(toks[k])
                k += 1
            if cur: args.append(cur)
            fm = "".join(map(chr, str_octets(toks[i+2].s)))
            r, n = "", 0
            for pc in re.findall(r'\{[^{}]*\}|[^{}]+|[{}]', fm):
                if pc in ("{}", "{:x}"):
                    r += " f__.%s(&(%s));" % ("put_disp" if pc == "{}" else "put_hex", text(formats(args[n]))); n += 1
                elif pc[0] in "{}": raise Lost("format string %s" % toks[i+2].s)
                else: r += " f__.put_str(Str::lit(&%s));" % arr(list(pc.encode("latin-1")))
            if n != len(args): raise Lost("format arguments")
            e = lex("{ let mut f__ = Text::new();" + r + " f__ }")
            if out and out[-1].s == "&": e = lex("(") + e + lex(")")
            elif j + 1 < len(toks) and toks[j+1].s == ".": e = lex("(") + e + lex(")")
            out += e; i = j + 1; continue
        out.append(t); i += 1
    return out

def strmatch(toks):
    """match E { P => A, .., _ => Z } with string patterns -> if chain"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.s == "match":
            o = i + 1
            while toks[o].s != "{": o = match(toks, o) + 1 if toks[o].s in OPEN else o + 1
            c = match(toks, o)
            arms, k = [], o + 1
            while k < c:
                a = k
                while toks[k].s != "=>": k = match(toks, k) + 1 if toks[k].s in OPEN and toks[k].k == "p" else k + 1
                pat = toks[a:k]; k += 1
                if toks[k].s == "{" :
                    e = match(toks, k); body = toks[k:e+1]; k = e + 1
                    if k < c and toks[k].s == ",": k += 1
                else:
                    a = k
                    while k < c and toks[k].s != ",": k = match(toks, k) + 1 if toks[k].s in OPEN and toks[k].k == "p" else k + 1
                    body = lex("{") + toks[a:k] + lex("}"); k += 1
                arms.append((pat, body))
            def stringy(p):
                tx = text(p)
                return all(re.fullmatch(r'Str::lit\(.*\)|\(&\[.*\]\)|(?:\w+\s*::\s*)+S[A-Z0-9]+', x.strip()) for x in tx.split("|"))
            if len(arms) > 1 and [x.s for x in arms[-1][0]] == ["_"] and all(stringy(p) for p, _ in arms[:-1]):
                scr = strmatch(toks[i+1:o])
                r = lex("{ let m__ = ") + scr + lex("; ")
                for n, (p, b) in enumerate(arms[:-1]):
                    alts, cur = [], []
                    for x in p:
                        if x.s == "|": alts.append(cur); cur = []
                        else: cur.append(x)
                    alts.append(cur)
                    r += lex("\n" if n == 0 else " else ") + lex(" if " + " || ".join("str_same(m__, %s)" % text(x) for x in alts) + " ") + strmatch(b)
                r += lex(" else ") + strmatch(arms[-1][1]) + lex(" }")
                out += r; i = c + 1; continue
        out.append(t); i += 1
    return out

def strings(toks):
    out = []
    for t in toks:
        if t.k == "str":
            o = str_octets(t.s)
            out.append(T("raw", "(&%s)" % arr(o) if t.s.startswith("b") else "Str::lit(&%s)" % arr(o), t.line, t.sp))
        else: out.append(t)
    return out

def pub_fields(tx):
    """visibility of the fields only"""
    t = lex(tx)
    o = next((i for i, x in enumerate(t) if x.s in ("{", "(")), None)
    if o is None: return tx
    e = match(t, o); out = t[:o+1]; i = o + 1
    start, d = True, 0
    while i < e:
        if start and (t[i].k in ("id",) or t[o].s == "(") and t[i].s != "pub":
            out.append(T("id", "pub", t[i].line, "\n"))
            t[i].sp = t[i].sp or " "
        start = False
        if t[i].s in ("(", "[", "{"):
            j = match(t, i); out += t[i:j+1]; i = j + 1; continue
        if t[i].s in ("<",): d += 1
        if t[i].s in (">",): d -= 1
        if t[i].s == "," and d == 0: start = True
        out.append(t[i]); i += 1
    return text(out + t[e:])

def bitflags_of(src, name):
    t = src.toks
    for i, x in enumerate(t):
        if x.s == "bitflags!":
            o = i + 1
            e = match(t, o)
            body = strip_attrs(t[o+1:e])
            for j in range(len(body)):
                if body[j].s == "struct" and body[j+1].s == name:
                    ty = body[j+3].s
                    b = j + 4
                    c = match(body, b)
                    m = re.findall(r'const\s+(\w+)\s*=\s*([^;]+);', text(body[b+1:c]))
                    env, r = {}, []
                    for n, v in m:
                        if not re.fullmatch(r'[\w\s|<()]+', v): raise Lost("bitflags %s::%s" % (name, n))
                        r.append((n, eval(v, {"__builtins__": {}}, env))); env[n] = r[-1][1]
                    return ty, r, x.line
    raise Lost("%s: bitflags %s" % (src.rel, name))

def bitflags_text(n, ty, consts):
    allv = 0
    for _, v in consts: allv |= v
    L = ["#[derive(Clone, Copy, PartialEq, Eq, Structural)]", "pub struct %s { pub b: %s }" % (n, ty), "impl %s {" % n]
    for c, v in consts: L.append("    pub const %s: %s = %s { b: %d };" % (c, n, n, v))
    L.append("    pub spec const ALL: %s = %d;" % (ty, allv))
    d = dict(n=n, ty=ty, all=allv)
    L.append("""    pub fn bits(&self) -> (r: %(ty)s) ensures r == self.b { self.b }
    pub fn empty() -> (r: %(n)s) ensures r.b == 0 { %(n)s { b: 0 } }
    pub fn all() -> (r: %(n)s) ensures r.b == %(all)d { %(n)s { b: %(all)d } }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.b == 0) { self.b == 0 }
    pub fn contains(&self, o: %(n)s) -> (r: bool) ensures r == (self.b & o.b == o.b) { self.b & o.b == o.b }
    pub fn insert(&mut self, o: %(n)s) ensures final(self).b == old(self).b | o.b { self.b = self.b | o.b; }
    pub fn remove(&mut self, o: %(n)s) ensures final(self).b == old(self).b & !o.b { self.b = self.b & !o.b; }
    pub fn set(&mut self, o: %(n)s, v: bool) ensures final(self).b == (if v { old(self).b | o.b } else { old(self).b & !o.b }) { if v { self.b = self.b | o.b } else { self.b = self.b & !o.b } }
    pub fn from_bits_truncate(v: %(ty)s) -> (r: %(n)s) ensures r.b == v & %(all)d { %(n)s { b: v & %(all)d } }
    pub fn from_bits(v: %(ty)s) -> (r: Option<%(n)s>) ensures r == (if v & %(all)d == v { Some(%(n)s { b: v }) } else { None::<%(n)s> }) { if v & %(all)d == v { Some(%(n)s { b: v }) } else { None } }
    pub fn from_bits_retain(v: %(ty)s) -> (r: %(n)s) ensures r.b == v { %(n)s { b: v } }
    pub fn union(self, o: %(n)s) -> (r: %(n)s) ensures r.b == self.b | o.b { %(n)s { b: self.b | o.b } }
}
impl Default for %(n)s { fn default() -> (r: %(n)s) ensures r.b == 0 { %(n)s { b: 0 } } }""" % d)
    return "\n".join(L)

class Lazy:
    """static ref NAME: TYPE = BODY;  of a lazy_static! block, as a function  fn name() -> TYPE BODY"""
    def __init__(self, src, name, msrc):
        t = src.toks
        for i, x in enumerate(t):
            if x.s == "lazy_static!":
                e = match(t, i + 1)
                for j in range(i + 2, e):
                    if t[j].s == "ref" and t[j+1].s == name:
                        k = j + 3; ty = []
                        while t[k].s != "=": ty.append(t[k]); k += 1
                        b0 = k + 1
                        while t[k].s != ";":
                            if t[k].s in OPEN and t[k].k == "p": k = match(t, k)
                            k += 1
                        body = strip_attrs(t[b0:k])
                        if body[0].s != "{": body = lex("{") + body + lex("}")
                        self.name, self.rel, self.line, self.vis = name.lower(), src.rel, t[j].line, ""
                        self.sig = lex("fn %s() -> %s" % (name.lower(), text(ty)))
                        body = asserts(drop_logs(body))
                        self.body = range_continue(iter_mut_loops(ref_patterns(enumerate_loops(body))))
                        self.orig = text(t[j:k])
                        return
        raise Lost("%s: lazy_static %s" % (src.rel, name))

def nested(toks):
    """[(start, body open, end, name)] of the fn items declared in a function body"""
    r, i = [], 1
    while i < len(toks):
        if toks[i].s == "fn" and toks[i].k == "id" and toks[i+1].k == "id":
            j = i
            while toks[j].s != "{":
                if toks[j].s in ("(", "["): j = match(toks, j)
                j += 1
            e = match(toks, j)
            r.append((i, j, e + 1, toks[i+1].s)); i = e
        i += 1
    return r

class Fn:
    """an extracted function: tokens of signature and body; OUTER/INNER names a function declared in the body of another"""
    def __init__(self, src, hdr, name, msrc):
        outer, _, inner = name.partition("/")
        ctx, nm, st, en, kw, bo = src.fn(hdr, outer)
        t = src.toks
        if inner:
            c = [x for x in nested(t[bo:en]) if x[3] == inner]
            if len(c) != 1: raise Lost("%s: %d functions %s in %s" % (src.rel, len(c), inner, outer))
            st = kw = bo + c[0][0]; en = bo + c[0][2]; bo = bo + c[0][1]
        name = inner or outer
        self.name, self.rel, self.line = name, src.rel, src.toks[kw].line
        self.vis = text(t[st:kw])
        self.sig = strip_attrs(t[kw:bo])
        body = asserts(drop_logs(strip_attrs(t[bo:en])))
        ns = nested(body)
        for a, _, b, n in reversed(ns): body = body[:a] + body[b:]
        names = [x[3] for x in ns]
        if names: body = [T(x.k, "Self::" + x.s, x.line, x.sp) if x.k == "id" and x.s in names and body[n+1].s == "(" and body[n-1].s not in (".", "::") else x for n, x in enumerate(body)]
        body = expand(body, msrc) if msrc else body
        self.body = range_continue(iter_mut_loops(ref_patterns(enumerate_loops(body))))
        self.orig = text(t[st:en])

def commas(toks):
    """top-level pieces between commas"""
    out, cur, i = [], [], 0
    while i < len(toks):
        if toks[i].s in OPEN:
            e = match(toks, i); cur += toks[i:e+1]; i = e + 1; continue
        if toks[i].s == "|" and not cur:                       # a closure: its parameter list
            e = next(j for j in range(i + 1, len(toks)) if toks[j].s == "|"); cur += toks[i:e+1]; i = e + 1; continue
        if toks[i].s == ",": out.append(cur); cur = []
        else: cur.append(toks[i])
        i += 1
    if cur: out.append(cur)
    return out

def params(g):
    o = next(i for i, t in enumerate(g.sig) if t.s == "(" and g.sig[i-1].s not in ("Fn", "FnOnce", "FnMut"))
    return commas(g.sig[o+1:match(g.sig, o)])

def inline_call(toks, g):
    """calls self.NAME(E1, .., |P| BODY) of a method whose last parameter is a closure:
    { let p1 = E1; .. let r: R = <body of NAME, its variables renamed, its f(A..) replaced by { let P = A; .. BODY }>; r };
    only where the call is followed by ? if the body leaves early with ?"""
    sg = g.sig
    o = next(i for i, t in enumerate(sg) if t.s == "(" and sg[i-1].s not in ("Fn", "FnOnce", "FnMut"))
    c = match(sg, o)
    pars = params(g)
    if text(pars[0]).replace(" ", "") not in ("&self", "&mutself"): raise Lost("inline %s: receiver" % g.name)
    names = [[t.s for t in q if t.s != "mut"][0] for q in pars[1:]]
    types = [text(q[next(i for i, t in enumerate(q) if t.s == ":")+1:]) for q in pars[1:]]
    f = names[-1]
    ret = sg[c+1:]
    if not ret or ret[0].s != "->": raise Lost("inline %s: no result" % g.name)
    ret = ret[1:]
    w = next((i for i, t in enumerate(ret) if t.s == "where"), len(ret)); ret = text(ret[:w])
    bound = set(names[:-1])
    b = g.body
    for i, t in enumerate(b):
        if t.s == "return": raise Lost("inline %s: return" % g.name)
        if t.s == "let":
            j = i + 1
            while b[j].s not in ("=", ";", ":"):
                if b[j].k == "id" and b[j].s not in ("mut", "ref") and b[j].s[0].islower(): bound.add(b[j].s)
                j += 1
    early = any(t.s == "?" for t in b)
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == "self" and i + 4 < len(toks) and toks[i+1].s == "." and toks[i+2].s == g.name and toks[i+3].s == "(":
            e = match(toks, i + 3); args = commas(toks[i+4:e])
            if len(args) == len(names) and args[-1] and args[-1][0].s == "|":
                z = e + 1
                while z < len(toks) and toks[z].s == ")": z += 1
                if early and (z >= len(toks) or toks[z].s != "?"): raise Lost("inline %s: early exit" % g.name)
                cl = args[-1]; k = next(j for j in range(1, len(cl)) if cl[j].s == "|")
                P, B = commas(cl[1:k]), cl[k+1:]
                body, j = [], 0
                while j < len(b):
                    if b[j].s == f and b[j].k == "id" and b[j-1].s != ".":
                        if b[j+1].s == "(":
                            q = match(b, j + 1); A = commas(b[j+2:q])
                            if len(A) != len(P): raise Lost("inline %s: closure" % g.name)
                            ren = [text([T(x.k, x.s + "_in", x.line, x.sp) if x.k == "id" and x.s in bound else x for x in y]) for y in A]
                            body += lex("{ %s %s }" % (" ".join("let %s = %s;" % (text(pp), aa) for pp, aa in zip(P, ren)), text(B)))
                            j = q + 1; continue
                        body += cl; j += 1; continue
                    x = b[j]
                    if x.k == "id" and x.s in bound and b[j-1].s != ".": x = T(x.k, x.s + "_in", x.line, x.sp)
                    body.append(x); j += 1
                pre = " ".join("let %s_in: %s = %s;" % (n, ty, text(a)) for n, ty, a in zip(names, types, args[:-1]))
                out += lex("{ %s let r_in: %s = %s; r_in }" % (pre, ret, text(body))); i = e + 1; continue
        out.append(toks[i]); i += 1
    return out

def inline_closure(toks, g):
    """calls self.NAME(|P| BODY) replaced by the body of NAME (Fn g, one closure parameter)"""
    sg = g.sig
    o = next(i for i, t in enumerate(sg) if t.s == "(")
    if sg[o-1].s == ">" or any(t.s == "<" for t in sg[:o]):
        i = next(i for i, t in enumerate(sg) if t.s == "<"); d = 0
        while True:
            if sg[i].s == "<": d += 1
            if sg[i].s == ">" : d -= 1
            if d == 0: break
            i = match(sg, i) if sg[i].s in OPEN else i
            i += 1
        o = i + 1
    c = match(sg, o)
    par = [t.s for t in sg[o+1:c]]
    if par[:3] != ["&", "self", ","]: raise Lost("inline %s: receiver" % g.name)
    f = [x for x in par[3:] if x != "mut"][0]
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == "self" and i + 4 < len(toks) and toks[i+1].s == "." and toks[i+2].s == g.name and toks[i+3].s == "(" and toks[i+4].s == "|":
            e = match(toks, i + 3); k = i + 5
            while toks[k].s != "|": k += 1
            P, B = toks[i+5:k], toks[k+1:e]
            body, j = [], 0
            while j < len(g.body):
                if g.body[j].s == f and g.body[j].k == "id" and g.body[j+1].s == "(":
                    q = match(g.body, j + 1)
                    body += lex("{ let %s = %s; %s }" % (text(P), text(g.body[j+2:q]), text(B)))
                    j = q + 1; continue
                if g.body[j].s == "return": raise Lost("inline %s: return" % g.name)
                body.append(g.body[j]); j += 1
            out += body; i = e + 1; continue
        out.append(toks[i]); i += 1
    return out

def desugar_for(toks, n):
    """loop n: for P in E { B }  ->  let mut itn = E; loop { match itn.next() { Some(P) => { B } None => break } }"""
    kw, bo, bc = loops(toks)[n]
    if toks[kw].s != "for": raise Lost("loop %d is no for loop" % n)
    j = kw + 1
    while toks[j].s != "in": j = match(toks, j) + 1 if toks[j].s in OPEN else j + 1
    L = toks[kw].line
    return (toks[:kw] + [T("raw", "let mut it%d = %s;" % (n, text(toks[j+1:bo])), L, "\n"), T("id", "loop", L, "\n"), T("p", "{", L, " "),
            T("raw", "match it%d.next() { Some(%s) => {" % (n, text(toks[kw+1:j])), L, "\n")] + toks[bo+1:bc] +
            [T("raw", "} None => break }", L, "\n"), T("p", "}", L, "\n")] + toks[bc+1:])

def render(fn, spec, subs, ret, loopspec, at, rename=None, desug=()):
    sig, body = text(fn.sig), text(fn.body)
    used = []
    def dosub(s):
        for (req, pat, rep) in subs:
            s2, n = re.subn(pat, rep, s)
            if n: used.append(pat)
            s = s2
        return s
    sig, body = dosub(sig), dosub(body)
    for (req, pat, rep) in subs:
        if req and pat not in used: raise Lost("%s: text /%s/ is not there" % (fn.name, pat))
    if rename: sig = re.sub(r'\bfn\s+%s\b' % re.escape(fn.name), "fn " + rename, sig, count=1)
    toks = lex(body)
    for n in desug: toks = lex(text(desugar_for(toks, n)))
    ls = loops(toks)
    exp = [k for k in loopspec] + [k[1] for k in at if isinstance(k, tuple)]
    nexp = (max(exp) + 1) if exp else 0
    if len(ls) != len(loopspec) and not (len(loopspec) == 0 and len(ls) == 0):
        raise Lost("%s: %d loops, the contracts are for %d" % (fn.name, len(ls), len(loopspec)))
    ins = {}   # position -> text inserted before token
    def add(p, s): ins[p] = ins.get(p, "") + s
    for n, (kw, bo, bc) in enumerate(ls):
        inv = loopspec.get(n)
        if inv is None: raise Lost("%s: loop %d has no contract" % (fn.name, n))
        if toks[kw].s == "for":
            j = kw + 1
            while toks[j].s != "in":
                if toks[j].s in OPEN: j = match(toks, j)
                j += 1
            add(j + 1, " it%d: " % n)
        add(bo, "\n" + inv + "\n")
        if ("start", n) in at: add(bo + 1, "\n" + at[("start", n)] + "\n")
        if ("end", n) in at: add(bc, "\n" + at[("end", n)] + "\n")
        if ("before", n) in at: add(kw, "\n" + at[("before", n)] + "\n")
        if ("after", n) in at: add(bc + 1, "\n" + at[("after", n)] + "\n")
    if "start" in at: add(1, "\n" + at["start"] + "\n")
    if "end" in at: add(len(toks) - 1, "\n" + at["end"] + "\n")
    out = []
    for i, t in enumerate(toks):
        if i in ins: out.append(ins[i])
        if i and t.sp: out.append("\n" if "\n" in t.sp else " ")
        out.append(t.s)
    body = "".join(out)
    if ret:
        st = lex(sig); d = 0; ar = None
        for i, t in enumerate(st):
            if t.s == "->" : ar = i   # last arrow at depth 0
            if t.s == "where" and ar is not None: break
        # the arrow after the parameter list
        i = 0
        while st[i].s != "(":
            if st[i].s == "<":
                dd = 0
                while True:
                    if st[i].s == "<": dd += 1
                    if st[i].s == ">": dd -= 1
                    if dd == 0: break
                    i += 1
            i += 1
        close = match(st, i)
        rest = st[close+1:]
        if rest and rest[0].s == "->":
            w = next((x for x, t in enumerate(rest) if t.s == "where"), len(rest))
            sig = text(st[:close+1]) + " -> (" + ret + ": " + text(rest[1:w]) + ") " + text(rest[w:])
        else: sig = sig + " -> (" + ret + ": ())"
    vis = fn.vis if fn.vis.strip().startswith("pub") else ""
    vis = "pub " if vis else ""
    return vis + sig + "\n" + spec + "\n" + body

def contracts_only(sub, reg, unit):
    L = sub.split("\n")
    spans = [(a - 1, b - 1) for a, b, lab in reg if re.search(r'\bfn\b', "\n".join(L[a-1:b]))]
    # lemmas whose body opens a line
    for n, l in enumerate(L):
        if re.match(r'\s*(pub )?(broadcast )?proof fn \w+', l) and "broadcast" not in l:
            k = n
            while k < len(L) and not L[k].startswith("{"):
                if k > n and re.match(r'\s*(pub |proof |open |spec |fn |impl|//)', L[k]): k = len(L)
                k += 1
            if k < len(L) and not any(a <= n <= b for a, b in spans):
                t, d = "\n".join(L[k:]), 0
                for j, c in enumerate(t):
                    d += {"{": 1, "}": -1}.get(c, 0)
                    if d == 0: break
                spans.append((n, k + t[:j].count("\n")))
    for a, b in spans:
        k = a
        while k <= b and not L[k].startswith("{"): k += 1
        if k > b: continue
        a = next(j for j in range(a, k) if re.search(r'\bfn \w', L[j]))
        L[a] = "#[verifier::external_body] /* proved in unit %s */ " % unit.replace(".rs", "") + L[a]
        for j in range(k, b + 1): L[j] = ""
        L[k] = "{ unimplemented!() }"
    for n, l in enumerate(L):
        if re.match(r'\s*pub exec const \w+', l): L[n] = "#[verifier::external_body] /* proved in unit %s */ " % unit.replace(".rs", "") + l
    return "\n".join(L)

# the registered names (RFC 7231 6.1, 2518, 4918, 5842, 7540, 6585, 7725 ...)
STATUS_NAMES = dict(CONTINUE=100, SWITCHING_PROTOCOLS=101, PROCESSING=102, OK=200, CREATED=201, ACCEPTED=202, NON_AUTHORITATIVE_INFORMATION=203, NO_CONTENT=204, RESET_CONTENT=205, PARTIAL_CONTENT=206, MULTI_STATUS=207, ALREADY_REPORTED=208, IM_USED=226, MULTIPLE_CHOICES=300, MOVED_PERMANENTLY=301, FOUND=302, SEE_OTHER=303, NOT_MODIFIED=304, USE_PROXY=305, TEMPORARY_REDIRECT=307, PERMANENT_REDIRECT=308, BAD_REQUEST=400, UNAUTHORIZED=401, PAYMENT_REQUIRED=402, FORBIDDEN=403, NOT_FOUND=404, METHOD_NOT_ALLOWED=405, NOT_ACCEPTABLE=406, PROXY_AUTHENTICATION_REQUIRED=407, REQUEST_TIMEOUT=408, CONFLICT=409, GONE=410, LENGTH_REQUIRED=411, PRECONDITION_FAILED=412, PAYLOAD_TOO_LARGE=413, URI_TOO_LONG=414, UNSUPPORTED_MEDIA_TYPE=415, RANGE_NOT_SATISFIABLE=416, EXPECTATION_FAILED=417, IM_A_TEAPOT=418, MISDIRECTED_REQUEST=421, UNPROCESSABLE_ENTITY=422, LOCKED=423, FAILED_DEPENDENCY=424, UPGRADE_REQUIRED=426, PRECONDITION_REQUIRED=428, TOO_MANY_REQUESTS=429, REQUEST_HEADER_FIELDS_TOO_LARGE=431, UNAVAILABLE_FOR_LEGAL_REASONS=451, INTERNAL_SERVER_ERROR=500, NOT_IMPLEMENTED=501, BAD_GATEWAY=502, SERVICE_UNAVAILABLE=503, GATEWAY_TIMEOUT=504, HTTP_VERSION_NOT_SUPPORTED=505, VARIANT_ALSO_NEGOTIATES=506, INSUFFICIENT_STORAGE=507, LOOP_DETECTED=508, NOT_EXTENDED=510, NETWORK_AUTHENTICATION_REQUIRED=511)
def build(root, tpl_path, seen=None):
    """returns (verus text, [info per extracted item], line map [(first,last,label)])"""
    tpl = open(tpl_path, encoding="utf-8").read().split("\n")
    cache, out, info, regions = {}, [], [], []
    if seen is None: seen = {os.path.basename(tpl_path)}
    def S(rel):
        if rel not in cache: cache[rel] = Source(root, rel)
        return cache[rel]
    try: msrc = S("src/macros.rs")
    except Lost: msrc = None
    i = 0
    lineno = lambda: sum(x.count("\n") + 1 for x in out) + 1
    inc = os.path.dirname(tpl_path)
    globs = []
    strs = False
    while i < len(tpl):
        l = tpl[i]
        m = re.match(r'\s*//@(\w+)\s*(.*)$', l)
        if not m: out.append(l); i += 1; continue
        d, a = m.group(1), m.group(2).strip()
        if d in ("include", "import"):
            if a in seen: i += 1; continue
            seen.add(a)
        if d == "include":
            sub, inf, reg = build(root, os.path.join(inc, a), seen)
            sub = re.sub(r"fn main\(\) \{\}\s*$", "", sub)
            base = lineno()
            out.append(sub); info += inf
            regions += [(x + base - 1, y + base - 1, z) for x, y, z in reg]
            i += 1; continue
        if d == "import":
            # another unit by its contracts only: bodies are left out here and verified in that unit
            sub, inf, reg = build(root, os.path.join(inc, a), seen)
            sub = re.sub(r"fn main\(\) \{\}\s*$", "", sub)
            out.append(contracts_only(sub, reg, a)); i += 1; continue
        if d == "strings": strs = True; i += 1; continue
        if d == "hnames":
            # the constants of the standard_headers! list, and the arms of from_bytes
            rel, which = [x.strip() for x in a.split("|")][:2]
            src = S(rel)
            pat = macro_rules(src, "standard_headers")
            if len(pat) != 1: raise Lost("standard_headers! rules")
            bt = norm(text(strip_attrs([t for t in pat[0][1]])))
            if "pub const $upcase:HeaderName=HeaderName::Stand(unsafe{std::str::from_utf8_unchecked($name_bytes)});" not in bt: raise Lost("standard_headers! constants")
            if "match name_bytes{$($name_bytes=>Some(HeaderName::$upcase),)+_=>{Some(HeaderName::Value(std::string::String::from_utf8_lossy(name_bytes).to_string()))},}" not in bt: raise Lost("standard_headers! from_bytes")
            tk = src.toks
            o = next((n for n in range(len(tk)) if tk[n].s == "standard_headers!" and tk[n+1].s == "{" and tk[n-1].s != "macro_rules!"), None)
            if o is None: raise Lost("standard_headers! use")
            body = strip_attrs(tk[o+2:match(tk, o+1)])
            ents, n = [], 0
            while n < len(body):
                if body[n].s == "(":
                    e = match(body, n); x = body[n+1:e]
                    ents.append((x[2].s, str_octets(x[4].s))); n = e + 1
                else: n += 1
            L = []
            base = lineno()
            names = [w.strip() for w in which.split(",")]
            for c, o in ents:
                if which != "ALL" and c not in names: continue
                L.append("pub exec const %s: HeaderName ensures Self::%s.bytes() == seq!%s, Self::%s is Stand { HeaderName::Stand(Str::lit(&%s)) }" % (c, c, arr(o), c, arr(o)))
            if which == "ALL":
                L.append("pub fn from_bytes(name_bytes: &[u8]) -> (r: Option<HeaderName>)")
                L.append("    ensures r is Some, r->0.bytes() == lossy(name_bytes@), utf8(name_bytes@) ==> r->0.bytes() == name_bytes@,")
                L.append("{ proof { lossy_utf8(name_bytes@); if is_ascii(name_bytes@) { ascii_utf8(name_bytes@); } }")
                for c, o in ents: L.append("    if name_bytes == &%s { return Some(HeaderName::%s); }" % (arr(o), c))
                L.append("    Some(HeaderName::Value(Text::from_utf8_lossy(name_bytes).to_string()))\n}")
            out.append("\n".join(L)); regions.append((base, lineno() - 1, "const HeaderName::*"))
            info.append(dict(kind="fn" if which == "ALL" else "const", name="from_bytes" if which == "ALL" else "names", impl="standard_headers!", file=rel, line=tk[0].line, subs=[])); i += 1; continue
        if d == "octets":
            # const NAME: &str = "literal", as its octets
            rel, name = [x.strip() for x in a.split("|")][:2]
            src = S(rel)
            k, n, x, y, ctx = src.item("const", name)
            lit = [t for t in src.toks[x:y] if t.k == "str"]
            if len(lit) != 1: raise Lost("%s is no literal" % name)
            o = str_octets(lit[0].s)
            base = lineno()
            out.append("pub open spec fn %s_octets() -> Seq<u8> { seq!%s }" % (name.lower(), arr(o)))
            out.append("#[verifier::external_body] /* extraction: the octets of the literal */ pub exec const %s: &'static Str ensures %s.bytes() == %s_octets() { Str::lit(&[]) }" % (name, name, name.lower()))
            regions.append((base, lineno() - 1, "const %s" % name))
            info.append(dict(kind="const", name=name, file=rel, line=src.toks[x].line)); i += 1; continue
        if d == "consts":
            # the constants of one impl: texts with their octets, enum values as they are
            rel, hdr = [x.strip() for x in a.split("|")][:2]
            src = S(rel); L = []
            for k, n, x, y, ctx in src.items:
                if k != "const" or ctx != norm(hdr): continue
                t = src.toks[x:y]
                eq = next(j for j, q in enumerate(t) if q.s == "=")
                ty, val = norm(text(t[3:eq])), t[eq+1:-1]
                if ty in ("&'static str", "&str") and len(val) == 1 and val[0].k == "str":
                    o = str_octets(val[0].s)
                    L.append("pub exec const %s: &'static Str ensures Self::%s.bytes() == seq!%s { Str::lit(&%s) }" % (n, n, arr(o), arr(o)))
                elif re.fullmatch(r'\w+::\w+|\d+', norm(text(val))) : L.append("pub const %s: %s = %s;" % (n, ty, text(val)))
                else: continue
                info.append(dict(kind="const", name=n, impl=hdr, file=rel, line=t[0].line))
            base = lineno(); out.append("\n".join(L)); regions.append((base, lineno() - 1, "const %s::*" % hdr)); i += 1; continue
        if d == "statuses":
            rel = a; src = S(rel)
            rules = macro_rules(src, "status_codes")
            if len(rules) != 1: raise Lost("status_codes! rules")
            bt = norm(text(strip_attrs(rules[0][1])))
            if norm("pub const $konst: StatusCode = StatusCode(unsafe { NonZeroU16::new_unchecked($num) });") not in bt: raise Lost("status_codes! constants")
            if norm("fn canonical_reason(num: u16) -> Option<&'static str> { match num { $( $num => Some($phrase), )+ _ => None } }") not in bt: raise Lost("status_codes! canonical_reason")
            tk = src.toks
            o = next((n for n in range(len(tk)) if tk[n].s == "status_codes!" and tk[n+1].s == "{"), None)
            if o is None: raise Lost("status_codes! use")
            body = strip_attrs(tk[o+2:match(tk, o+1)])
            ents, n = [], 0
            while n < len(body):
                if body[n].s == "(":
                    e = match(body, n); x = body[n+1:e]
                    if len(x) != 5: raise Lost("status_codes! entry")
                    ents.append((int(x[0].s), x[2].s, str_octets(x[4].s))); n = e + 1
                else: n += 1
            base = lineno()
            out.append("impl StatusCode {")
            for num, c, _ in ents: out.append("    pub exec const %s: StatusCode ensures Self::%s.wf()%s { StatusCode(NonZeroU16::new_unchecked(%d)) }" % (c, c, ", Self::%s.code() == %d" % (c, STATUS_NAMES[c]) if c in STATUS_NAMES else "", num))
            out.append("}")
            regions.append((base, lineno() - 1, "const StatusCode::*")); base = lineno()
            out.append("pub fn canonical_reason(num: u16) -> (r: Option<&'static Str>)\n    ensures r is Some ==> registered(num) == Some(r->0.bytes()), r is None ==> !standard(num)\n{")
            out.append("    match num {\n" + "\n".join("        %d => Some(Str::lit(&%s))," % (num, arr(ph)) for num, _, ph in ents) + "\n        _ => None\n    }\n}")
            regions.append((base, lineno() - 1, "canonical_reason"))
            info.append(dict(kind="fn", name="canonical_reason", impl="status_codes!", file=rel, line=tk[o].line, subs=[])); i += 1; continue
        if d == "globsub":
            p, r = a.split(" => ") if " => " in a else (a.split(" =>")[0], "")
            globs.append((False, p, r)); i += 1; continue
        if d == "item":
            rel, kind, name = [x.strip() for x in a.split("|")][:3]
            src = S(rel)
            k, n, x, y, _ = src.item(kind, name)
            tx = expand(strip_attrs(src.toks[x:y]), msrc)
            if strs: tx = strings(tx)
            tx = text(tx)
            i += 1
            while i < len(tpl) and re.match(r'\s*//@sub\b', tpl[i]):
                p, _, r = re.match(r'\s*//@sub\s+(.*)$', tpl[i]).group(1).partition(" =>")
                tx = re.sub(p, r.strip(), tx); i += 1
            for _, p, r in globs: tx = re.sub(p, r, tx)
            opts = dict(p.split("=", 1) for p in [x.strip() for x in a.split("|")][3:] if "=" in p)
            if kind == "struct": tx = pub_fields(tx)
            if "derive" in opts: tx = "@DERIVE@" + tx
            tx = "pub " + tx
            tx = tx.replace("pub @DERIVE@", "#[derive(%s)]\npub " % opts.get("derive", ""))
            base = lineno(); out.append(tx); regions.append((base, lineno() - 1, "%s %s" % (kind, name)))
            info.append(dict(kind=kind, name=name, file=rel, line=src.toks[x].line)); continue
        if d == "bitflags":
            rel, name = [x.strip() for x in a.split("|")][:2]
            ty, consts, ln = bitflags_of(S(rel), name)
            out.append(bitflags_text(name, ty, consts))
            info.append(dict(kind="bitflags", name=name, file=rel, line=ln)); i += 1; continue
        if d == "bytemap":
            # a `const NAME: [bool; 256] = byte_map![..]`, given as the Seq of its values and as an exec array
            rel, name = [x.strip() for x in a.split("|")][:2]
            src = S(rel)
            k, n, x, y, _ = src.item("const", name)
            nums = re.findall(r'\b[01]\b', text(src.toks[x:y]).split("!", 1)[1])
            if len(nums) != 256: raise Lost("%s: %d entries" % (name, len(nums)))
            fn = name.lower()
            yes = [j for j, v in enumerate(nums) if v == "1"]
            out.append("pub const %s: [bool; 256] = [%s];" % (name, ", ".join("true" if v == "1" else "false" for v in nums)))
            info.append(dict(kind="const", name=name, file=rel, line=src.toks[x].line)); i += 1; continue
        if d == "fn":
            parts = [x.strip() for x in a.split("|")]
            rel, hdr, name = parts[0], parts[1], parts[2]
            opts = dict(p.split("=", 1) for p in parts[3:] if "=" in p)
            spec, subs, ret, loopspec, at = "", list(globs), None, {}, {}
            cur, i = None, i + 1
            buf, inl, desug, strm = [], [], [], False
            def flush():
                nonlocal spec
                s = "\n".join(buf)
                if cur is None: return
                if cur == "spec": spec += s
                elif isinstance(cur, int): loopspec[cur] = s
                else: at[cur[1] if cur[0] == "at" and len(cur) == 2 else (cur[1], cur[2])] = s
            while True:
                if i >= len(tpl): raise Exception("//@fn without //@end: " + a)
                m2 = re.match(r'\s*//@(\w+)\s*(.*)$', tpl[i])
                if m2:
                    dd, aa = m2.group(1), m2.group(2).strip()
                    if dd in ("spec", "loop", "at", "end"): flush(); buf = []
                    if dd == "spec": cur = "spec"
                    elif dd == "loop": cur = int(aa)
                    elif dd == "at":
                        w = aa.split()
                        cur = ("at", w[0]) if len(w) == 1 else ("at", w[0], int(w[1]))
                    elif dd == "ret": ret = aa
                    elif dd == "strmatch": strm = True
                    elif dd == "forloop": desug.append(int(aa))
                    elif dd == "inline": inl.append(Fn(S(rel), *[x.strip() for x in aa.split("|")], msrc))
                    elif dd in ("sub", "mustsub"):
                        p, _, r = aa.partition(" =>")
                        subs.append((dd == "mustsub", p, r.strip()))
                    elif dd == "end": i += 1; break
                else: buf.append(tpl[i])
                i += 1
            f = Lazy(S(rel), name, msrc) if hdr == "lazy_static" else Fn(S(rel), hdr, name, msrc)
            for g in inl: f.body = (inline_closure if len(params(g)) == 2 else inline_call)(f.body, g)
            if strs: f.body = strings(formats(f.body))
            if strm: f.body = strmatch(f.body)
            tx = render(f, spec, subs, ret, loopspec, at, opts.get("as"), desug)
            base = lineno(); out.append(tx)
            regions.append((base, lineno() - 1, "%s::%s" % (hdr, name)))
            info.append(dict(kind="fn", name=name, impl=hdr, file=rel, line=f.line, subs=[p for (_, p, _) in subs]))
            continue
        raise Exception("unknown directive " + l)
    return "\n".join(out), info, regions

if __name__ == "__main__":
    t, inf, reg = build(sys.argv[1], sys.argv[2])
    print(t)
    for x in inf: print("//", x, file=sys.stderr)
