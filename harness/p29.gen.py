#!/usr/bin/env python3
"""p29.gen.py SEED UNITS OUTDIR - writes random programs for P29 (p29_g<k>.cpp), one unit per file.

Each unit: a namespace of classes with random members, reflected by random parts of the DSL, global
functions and variables, a class template, and next to them a description of what was declared and the
uses of it, directly and through reflection.
"""
import random, sys

# key: (C++ spelling, reflected name, pool array)
TY = {
    "int": ("int", "int", "i"), "long": ("long", "long int", "l"), "double": ("double", "double", "d"), "bool": ("bool", "bool", "b"), "char": ("char", "char", "c"),
    "str": ("std::string", "std::string", "s"), "vec": ("std::vector<int>", "std::vector<int>", "v"), "obj": ("p29::Obj", "p29::Obj", "o"),
    "base": ("p29::Base", "p29::Base", "ba"), "der": ("p29::Derived", "p29::Derived", "de"), "color": ("p29::Color", "p29::Color", "k"),
    "pobj": ("p29::Obj*", "p29::Obj*", "po"), "pbase": ("p29::Base*", "p29::Base*", "pb"), "sobj": ("std::shared_ptr<p29::Obj>", "std::shared_ptr<p29::Obj>", "so"),
}
KEYS = list(TY)
MODES = ["val", "cref", "ref", "rref"]
BINARY = {"+": "Plus", "-": "Minus", "*": "Mult", "/": "Div", "%": "Mod", "&": "BitAnd", "|": "BitOr", "^": "BitXor", "<<": "BitLShift", ">>": "BitRShift",
          "&&": "LogicAnd", "||": "LogicOr", "==": "EqComp", "!=": "NEComp", "<": "LTComp", ">": "GTComp", "<=": "LEComp", ">=": "GEComp", "[]": "Array"}
ASSIGN = {"+=": "PlusAssign", "-=": "MinusAssign", "*=": "MultAssign", "/=": "DivAssign", "%=": "ModAssign", "&=": "BitAndAssign", "|=": "BitOrAssign", "^=": "BitXorAssign", "<<=": "BitLShiftAssign", ">>=": "BitRShiftAssign"}
UNARY = {"~": "BitNot", "!": "LogicNot", "*": "Indirection", "-": "Minus", "+": "Plus"}
GROUPS = {
    "reflectOpAssign": list(ASSIGN), "reflectOpIncDec": ["++", "--"],
    "reflectOpArithmetic": ["+", "-", "*2", "/", "%", "~", "&", "|", "^", "<<", ">>"],
    "reflectOpLogical": ["!", "&&", "||"], "reflectOpComparaison": ["==", "!=", "<", ">", "<=", ">="], "reflectOpOther": ["()", "[]", "*1"],
}
GROUPS["reflectOperators"] = [o for g in list(GROUPS) for o in GROUPS[g]]
NAME = dict(BINARY); NAME.update(ASSIGN); NAME.update({"~": "BitNot", "!": "LogicNot", "()": "Function", "*2": "Mult", "*1": "Indirection"})


def cxx(t, mode):
    b = TY[t][0]
    return {"val": b, "cref": b + " const&", "ref": b + "&", "rref": b + "&&", "ptr": b}[mode]


def sig(t, mode):
    b = TY[t][1]
    return {"val": b, "cref": b + " const&", "ref": b + "&", "rref": b + "&&"}[mode]


class Fn:
    pass


class Unit:
    def __init__(self, rnd, k):
        self.r, self.k, self.ns = rnd, k, "gen%d" % k
        self.head, self.refl, self.desc, self.classes = [], [], [], []
        self.counter = 0

    def c(self, p):
        return self.r.random() < p

    def args(self, n=None, avoid=()):
        """Parameters: list of (type, mode)."""
        if n is None:
            n = self.r.choice([0, 0, 1, 1, 1, 2, 2, 3, 4, 5])
        out = []
        for _ in range(n):
            t = self.r.choice([k for k in KEYS if k not in avoid])
            m = self.r.choice(MODES)
            out.append((t, m))
        return out

    def slots(self, args):
        """For each parameter the expression it gets from the pool p, each from another slot."""
        used, out, after = {}, [], []
        for t, m in args:
            src = t
            if t == "base" and m in ("ref", "cref", "val") and self.c(0.4):
                src = "der"                              # a child where the parent is wanted
            arr = TY[src][2]
            if t == "pbase" and m == "val" and self.c(0.4):
                arr = "pd"
            i = used.get(arr, 0) % 7
            used[arr] = i + 1
            e = "p.%s[%d]" % (arr, i)
            ty = {"de": "p29::Derived", "pd": "p29::Derived*"}.get(arr, TY[t][0])
            if m == "ref":
                pass
            elif m == "rref":
                if self.c(0.5):
                    after.append((arr, i, ty)); e = "std::move(%s)" % e
                else:
                    e = "p29::mk<%s>(%d)" % (ty, self.r.randrange(50))
            else:
                w = self.r.randrange(5)
                if w == 0:
                    e = "const_cast<const std::remove_reference<decltype(%s)>::type&>(%s)" % (e, e)
                elif w == 1 and arr != "pd":
                    e = "p29::mk<%s>(%d)" % (ty, self.r.randrange(50))
                elif w == 2:
                    after.append((arr, i, ty)); e = "std::move(%s)" % e
            out.append(e)
        # what was moved from is not compared
        reset = "".join(" p29::clear(p.%s[%d]);" % (a, i) for a, i, ty in after)
        return out, reset

    def fnbody(self, tag, self_state, args, ret, const, cls):
        """The body of a function: records what it sees, changes what it may, returns something."""
        b = ['std::string seen = "%s(";' % tag]
        if self_state:
            b.append("seen += p29::show(tag);")
        for i, (t, m) in enumerate(args):
            if m == "rref":
                b.append('seen += "," + p29::take(a%d);' % i)
            else:
                b.append('seen += "," + p29::show(a%d);' % i)
            if m in ("ref",) or m == "val":
                b.append("p29::poke(a%d);" % i)
        b.append("p29::note(seen);")
        if self_state and not const:
            b.append("p29::poke(tag);")
        b.append(ret["expr"])
        return " ".join(b)

    def ret(self, args, const, cls, static):
        """A return type: C++ text, signature text and the statement."""
        n = self.r.randrange(1000)
        opts = [("void", "void", "")] * 3
        for _ in range(6):
            t = self.r.choice(KEYS)
            opts.append((TY[t][0], TY[t][1], "return p29::mk<%s>(%s);" % (TY[t][0], ("int(tag %% 1000) + %d" % n) if cls and not static else str(n))))
        for i, (t, m) in enumerate(args):
            if m == "ref":
                opts.append((cxx(t, "ref"), sig(t, "ref"), "return a%d;" % i))
                opts.append((cxx(t, "cref"), sig(t, "cref"), "return a%d;" % i))
        if cls and not static:
            for f in cls["ownfields"]:
                if f["ty"] in TY:
                    opts.append((cxx(f["ty"], "cref"), sig(f["ty"], "cref"), "return %s;" % f["name"]))
                    if not const and not f["const"]:
                        opts.append((cxx(f["ty"], "ref"), sig(f["ty"], "ref"), "return %s;" % f["name"]))
            if const:
                opts.append(("const %s&" % cls["q"], cls["q"] + " const&", "return *this;"))
            else:
                opts.append((cls["q"] + "&", cls["q"] + "&", "return *this;"))
            if cls["simple"] and cls["plumbing"]:         # results by value take reflected constructors
                opts.append((cls["q"], cls["q"], "return *this;"))
        c, s, e = self.r.choice(opts)
        return {"c": c, "s": s, "expr": e}

    def params(self, args):
        return ", ".join("%s a%d" % (cxx(t, m), i) for i, (t, m) in enumerate(args))

    def ptypes(self, args):
        return ", ".join(cxx(t, m) for t, m in args)

    def psigs(self, args):
        return ", ".join(sig(t, m) for t, m in args)

    def quote(self, s):
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

    # ------------------------------------------------------------------ classes

    def gen_class(self, idx):
        r = self.r
        ns = self.ns + r.choice(["", "", "::in", "::in::deep"])
        name = "C%d" % idx
        q = ns + "::" + name
        bases = [i for i, c in enumerate(self.classes) if c["simple"]]
        parent = r.choice(bases) if bases and self.c(0.5) else -1
        simple = self.c(0.65)
        c = {"name": name, "q": q, "ns": ns, "parent": parent, "simple": simple, "ownfields": [], "fns": [], "idx": idx}
        c["plumbing"] = self.c(0.75) if not simple else self.c(0.85)
        P = self.classes[parent] if parent >= 0 else None
        poly = P["poly"] if P else self.c(0.3)       # a base is polymorphic whenever a child is
        c["poly"] = poly

        # --- fields
        fields = []
        for i in range(r.choice([0, 1, 2, 3, 5])):
            t = r.choice(KEYS + ["short", "ulong"])
            ready = [x for x in self.classes if x["simple"] and x["plumbing"]]
            if ready and self.c(0.15):
                k = r.choice(ready)
                fields.append({"name": "f%d_%d" % (idx, i), "ty": None, "c": k["q"], "s": k["q"], "const": False, "align": ""})
                continue
            if t == "short": cc, ss, t = "short", "short int", None
            elif t == "ulong": cc, ss, t = "unsigned long", "unsigned long int", None
            else: cc, ss = TY[t][0], TY[t][1]
            const = not simple and self.c(0.2)
            fields.append({"name": "f%d_%d" % (idx, i), "ty": t, "c": cc, "s": ss, "const": const, "align": "alignas(16) " if self.c(0.08) else ""})
        c["ownfields"] = fields
        anyconst = any(f["const"] for f in fields)

        body = []
        if poly and not P: body.append("virtual ~%s() {}" % name)
        # tag comes first in the root, so that every class has one
        if not P: body.append("int tag;")
        order = fields[:]
        r.shuffle(order)
        for f in order:
            body.append("%s%s%s %s;" % (f["align"], f["c"], " const" if f["const"] else "", f["name"]))
        inits = []
        if P: inits.append("%s(p29::Key(), n)" % P["q"])
        else: inits.append("tag(n)")
        for f in order:
            inits.append("%s(%s)" % (f["name"], "p29::Key(), n + 1" if f["ty"] is None and f["c"].startswith("gen") else "p29::mk<%s>(n + %d)" % (f["c"], r.randrange(9))))
        body.append("%s(p29::Key, int n) : %s {}" % (name, ", ".join(inits)))
        st = ['std::string s = %s;' % ("%s::p29state()" % P["q"] if P else '"{" + p29::show(tag)')]
        for f in order: st.append('s += "," + p29::show(%s);' % f["name"])
        body.append("std::string p29state() const { %s return s; }" % " ".join(st))

        # --- special members
        def inits_from(o, wrap):
            l = [("%s(%s)" % (P["q"], wrap % o)) if P else "tag(%s.tag)" % o]
            l += ["%s(%s)" % (f["name"], wrap % ("%s.%s" % (o, f["name"]))) for f in order]
            return ", ".join(l)
        def assigns_from(o, wrap):
            l = [("%s::operator=(%s);" % (P["q"], wrap % o)) if P else "tag = %s.tag;" % o]
            l += ["%s = %s;" % (f["name"], wrap % ("%s.%s" % (o, f["name"]))) for f in order]
            return " ".join(l)
        dinit = ["tag(%d)" % r.randrange(99)] if not P else ["%s()" % P["q"]]
        for f in order: dinit.append("%s(%s)" % (f["name"], "p29::Key(), 3" if f["ty"] is None and f["c"].startswith("gen") else "p29::mk<%s>(%d)" % (f["c"], r.randrange(9))))
        dtext = "%s()%s {}" % (name, " : " + ", ".join(dinit) if dinit else "")
        bare = False
        if simple:
            if self.c(0.6):
                body.append(dtext)
                body.append("%s(const %s& o) : %s { ++p29::copies; }" % (name, name, inits_from("o", "%s")))
                body.append("%s(%s&& o) : %s { o.tag = -1; }" % (name, name, inits_from("o", "std::move(%s)")))
                body.append("%s& operator=(const %s& o) { %s ++p29::copies; return *this; }" % (name, name, assigns_from("o", "%s")))
                body.append("%s& operator=(%s&& o) { %s o.tag = -1; return *this; }" % (name, name, assigns_from("o", "std::move(%s)")))
            else:
                # a default constructor that initialises nothing: what T() holds then depends on value-initialisation
                if self.c(0.4): body.append("%s() = default;" % name); bare = True
                else: body.append(dtext)
                for l in ("%s(const %s&) = default;", "%s(%s&&) = default;", "%s& operator=(const %s&) = default;", "%s& operator=(%s&&) = default;"): body.append(l % (name, name))
        else:
            # any combination
            section = []
            k = r.choice(["user", "deleted", "absent", "private"])
            if k == "user": body.append(dtext)
            elif k == "deleted": body.append("%s() = delete;" % name)
            elif k == "private": section.append(dtext)
            movable_ops = {
                "cc": ("%s(const %s& o)" % (name, name), " : %s { ++p29::copies; }" % inits_from("o", "%s")),
                "mc": ("%s(%s&& o)" % (name, name), " : %s { o.tag = -1; }" % inits_from("o", "std::move(%s)")),
                "ca": ("%s& operator=(const %s& o)" % (name, name), " { %s ++p29::copies; return *this; }" % assigns_from("o", "%s")),
                "ma": ("%s& operator=(%s&& o)" % (name, name), " { %s o.tag = -1; return *this; }" % assigns_from("o", "std::move(%s)")),
            }
            for key, (decl, text) in movable_ops.items():
                kinds = ["user", "default", "deleted", "absent", "private"]
                if anyconst and key in ("ca", "ma"): kinds = ["default", "deleted", "absent"]
                k = r.choice(kinds)
                if k == "user": body.append(decl + text)
                elif k == "default": body.append(decl + " = default;")
                elif k == "deleted": body.append(decl + " = delete;")
                elif k == "private": section.append(decl + text)
            if section: body.append("private: " + " ".join(section) + " public:")

        # --- what is reflected
        refl, expect, sites, conses, ftraits, fntraits, traits = [], [], [], [], [], [], []
        if P: refl.append("reflectParent(%s);" % P["q"])
        alloc = r.choice(["", "", "plumbing", "alloc"])
        if alloc == "alloc" and (bare or not simple): alloc = "plumbing"      # reflectAlloc leaves a bare one uninitialised
        if c["plumbing"]: refl.append("reflectPlumbing();")
        if alloc == "plumbing": refl.append("reflectAllocPlumbing();")
        if alloc == "alloc": refl.append("reflectAlloc();")

        def traits_on(macro, what, owner, out):
            for t in r.sample(["red", "green", "blue", "x1"], r.choice([0, 0, 0, 1, 2])):
                out.append((owner, t))
                refl.append(("%sTrait(%s, %s);" % (macro, what, t)) if self.c(0.5) else "%sValue(%s, %s, %d);" % (macro, what, t, r.randrange(9)))

        reflected_fields = [f for f in fields if self.c(0.85)]
        for f in reflected_fields:
            refl.append("reflectField(%s);" % f["name"])
            traits_on("reflectField", f["name"], f["name"], ftraits)
        c["rfields"] = reflected_fields

        def site(fnname, text, args, call, rcall_fn, ret, valued=True, static=False):
            sl, reset = self.slots(args)
            a = ", ".join(sl)
            direct = "[] (void* self, size_t size, p29::Pool& p) -> std::string { (void) self; (void) size; p29::Where w = { &p, self, size }; std::string s = p29::Result<%s>::of(w, [&] () -> %s { return %s; });%s return s; }" % (ret, ret, call.replace("ARGS", a), reset)
            selfarg = "" if static else "*static_cast<%s*>(self)" % q
            full = ", ".join(x for x in (selfarg, a) if x)
            refl_ = "[] (const reflect::Type* t, void* self, size_t size, p29::Pool& p) -> std::string { p29::Where w = { &p, self, size }; std::string s = p29::Result<%s>::of(w, [&] () -> %s { return t->call<%s>(%s); });%s return s; }" % (ret, ret, ret, ", ".join(x for x in (self.quote(fnname), full) if x), reset)
            val = "nullptr"
            if valued and not static:
                val = "[] (void* self, size_t size, p29::Pool& p) -> std::string { p29::Where w = { &p, self, size }; reflect::Value v(*static_cast<%s*>(self)); std::string s = p29::Result<%s>::of(w, [&] () -> %s { return v.call<%s>(%s); });%s return s; }" % (q, ret, ret, ret, ", ".join(x for x in (self.quote(fnname), a) if x), reset)
            sites.append("{ %s, %s,\n        %s,\n        %s,\n        %s }" % (self.quote(fnname), self.quote(text), direct, refl_, val))

        # --- member functions
        names = []
        for i in range(r.choice([1, 2, 3, 4, 6])):
            if P and P["fnnames"] and self.c(0.2): fn = r.choice(P["fnnames"])      # hides or overrides
            else: fn = "m%d_%d" % (idx, i)
            if fn in names: continue
            names.append(fn)
            kind = r.choice(["method", "method", "method", "method", "static", "overload", "custom"])
            group = []
            if kind == "overload":
                for n in r.sample(range(0, 5), r.choice([2, 3])): group.append(self.args(n))
            else: group.append(self.args())
            hidden_virtual = P and any(f == fn for f in P["fnnames"])
            for j, args in enumerate(group):
                static = kind == "static"
                const = self.c(0.5) and not static
                ret = self.ret(args, const, c, static or kind == "custom" and False)
                tag = "%s::%s#%d" % (q, fn, j)
                selfsig = q + (" const&" if const else "&")
                signature = "%s(%s)" % (ret["s"], ", ".join(x for x in ("" if static else selfsig, self.psigs(args)) if x))
                if kind == "custom":
                    # a lambda that forwards to a member the class has under another name
                    body.append("%s c_%s(%s)%s { %s }" % (ret["c"], fn, self.params(args), " const" if const else "", self.fnbody(tag, True, args, ret, const, c)))
                    fw = ", ".join(("std::move(a%d)" % i) if m in ("rref", "val") else "a%d" % i for i, (t, m) in enumerate(args))
                    refl.append("reflectCustom(%s) (%s%s& self%s) -> %s { return self.c_%s(%s); };" % (fn, "const " if const else "", q, ", " + self.params(args) if args else "", ret["c"], fn, fw))
                    call = "static_cast<%s*>(self)->%s::c_%s(ARGS)" % (q, name, fn)
                else:
                    virt = "virtual " if poly and not static and kind == "method" and not hidden_virtual and self.c(0.4) else ""
                    body.append("%s%s%s %s(%s)%s { %s }" % ("static " if static else "", virt, ret["c"], fn, self.params(args), " const" if const else "", self.fnbody(tag, not static, args, ret, const, c)))
                    if kind == "overload" or self.c(0.25):
                        ptr = "%s (%s*)(%s)" % (ret["c"], "" if static else q + "::", self.ptypes(args)) + (" const" if const else "")
                        refl.append("{ using Sig = %s; reflectFnTyped(%s, Sig); }" % (ptr, fn))
                    else:
                        refl.append("reflectFn(%s);" % fn)
                    call = ("%s::%s(ARGS)" % (q, fn)) if static else "static_cast<%s*>(self)->%s(ARGS)" % (q, fn)
                expect.append((fn, signature))
                site(fn, "%s %s::%s(%s)" % (ret["c"], q, fn, self.ptypes(args)), args, call, fn, ret["c"], static=static)
            traits_on("reflectFn", fn, fn, fntraits)
        c["fnnames"] = names + (P["fnnames"] if P else [])

        # a member of the base, reflected again by the child
        if P:
            own = [x for x in P["plain"] if x["fn"] not in names]
            if own and self.c(0.3):
                x = r.choice(own)
                refl.append("reflectFn(%s);" % x["fn"])
                expect.append((x["fn"], x["sig"]))
        c["plain"] = [dict(fn=e[0], sig=e[1]) for e in expect if "custom" not in e[0] and sum(1 for y in expect if y[0] == e[0]) == 1 and ("reflectFn(%s);" % e[0]) in refl]

        # --- operators
        ops = {}           # op -> list of (args, ret, const, canonical)
        opbody = []
        if self.c(0.6):
            pool_ = list(BINARY) + list(ASSIGN) + ["~", "!", "u*", "u-", "u+", "()", "++", "--"]
            for op in r.sample(pool_, r.choice([1, 3, 6, 12])):
                if op in ("++", "--"):
                    for post in (False, True):
                        if self.c(0.3): continue
                        if post and not (simple and c["plumbing"]): continue
                        canonical = self.c(0.8)
                        rc = (q if post else q + "&") if canonical else "void"
                        a = [("int", "val")] if post else []
                        ret = {"c": rc, "s": rc, "expr": "" if not canonical else "return *this;"}
                        ops.setdefault(op, []).append((a, ret, False, canonical))
                    continue
                name_ = op.replace("u", "")
                n = {"u": 0, "~": 0, "!": 0}.get(op[0], 1)
                if op == "!=": n = 1
                if op == "()": n = r.choice([0, 1, 2, 3])
                const = self.c(0.6) and op not in ASSIGN
                args = self.args(n, avoid=("bool",) if op in ("&&", "||") else ())
                ret = self.ret(args, const, c, False)
                ops.setdefault(name_, []).append((args, ret, const, True))
            # now and then a second one of the same name
            for op in list(ops):
                if op not in ("++", "--", "()", "~", "!") and len(ops[op]) == 1 and self.c(0.12):
                    a0 = ops[op][0][0]
                    other = [k for k in KEYS if not a0 or k != a0[0][0]]
                    args = [(r.choice(other), "cref")]
                    ops[op].append((args, self.ret(args, True, c, False), True, True))
        for op, l in ops.items():
            for j, (args, ret, const, canonical) in enumerate(l):
                tag = "%s::operator%s#%d" % (q, op, j)
                body.append("%s operator%s(%s)%s { %s }" % (ret["c"], op, self.params(args), " const" if const else "", self.fnbody(tag, True, args, ret, const, c)))
        c["ops"] = ops
        # which are seen by &C::op: those of the class, or if it has none of the name those of its nearest base
        def visible(op):
            k = c
            while k is not None:
                if k["ops"].get(op): return k, k["ops"][op]
                k = self.classes[k["parent"]] if k["parent"] >= 0 else None
            return None, []
        groups = []
        if self.c(0.7):
            groups = ["reflectOperators"] if self.c(0.5) else r.sample([g for g in GROUPS if g != "reflectOperators"], r.choice([1, 2, 4]))
        elif ops: groups = ["single"]
        done = set()
        for g in groups:
            if g == "single":
                todo = []
                for op in ops:
                    if op in ("++", "--"): continue
                    if op == "*": tok = "*1" if not ops[op][0][0] else "*2"
                    else: tok = op
                    todo.append(tok); refl.append("reflectOp(operator%s, %s);" % (op, NAME[tok]))
            else:
                todo = GROUPS[g]; refl.append(g + "();")
            for tok in todo:
                op = {"*1": "*", "*2": "*"}.get(tok, tok)
                owner, l = visible(op)
                if not l: continue
                if op in ("++", "--"):
                    if owner is not c: continue           # these are looked for with the class's own type in the signature
                    sel = [x for x in l if x[3]]
                else:
                    if len(l) != 1: continue              # overloaded: no telling which is meant
                    if tok == "*1" and len(l[0][0]) != 0: continue
                    if tok == "*2" and len(l[0][0]) != 1: continue
                    sel = l
                for args, ret, const, canonical in sel:
                    fn = "operator" + op
                    s_ = "%s(%s)" % (ret["s"], ", ".join(x for x in (owner["q"] + (" const&" if const else "&"), self.psigs(args)) if x))
                    if (fn, s_) in done: raise SystemExit("duplicate operator " + fn)
                    done.add((fn, s_)); expect.append((fn, s_))
                    if owner is c:
                        site(fn, "%s %s::%s(%s)" % (ret["c"], q, fn, self.ptypes(args)), args, "static_cast<%s*>(self)->operator%s(ARGS)" % (q, op), fn, ret["c"])

        # --- conversions
        for t, spell in r.sample([("int", "int"), ("bool", "bool"), ("double", "double"), ("str", "std::string"), ("obj", "p29::Obj")], r.choice([0, 0, 0, 1, 2])):
            if P and any(t == x for x in P["casts"]): continue
            tag = "%s::operator %s" % (q, spell)
            body.append('operator %s() const { p29::note("%s(" + p29::show(tag)); return p29::mk<%s>(int(tag %% 1000) + 2); }' % (spell, tag, spell))
            refl.append("reflectOpCast(%s);" % spell)
            fn = "operator %s()" % spell
            expect.append((fn, "%s(%s const&)" % (TY[t][1], q)))
            c.setdefault("casts", []).append(t)
            site(fn, tag, [], "static_cast<const %s*>(self)->operator %s()" % (q, spell), fn, TY[t][0])
        c["casts"] = c.get("casts", []) + (P["casts"] if P else [])

        # --- constructors
        if simple:
            for n in r.sample([1, 2, 3, 4], r.choice([0, 0, 1, 2])):
                args = self.args(n, c["casts"] if n == 1 else ())      # or copying the class could be converting it
                seen = ['std::string seen = "%s(";' % q]
                for i, (t, m) in enumerate(args):
                    seen.append('seen += "," + p29::%s(a%d);' % ("take" if m == "rref" else "show", i))
                    if m == "ref": seen.append("p29::poke(a%d);" % i)
                tagset = "tag = %d;" % (r.randrange(1000))
                body.append("explicit %s(%s) : %s(p29::Key(), %d) { %s p29::note(seen); %s }" % (name, self.params(args), name, r.randrange(99), " ".join(seen), tagset))
                refl.append("reflectCons(%s);" % self.ptypes(args))
                expect.append((q, "%s(%s)" % (q, self.psigs(args))))
                sl, reset = self.slots(args); a = ", ".join(sl)
                conses.append("{ %s,\n        [] (p29::Pool& p) -> std::string { std::string s; { %s x(%s); s = p29::show(x); }%s return s; },\n        [] (const reflect::Type* t, p29::Pool& p) -> std::string { std::string s; { reflect::Value v = t->construct(%s); s = p29::show(v.get<%s>()); }%s return s; } }"
                    % (self.quote("%s(%s)" % (q, self.ptypes(args))), q, a, reset, a, q, reset))

        # --- traits of the class
        for t in r.sample(["alpha", "beta", "gamma"], r.choice([0, 0, 1, 2])):
            traits.append(t); refl.append("reflectTypeTrait(%s);" % t if self.c(0.5) else "reflectTypeValue(%s, std::string(\"v\"));" % t)

        # the parent has to come first for the lookups of reflectFnTrait; the rest in any order of declaration
        nsopen = " ".join("namespace %s {" % x for x in ns.split("::")); nsclose = " }" * len(ns.split("::"))
        self.head.append("%s\nstruct %s%s\n{\n    %s\n};\n%s" % (nsopen, name, " : public " + P["q"] if P else "", "\n    ".join(body), nsclose))
        self.refl.append("reflectType(%s)\n{\n    %s\n}" % (q, "\n    ".join(refl)))
        fs = []
        for f in reflected_fields:
            assignable = f["ty"] is not None
            cc = ("const " if f["const"] else "") + f["c"]
            direct = "static_cast<%s*>(self)->%s" % (q, f["name"])
            slot = "p.%s[%d]" % (TY[f["ty"]][2], r.randrange(7)) if assignable else ""
            fs.append("{ %s, %s, %s,\n        [] (void* self) -> void* { return (void*)&%s; },\n        [] (reflect::Value& f) { return p29::show(f.get<%s>()); }, [] (void* self) { return p29::show(%s); },\n        %s, %s }"
                % (self.quote(f["name"]), self.quote(f["s"]), "true" if f["const"] else "false", direct, f["c"], direct,
                   "[] (void* self, p29::Pool& p) { (void) self; (void) p; %s }" % ("%s = %s;" % (direct, slot) if not f["const"] else "") if assignable else "nullptr",
                   "[] (reflect::Value& f, p29::Pool& p) { f.assign(%s); }" % slot if assignable else "nullptr"))
        pairs = lambda l: "{ " + ", ".join("{ %s, %s }" % (self.quote(a), self.quote(b)) for a, b in l) + " }"
        T = "p29::%s<" + q + ">"
        self.desc.append("{ %s, %d, &%s, &%s, sizeof(%s), &%s, &%s, &%s, &%s,\n      %s, %s, %s, %s(), %s(),\n      %s,\n      %s, %s, { %s },\n      { %s },\n      { %s },\n      { %s } }" % (
            self.quote(q), parent, T % "typeOf", T % "pointerOf", q, T % "makeOf", T % "destroyOf", T % "stateOf", T % "valueOf",
            "true" if c["plumbing"] else "false", "true" if alloc == "plumbing" else "false", "true" if alloc == "alloc" else "false", T % "specials", T % "specialFns",
            pairs(expect), pairs(ftraits), pairs(fntraits), ", ".join(self.quote(t) for t in traits), ",\n      ".join(fs), ",\n      ".join(sites), ",\n      ".join(conses)))
        self.classes.append(c)

    # ------------------------------------------------------------------ the scope

    def gen_scope(self):
        r, refl, expect, sites, head = self.r, [], [], [], []
        def site(fn, args, ret, call, around=("", "", "", "")):
            sl, reset = self.slots(args); a = ", ".join(sl)
            direct = "[] (void*, size_t, p29::Pool& p) -> std::string { p29::Where w = { &p, nullptr, 0 }; %sstd::string s = p29::Result<%s>::of(w, [&] () -> %s { return %s; });%s%s return s; }" % (around[0], ret, ret, call.replace("ARGS", a), around[1], reset)
            how = r.choice(["reflect::scope()->call<%s>(%s)" % (ret, ", ".join(x for x in (self.quote(self.ns + "::" + fn), a) if x)), "reflect::scope(%s)->call<%s>(%s)" % (self.quote(self.ns), ret, ", ".join(x for x in (self.quote(fn), a) if x))])
            via = "[] (const reflect::Type*, void*, size_t, p29::Pool& p) -> std::string { p29::Where w = { &p, nullptr, 0 }; %sstd::string s = p29::Result<%s>::of(w, [&] () -> %s { return %s; });%s%s return s; }" % (around[3], ret, ret, how, around[2], reset)
            sites.append("{ %s, %s,\n        %s,\n        %s, nullptr }" % (self.quote(fn), self.quote("%s %s::%s(%s)" % (ret, self.ns, fn, self.ptypes(args))), direct, via))
        for i in range(r.choice([1, 2, 4])):
            fn = "g%d" % i
            over = self.c(0.3)
            for j, n in enumerate(r.sample(range(5), 2) if over else [None]):
                args = self.args(n); ret = self.ret(args, False, None, True)
                head.append("%s %s(%s) { %s }" % (ret["c"], fn, self.params(args), self.fnbody("%s#%d" % (fn, j), False, args, ret, False, None)))
                refl.append("reflectGlobalFn(%s::%s);" % (self.ns, fn) if not over else "{ using Sig = %s (*)(%s); reflectGlobalFnTyped(%s::%s, Sig); }" % (ret["c"], self.ptypes(args), self.ns, fn))
                expect.append((fn, "%s(%s)" % (ret["s"], self.psigs(args))))
                site(fn, args, ret["c"], "%s::%s(ARGS)" % (self.ns, fn))
        for i in range(r.choice([2, 3, 4])):        # the first one can be set, the second one is changed by others
            t = r.choice([k for k in KEYS if k not in ("pobj", "pbase")]); v = "v%d" % i; const = i == 1 or i > 1 and self.c(0.5)
            if i == 1 or const and self.c(0.5):       # read-only for reflection but changed by others
                head.append("%s %s_ = p29::mk<%s>(%d); %s const& %s = %s_;" % (TY[t][0], v, TY[t][0], r.randrange(50), TY[t][0], v, v))
                refl.append("reflectGlobalVar(%s::%s);" % (self.ns, v))
                expect.append((v, TY[t][1] + "()"))
                full = "%s::%s_" % (self.ns, v); sl, reset = self.slots([(t, "cref")])
                pre, post = "%s old = %s; %s = %s; " % (TY[t][0], full, full, sl[0]), " %s = old;%s" % (full, reset)
                site(v, [], TY[t][0], "%s::%s" % (self.ns, v), (pre, post, post, pre))
                continue
            head.append("%s%s %s = p29::mk<%s>(%d);" % (TY[t][0], " const" if const else "", v, TY[t][0], r.randrange(50)))
            refl.append("reflectGlobalVar(%s::%s);" % (self.ns, v))
            expect.append((v, TY[t][1] + "()"))
            site(v, [], TY[t][0], "%s::%s" % (self.ns, v))
            if not const:
                expect.append((v, "void(%s const&)" % TY[t][1]))
                full = "%s::%s" % (self.ns, v)      # what was set is read back; done directly, it is put back
                site(v, [(t, "cref")], "void", "(void)(%s = ARGS)" % full, ("%s old = %s; " % (TY[t][0], full), " s += p29::show(%s); %s = old;" % (full, full), " s += p29::show(%s);" % full, ""))
        traits = r.sample(["north", "south"], r.choice([0, 1, 2]))
        for t in traits: refl.append("reflectScopeTrait(%s);" % t if self.c(0.5) else "reflectScopeValue(%s, 4);" % t)
        self.head.append("namespace %s {\n%s\n}" % (self.ns, "\n".join(head)))
        self.refl.append("reflectScope(%s)\n{\n    %s\n}" % (self.ns, "\n    ".join(refl)))
        self.scope = (expect, traits, sites)

    def text(self, nclasses):
        for i in range(nclasses): self.gen_class(i)
        self.gen_scope()
        expect, traits, sites = self.scope
        pairs = "{ " + ", ".join("{ %s, %s }" % (self.quote(a), self.quote(b)) for a, b in expect) + " }"
        return "#include \"p29.h\"\n\n%s\n\n%s\n\nnamespace {\nconst p29::Unit& unit()\n{\n    static const p29::Unit u = { %s,\n    { %s },\n    %s, { %s },\n    { %s } };\n    return u;\n}\np29::AddUnit add(&unit());\n}\n" % (
            "\n\n".join(self.head), "\n\n".join(self.refl), self.quote(self.ns), ",\n    ".join(self.desc), pairs, ", ".join(self.quote(t) for t in traits), ",\n    ".join(sites))


def main():
    seed, units, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    for k in range(units):
        rnd = random.Random("%d/%d" % (seed, k))
        with open("%s/p29_g%d.cpp" % (out, k), "w") as f:
            f.write(Unit(rnd, k).text(8))


if __name__ == "__main__":
    main()
