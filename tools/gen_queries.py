#!/usr/bin/env python3
"""Random SQL statements in the library's C++ notation, each with the same statement over the relational model. usage: gen_queries.py SEED TIER"""
import random, sys
seed, tier = int(sys.argv[1]), sys.argv[2] if len(sys.argv) > 2 else "quick"
R = random.Random(seed * 7919 + 13)
I32, I64, F, S = "int32_t", "int64_t", "double", "std::string"
COLS = []  # (table, name, type, optional)
for t, cs in {"A": [("id", I64, 0), ("x", I32, 0), ("y", I32, 0), ("z", I64, 0), ("d", F, 0), ("s", S, 0), ("o", I32, 1), ("t", S, 1)],
              "B": [("id", I64, 0), ("x", I32, 0), ("s", S, 0), ("o", I32, 1)],
              "C": [("id", I64, 0), ("y", I32, 0), ("e", F, 1)]}.items():
    for c in cs: COLS.append((t,) + c)
def cols(tabs, typ=None, opt=None): return [i for i, c in enumerate(COLS) if c[0] in tabs and (typ is None or c[2] == typ) and (opt is None or c[3] == opt)]
def libcol(i): return f"Col(&{COLS[i][0]}::{COLS[i][1]})"
STR = ["", "a", "A", "ab", "b'", "'", "''", "it''s", "%", "a%", "_", "\"", "a b", "B", "é", "?", ";--", "\\\\", "ba", "NULL", "1"]
PAT = ["%", "_", "a%", "%a", "%b%", "A_", "", "%'%", "a\\\\%", "__", "_%_", "%%", "a", "%a_", "AB"]
USED = {}
def even(form, ops):
    """the least used of the operators in this position, so that every one occurs in every program"""
    u = {o: USED.get((form, o), 0) for o in ops}; o = R.choice([x for x in ops if u[x] == min(u.values())]); USED[(form, o)] = u[o] + 1; return o
def q(s): return '"' + s.replace('"', '\\"') + '"'
def i32(): return R.choice([R.randint(-3, 3)] * 4 + [100, 2147483647, -2147483647])
def lit(typ):
    """(library text, model text)"""
    if typ == I32: v = i32(); return f"int32_t({v})", f"V((int64_t){v})"
    if typ == I64:
        v = R.choice([R.randint(-3, 3)] * 3 + [9223372036854775807, -9223372036854775807, 4294967296]); return f"int64_t({v}L)", f"V((int64_t){v}L)"
    if typ == F:
        v = R.choice(["0.0", "1.0", "-1.5", "0.125", "2.0", "3.0", "0.1", "1e10", "1e300", "-0.25", "1e-7", "12345678.9", "100.0"]); return v, f"V({v})"
    v = R.choice(STR); return q(v) + "_fs", f"V({q(v)})"
class Ctx:
    def __init__(self, tabs, params=True, named=False): self.tabs, self.params, self.P, self.named = tabs, params, [], named
    def param(self, typ, opt=False):
        k = len(self.P); ct = f"std::optional<{typ}>" if opt else typ; self.P.append(ct)
        return f"param<{ct}>" + (f'.bind<"n{k}">()' if self.named else ""), f"p[{k}]"
CMP = ["<", "<=", ">", ">=", "==", "!="]; NAME = {"<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne", "+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod"}
AR = ["+", "-", "*", "/", "%"]
def bin(op, a, b): return f"({a[0]} {op} {b[0]})", f"{NAME[op]}({a[1]}, {b[1]})"
def col(i): return libcol(i), f"r[{i}]"
def pick(c, typ=None, opt=None): return R.choice(cols(c.tabs, typ, opt))
def cet(c, depth=0):
    """an expression of columns and literals that further literals or columns may be combined with"""
    if depth < 2 and R.random() < .45:
        v = lit(R.choice([I32, I32, I32, F, I64])); b = cet(c, depth + 1); f = R.random() < .6; op = even(("ev", f), AR + ["==", "!="]); return bin(op, b, v) if f else bin(op, v, b)
    typ = R.choice([t for t in [I32, I32, I32, I64, F] if cols(c.tabs, t)]); a, v = col(pick(c, typ)), lit(typ)
    f = R.random() < .55; op = even(("cv", f), AR + CMP); return bin(op, a, v) if f else bin(op, v, a)
def leaf(c):
    k = R.random()
    typ = R.choice([t for t in [I32, I32, I32, I64, F, S, S] if cols(c.tabs, t)])
    if k < .13: return bin(even("cc", CMP), col(pick(c, typ)), col(pick(c, typ)))
    if k < .28:
        a, v = col(pick(c, typ)), lit(typ); f = R.random() < .6; op = even(("lit", typ == S, f), CMP); return bin(op, a, v) if f else bin(op, v, a)
    if k < .46 and c.params:
        a = col(pick(c, typ)); p = c.param(typ, R.random() < .15); f = R.random() < .55; op = even(("par", f), CMP)
        # the order of the parameters is the order of the text
        return bin(op, a, p) if f else bin(op, p, a)
    if k < .60:
        b = cet(c); j = R.random()
        if j < .3: return b if b[0].startswith("(") else ("(" + b[0] + ")", b[1])
        if j < .7: v = lit(R.choice([I32, I32, F])); return bin(even("cmpv", ["==", "!="]), b, v)
        a = col(R.choice([i for i in cols(c.tabs) if COLS[i][2] != S])); f = R.random() < .5; op = even(("ec", f), ["==", "!="] + AR); return bin(op, b, a) if f else bin(op, a, b)
    if k < .66: t = R.choice([t for t in [I32, F, I64] if cols(c.tabs, t)]); return bin(even("ccar", AR), col(pick(c, t)), col(pick(c, t)))
    if k < .80:
        i = pick(c, typ); vs = []
        for _ in range(R.choice([0, 1, 2, 3, 5])): vs.append(c.param(typ) if c.params and typ != F and R.random() < .25 else lit(typ))
        if not vs and R.random() < .7: vs.append(lit(typ))
        n = even("in", [True, False])
        return f"{libcol(i)}.{'notIn' if n else 'in'}<{', '.join(v[0] for v in vs)}>()", f"{'notIn' if n else 'in'}(r[{i}], {{{', '.join(v[1] for v in vs)}}})"
    if k < .90:
        i = R.choice([j for j in cols(c.tabs, S, 0)]) if cols(c.tabs, S, 0) else None
        if i is not None:
            n = even("like", [True, False]); v = even("pat", PAT); return f'{libcol(i)}.{"notLike" if n else "like"}<{q(v)}>()', f'{"lnot" if n else ""}(like(r[{i}], {q(v)}))'
    if k < .96 and cols(c.tabs, None, 1):
        i = pick(c, None, 1); n = even("null", [True, False]); return f"{libcol(i)}.{'isNotNull' if n else 'isNull'}()", f"{'isNotNull' if n else 'isNull'}(r[{i}])"
    i = R.choice([j for j in cols(c.tabs) if COLS[j][2] != S]); return f"(!{libcol(i)})", f"lnot(r[{i}])"
def expr(c, n):
    if n <= 1: return leaf(c)
    k = R.randint(1, n - 1); a, b = expr(c, k), expr(c, n - k)
    return (f"({a[0]} && {b[0]})", f"land({a[1]}, {b[1]})") if R.random() < .5 else (f"({a[0]} || {b[0]})", f"lor({a[1]}, {b[1]})")
out = []
def call(method, E, c, pre):
    """method<E>(arguments)"""
    if not c.P: return f".template {method}<{E}>()"
    a = [f"std::get<{k}>({pre})" for k in range(len(c.P))]
    if c.named: a = [f'bind<"n{k}">.link({x})' for k, x in enumerate(a)]; R.shuffle(a)
    return f".template {method}<{E}>({', '.join(a)})"
N = 0
def clause(tabs, n, named=False, params=True, pre="p0"):
    """a boolean expression: returns name of its constant, its context, declarations"""
    global N; N += 1
    c = Ctx(tabs, params, named); e = expr(c, n); name = f"E{N}"
    out.append(f"inline constexpr auto {name} = {e[0]};\nstatic V m{name}([[maybe_unused]] Rw const& r, [[maybe_unused]] Ps const& p) {{ return {e[1]}; }}")
    decl = f"std::tuple<{', '.join(c.P)}> {pre}; Ps m{pre} = genAll(c.g, {pre}); "
    return name, c, decl
def table_model(tabs, joins):
    return ""
SID = 0; stmts = []
def exec_of(kind): pass
def select():
    global SID; SID += 1
    k = R.random(); joins = []
    first = "A" if k < .75 else "B"; tabs = [first]
    if R.random() < .4:
        others = [t for t in "ABC" if t != first]; R.shuffle(others)
        for t in others[:R.choice([1, 1, 2])]: joins.append((even("join", ["join", "leftJoin", "rightJoin"]), t)); 
    body, decl, fin = "", "", []
    text = ""
    m = f"auto rows = all(c, \"{first}\"); "
    for n, (jk, t) in enumerate(joins):
        tabs.append(t)
        # ON: an equality or any condition over the tables joined so far
        name, cc, d = clause(tabs, R.choice([1, 1, 2]), False, True, f"pj{n}"); decl += d
        text += f".template {jk}<{t}>()" + call("on", name, cc, f"pj{n}"); m += f"rows = joined(c, rows, \"{t}\", '{jk[0]}', [&](Rw const& r) {{ return truth(m{name}(r, mpj{n})); }}); "
    if R.random() < .85:
        name, cc, d = clause(tabs, R.choice([1, 2, 3, 4, 6]), R.random() < .3, True, "pw"); decl += d; text += call("where", name, cc, "pw"); m += f"keep(rows, [&](Rw const& r) {{ return truth(m{name}(r, mpw)); }}); "
    j = R.random(); items = []  # (library, model projection of a group or row, type, optional)
    grouped = j < .35
    if grouped:
        keys = []
        byexpr = R.random() < .25
        if byexpr:
            c0 = Ctx(tabs, False); e = cet(c0); global N; N += 1; out.append(f"inline constexpr auto E{N} = {e[0]};\nstatic V mE{N}([[maybe_unused]] Rw const& r, [[maybe_unused]] Ps const& p) {{ return {e[1]}; }}")
            text += f".template groupBy<E{N}>()"; m += f"auto groups = group(rows, [&](Rw const& r) {{ return Rw{{mE{N}(r, {{}})}}; }}); "
        elif R.random() < .75:
            keys = R.sample(cols(tabs), R.choice([1, 1, 2])); ptrs = R.random() < .5
            text += ".template groupBy<" + ", ".join(f"&{COLS[i][0]}::{COLS[i][1]}" if ptrs else libcol(i) for i in keys) + ">()"; m += f"auto groups = group(rows, [&](Rw const& r) {{ return Rw{{{', '.join(f'r[{i}]' for i in keys)}}}; }}); "
            if R.random() < .4:
                c0 = Ctx(tabs, True); saved = COLS[:]
                # HAVING over the group keys only
                i = R.choice(keys); t = COLS[i][2]; v = c0.param(t) if R.random() < .5 else lit(t); e = bin(R.choice(CMP), (libcol(i), f"r[{i}]"), v); N += 1
                out.append(f"inline constexpr auto E{N} = {e[0]};\nstatic V mE{N}([[maybe_unused]] Rw const& r, [[maybe_unused]] Ps const& p) {{ return {e[1]}; }}")
                decl += f"std::tuple<{', '.join(c0.P)}> ph; Ps mph = genAll(c.g, ph); "; text += call("having", f"E{N}", c0, "ph"); m += f"keep(groups, [&](std::vector<Rw> const& q) {{ return truth(mE{N}(q[0], mph)); }}); "
        else: m += "std::vector<std::vector<Rw>> groups{rows}; "
        for i in keys: items.append((libcol(i), f"(q.empty() ? V() : q[0][{i}])", i, True))
        for _ in range(R.choice([1, 2, 3])):
            f = even("agg", ["sum", "avg", "min", "max", "count", "countAll", "countDistinct"]); ok = cols(tabs)
            if f == "sum": ok = [i for i in ok if COLS[i][2] in (I32, F)]
            elif f == "avg": ok = [i for i in ok if COLS[i][2] == F]
            elif f.startswith("count"): ok = [i for i in ok if COLS[i][2] in (I32, I64)]
            if not ok: continue
            i = R.choice(ok); items.append((f"{f}<{libcol(i)}>", f"agg_{f}(q, {i})", i, True))
        if not items: items.append((f"countAll<{libcol(cols(tabs, I64)[0])}>", "agg_countAll(q, 0)", cols(tabs, I64)[0], True))
    else:
        pool = cols(tabs); n = min(len(pool), R.choice([1, 2, 3, 5, 8]))
        for i in R.sample(pool, n): items.append((libcol(i), f"r[{i}]", i, False))
    lib, proj, got = [], [], []
    for n, (l, mm, i, g) in enumerate(items):
        alias = R.random() < .3
        lib.append(l + (f'.template as<"k{n}">()' if alias and l.startswith("Col") else f'.as<"k{n}">()' if alias else "")); lib[-1] = lib[-1].replace(".template as", ".as")
        proj.append(f"asColumn({mm}, {'true' if COLS[i][3] else 'false'}, '{ {I32:'i', I64:'l', F:'d', S:'s'}[COLS[i][2]] }')"); got.append(f'V(r.template get<"k{n}">())' if alias else f"V(r.template get<{n}>())")
    seq = "false"; lim = "c.exact"
    order = []
    if not grouped or keys:
        if R.random() < .5:
            pool = keys if grouped else cols(tabs); ks = R.sample(pool, min(len(pool), R.choice([1, 2, 3])))
            if not grouped: ks = [i for i in ks if COLS[i][1] != "id"] + [i for i in cols(tabs) if COLS[i][1] == "id"]
            elif R.random() < .8: ks = ks + [i for i in keys if i not in ks]
            dirs = [even("dir", ["asc", "desc"]) for _ in ks]
            text += ".template orderBy<" + ", ".join(f"{libcol(i)}.{d}()" for i, d in zip(ks, dirs)) + ">()"
            total = not grouped or set(keys) <= set(ks)
            m += f"sorted({'groups' if grouped else 'rows'}, {{{', '.join('{%d, %s}' % (i, 'true' if d == 'desc' else 'false') for i, d in zip(ks, dirs))}}}); "
            seq = "true" if total else "false"; order = total
    if order and R.random() < .6:
        a, b = R.choice([0, 0, 1, 2, 5]), R.choice([0, 1, 2, 3, 10]); w = even("limit", [.1, .3, .6, .7, .85, .95])
        if w < .25: text += f".template limit<{b}>()"; m += f"cut({'groups' if grouped else 'rows'}, 0, {b}); "
        elif w < .5: text += f".template limit<{a}, {b}>()"; m += f"cut({'groups' if grouped else 'rows'}, {a}, {b}); "
        else:
            decl += "int64_t l0 = (int64_t)c.g.draw(5), l1 = (int64_t)c.g.draw(6); (void)l0; (void)l1; "; g = "groups" if grouped else "rows"
            if w < .65: text += ".template limit<param<int64_t>>(l1)"; m += f"cut({g}, 0, l1); "
            elif w < .8: text += ".template limit<param<int64_t>, param<int64_t>>(l0, l1)"; m += f"cut({g}, l0, l1); "
            elif w < .9: text += f".template limit<{a}, param<int64_t>>(l1)"; m += f"cut({g}, {a}, l1); "
            else: text += f".template limit<param<int64_t>, {b}>(l0)"; m += f"cut({g}, l0, {b}); "
    nt = R.random() < .2
    full = f'c.db->template sqlTemplate<"s{SID}"_fs>().template select<{", ".join(lib)}>().template from<{first}>(){text}.{"execNoThrow" if nt else "exec"}()'
    used = set(tabs)
    out.append(f"static void s{SID}(Cx& c) {{ {decl}c.say(\"s{SID}\", {{{', '.join('&'+x for x in params_in(decl))}}}); {m}std::vector<Rw> want; " +
      (f"for (auto& q : groups) want.push_back(Rw{{{', '.join(proj)}}}); " if grouped else f"for (auto& r : rows) want.push_back(Rw{{{', '.join(proj)}}}); ") +
      f"compare(c, {{{', '.join(q(t) for t in sorted(used))}}}, want, {seq}, [&] {{ std::vector<Rw> got; auto res = " + ("unwrap(" + full + ")" if nt else full) + f"; for (auto& r : res) got.push_back(Rw{{{', '.join(got)}}}); return got; }}, R\"~({text})~\"); }}")
    stmts.append((SID, "select"))
def params_in(decl):
    import re
    return re.findall(r"Ps (\w+) =", decl)
def mutation(kind):
    global SID; SID += 1
    t = R.choice("AAABC"); tabs = [t]; decl = ""; pre = ""; setm = ""
    if kind == "updcols":
        pool = [i for i in cols(tabs) if COLS[i][1] != "id"]; ks = R.sample(pool, R.randint(1, min(3, len(pool))))
        ct = [f"std::optional<{COLS[i][2]}>" if COLS[i][3] else COLS[i][2] for i in ks]; decl += f"std::tuple<{', '.join(ct)}> pu; Ps mpu = genAll(c.g, pu); "
        pre = f".template update<{', '.join(f'&{COLS[i][0]}::{COLS[i][1]}' for i in ks)}>({', '.join(f'std::get<{n}>(pu)' for n in range(len(ks)))})"; setm = " ".join(f"r[{i}] = mpu[{n}];" for n, i in enumerate(ks))
    elif kind == "updobj":
        decl += f"{t} pu = gen{t}(c.g); Rw mpu = row(pu); "; pre = f".template update<{t}>(pu)"; base = cols(tabs)[0]; setm = " ".join(f"r[{i}] = mpu[{i}];" for i in cols(tabs) if COLS[i][1] != "id")
    else: pre = f".template deleteForm<{t}>()"
    text = pre; cond = "true"
    if R.random() < .92:
        name, cc, d = clause(tabs, R.choice([1, 2, 2, 3, 5]), False, True, "pw"); decl += d; text += call("where", name, cc, "pw"); cond = f"truth(m{name}(r, mpw))"
    ret = R.random() < .45; how = even(("how", ret), ["exec", "execGetChanges", "execNoThrow", "execNoThrowGetChanges"]); items = []
    if ret:
        items = R.sample(cols(tabs), R.randint(1, min(4, len(cols(tabs))))); text += ".template returning<" + ", ".join((f"&{COLS[i][0]}::{COLS[i][1]}" if n_ else libcol(i)) for n_ in [R.random() < .5] for i in items) + ">()"
    full = f'c.db->template sqlTemplate<"s{SID}"_fs>(){text}.{how}()'
    if "NoThrow" in how: full = f"unwrap({full})"
    proj = ", ".join(f"r[{i}]" for i in items); got = ", ".join(f"V(r.template get<{n}>())" for n in range(len(items)))
    if ret: fetch = (f"auto res = {full}; n = (long)res.changes; auto& v = res.columnRes; " if "Changes" in how else f"auto v = {full}; ") + f"for (auto& r : v) got.push_back(Rw{{{got}}}); "
    else: fetch = f"n = (long){full}; " if "Changes" in how else f"{full}; "
    out.append(f"static void s{SID}(Cx& c) {{ {decl}c.say(\"s{SID}\", {{{', '.join('&'+x for x in params_in(decl))}}}); mutate(c, \"{t}\", [&]([[maybe_unused]] Rw const& r) {{ return {cond}; }}, {'[&]([[maybe_unused]] Rw& r) { ' + setm + ' }' if kind != 'delete' else 'nullptr'}, [&]([[maybe_unused]] Rw const& r) {{ return Rw{{{proj}}}; }}, {'true' if ret else 'false'}, [&](long& n, [[maybe_unused]] std::vector<Rw>& got) {{ (void)n; {fetch}}}, R\"~({text})~\"); }}")
    stmts.append((SID, kind))
ns, nm = (60, 10) if tier == "quick" else (110, 22)
for _ in range(ns): select()
for k in ["updcols", "updobj", "delete"]:
    for _ in range(nm): mutation(k)
print("\n".join(out))
print("using Fn = void (*)(Cx&);")
print("static Fn const SELECTS[] = {" + ", ".join(f"s{i}" for i, k in stmts if k == "select") + "};")
print("static Fn const UPDATES[] = {" + ", ".join(f"s{i}" for i, k in stmts if k.startswith("upd")) + "};")
print("static Fn const DELETES[] = {" + ", ".join(f"s{i}" for i, k in stmts if k == "delete") + "};")
