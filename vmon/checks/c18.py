"""C18 networks learned from data carry the data's own conditionals."""
import itertools

import numpy as np

from vmon import exact, gen

CASES = {"quick": 1200, "thorough": 20000}
FLOORS = {"rows_judged": 4000, "unseen_parent_rows": 300, "variants": 800, "multi_parent_nodes": 300, "nonstring_columns": 300, "large_frames": 20, "rare_parent_rows": 8, "wide_columns": 20, "joined_texts": 60}
RULE = ("random frames (1-60 rows, 1-6 columns, and 1200-70000 rows with rare values, columns of 33-300 distinct values, and values that read alike when put side by side; strings with spaces, quotes and digits, integers, floats, booleans; names that are words, keywords, quoted, "
        "numeric-looking) and random acyclic structures over all columns; every CPT row judged against counts taken in plain Python; re-ordered rows, columns, "
        "index, parent lists and structure keys must give the same distribution; non-trivial = distinct (data, structure) with an edge")
ASSUMPTIONS = ["no missing values, one type per column, no categorical dtype", "the structure names every column"]

NAMES = [["a", "b", "c", "d", "e", "f"], ["index", "and", "or", "not", "in", "x"], ["it's", 'q"q', "a b", "a`b", "@a", "#"], ["1", "2", "10", "01", "n", "p"],
         ["values", "shape", "columns", "df", "name", "size"], ["é", "日", "ß", "ss", "Ω", "π"], ["T", "F", "a", "A", "aa", "AA"], ["a==b", "a,b", "a|b", "&", "(a)", "%s"], [0, 1, 2, 3, 4, 5], [10, 9, 100, 1, 2, 11]]
STRS = [["t", "f", "u", "w"], ["on", "off", "auto", "x"], ["it's", 'say "x"', "a b", "{v}"], ["1", "10", "2", "01"], ["", " ", "  ", "a"], ["é", "e", "日", "É"], ["None", "nan", "True", "False"], ["a", "A", "ab", "aB"], ["x == 'a'", "\\", "'", '"']]


def column(rng, n):
    k = int(rng.integers(1, 5)) if rng.random() < 0.9 else 1
    t = gen.pick(rng, ["str", "str", "str", "int", "float", "bool", "npint", "small", "close"])
    if t == "str":
        dom = list(gen.pick(rng, STRS))
        rng.shuffle(dom)
        dom = [str(x) for x in dom]
    elif t == "int":
        dom = [int(x) for x in rng.choice(200, size=4, replace=False) - 100]
    elif t == "float":
        dom = [float(x) for x in np.round(rng.choice(2000, size=4, replace=False) / 8.0 - 30, 3)]
    elif t == "close":      # numbers that differ by little
        u = float(gen.pick(rng, [1e-300, 1e-19, 1e-9, 1e-6]))
        a = float(gen.pick(rng, [0.1, 1.0, 123456.789, 1e15]))
        dom = gen.pick(rng, [[u, 2 * u, 3 * u, -u], [a, float(np.nextafter(a, 2 * a)), float(np.nextafter(a, 0)), 2 * a], [0.0, u, 1.0, 1.0 + 1e-9]])
        dom = [dom[k2] for k2 in rng.permutation(4)]
    elif t == "bool":
        dom, k = [True, False], min(k, 2)
    elif t == "small":
        dom, k = [0, 1], min(k, 2)
    else:
        dom = [int(x) for x in rng.choice(50, size=4, replace=False)]
    dom = dom[:max(k, 1)]
    w = rng.dirichlet(np.ones(len(dom)))
    if n > 1000:        # rare values, so rare parent combinations
        w = 0.999 * w + 0.001 if rng.random() < 0.5 else np.array([1.0] + [2.5 / n] * (len(dom) - 1))
        w = w / w.sum()
    out = [dom[int(x)] for x in rng.choice(len(dom), size=n, p=w)]
    return t, out


def joined(rng, n):
    dom = [str(x) for x in rng.permutation(gen.pick(rng, [["", "a", "ab", "b", "ba", "aa", "bb", "abb"], ["1", "11", "111", "1,1", ",1", "1,", "", ","], ["x", "x|x", "|", "x|", "|x", "||", "xx", ""]]))][:int(rng.integers(3, 7))]
    return "str", [dom[int(x)] for x in rng.integers(0, len(dom), size=n)]


def semantic(ctx, bbn, what):
    """(name -> values), (child name -> parent names), {(child, value, frozenset parent assignment): p}"""
    nodes = {n.id: n for n in bbn.get_nodes()}
    name = {i: nodes[i].variable.name for i in nodes}
    ctx.eq(len(set(name.values())), len(name), "two variables with one name")
    pa = {i: list(bbn.parents.get(i, [])) for i in nodes}
    cp = {}
    for i in nodes:
        dims = [nodes[j].variable.values for j in pa[i]] + [nodes[i].variable.values]
        flat = [float(p) for p in nodes[i].probs]
        ctx.eq(len(flat), int(np.prod([len(d) for d in dims])), what + "CPT has the wrong size", variable=name[i])
        for p, cfg in zip(flat, itertools.product(*dims)):
            cp[(name[i], repr(cfg[-1]), frozenset((name[j], repr(v)) for j, v in zip(pa[i], cfg)))] = p
    return {name[i]: list(nodes[i].variable.values) for i in nodes}, {name[i]: {name[j] for j in pa[i]} for i in nodes}, cp


def plain(v):
    return v.item() if hasattr(v, "item") else v


def case(ctx, rng, idx):
    import pandas as pd
    from pybbn.graph.factory import Factory
    from pybbn.pptc.inferencecontroller import InferenceController
    c = int(rng.integers(1, 7))
    big = idx % 30 == 0
    n = int(gen.pick(rng, [1, 5, 12, 30, 60])) if not big else int(gen.pick(rng, [1200, 3000, 12000, 12000, 70000]))
    if idx % 30 == 15:
        c, n = min(c, 3), int(gen.pick(rng, [300, 500, 900]))
    if big:
        c = min(c, 4)
        ctx.ev("large_frames")
    names = list(gen.pick(rng, NAMES))
    names = [names[k] for k in rng.permutation(len(names))][:c]
    cols, types = {}, {}
    joins = idx % 10 == 7       # values that, put side by side, read alike
    for x in names:
        types[x], cols[x] = column(rng, n) if not joins else joined(rng, n)
    if idx % 30 == 15:      # a column of many distinct values
        x = names[0]
        m = int(gen.pick(rng, [33, 65, 101, 130, 257, 300]))
        dom = [int(v) for v in rng.choice(5000, size=m, replace=False)]
        t = gen.pick(rng, ["str", "int", "float"])
        dom = ["v%d" % v for v in dom] if t == "str" else dom if t == "int" else [v / 7.0 for v in dom]
        cols[x] = dom + [dom[int(v)] for v in rng.integers(0, m, size=n - m)]
        cols[x] = [cols[x][r] for r in rng.permutation(n)]
        types[x] = t
        ctx.ev("wide_columns")
    if rng.random() < 0.3 and c > 1 and idx % 30 != 15:     # dependent columns
        a, b = names[0], names[1]
        first = {}
        for r in range(n):
            first.setdefault(cols[a][r], r)
        cols[b] = [cols[b][r] if rng.random() < 0.3 else cols[b][first[cols[a][r]]] for r in range(n)]
    if joins:
        ctx.ev("joined_texts")
    rank = {x: k for k, x in enumerate([names[k] for k in rng.permutation(c)])}
    structure = {}
    for x in names:
        pas = [y for y in names if rank[y] < rank[x] and rng.random() < 0.5]
        pas = [pas[k] for k in rng.permutation(len(pas))][:3]
        structure[x] = pas
    structure = {names[k]: structure[names[k]] for k in rng.permutation(c)}
    df = pd.DataFrame(cols)
    if rng.random() < 0.3:
        df.index = pd.Index(rng.permutation(n) * 3 + 7)
    elif rng.random() < 0.2:
        df.index = pd.Index([0] * n)
    ctx.note.update(structure=repr(structure), data=df.to_dict("list"))
    keep, st_keep = df.copy(deep=True), {k: list(v) for k, v in structure.items()}
    bbn = Factory.from_data(structure, df)
    ctx.check(df.equals(keep) and list(df.columns) == list(keep.columns) and df.index.equals(keep.index) and list(df.dtypes) == list(keep.dtypes), "the data frame was changed")
    ctx.eq(structure, st_keep, "the structure was changed")
    values, parents, cp = semantic(ctx, bbn, "")
    ctx.eq(set(values), set(names), "learned variables are not the columns")
    ctx.eq({k: v for k, v in parents.items()}, {k: set(v) for k, v in structure.items()}, "learned structure is not the requested one")
    ctx.eq(sorted((e.i.variable.name, e.j.variable.name) for e in bbn.get_edges()) if not any(isinstance(x, int) for x in names) else True,
           sorted((p, ch) for ch, pas in structure.items() for p in pas) if not any(isinstance(x, int) for x in names) else True, "learned edges are not the requested ones")
    for x in names:
        dom = sorted(set(cols[x]))
        ctx.eq([plain(v) for v in values[x]], dom, "values are not the sorted distinct values of the column", column=x)
        if types[x] != "str":
            ctx.ev("nonstring_columns")
    # conditionals, counted in plain Python
    for x in names:
        pas = structure[x]
        if len(pas) > 1:
            ctx.ev("multi_parent_nodes")
        dom = values[x]
        for cfg in itertools.product(*[values[p] for p in pas]):
            rows = [r for r in range(n) if all(cols[p][r] == plain(v) for p, v in zip(pas, cfg))]
            want = [sum(1 for r in rows if cols[x][r] == plain(v)) / len(rows) if rows else 1.0 / len(dom) for v in dom]
            at = frozenset((p, repr(v)) for p, v in zip(pas, cfg))
            got = [cp[(x, repr(v), at)] for v in dom]
            ctx.close(got, want, "a CPT row is not the empirical conditional distribution", variable=x, parents=[(p, plain(v)) for p, v in zip(pas, cfg)], rows=len(rows))
            ctx.ev("rows_judged")
            if rows and 200 * len(rows) < n:
                ctx.ev("rare_parent_rows")
            if not rows:
                ctx.ev("unseen_parent_rows")
    # same content, presented otherwise
    for _ in range(2):
        o = rng.permutation(n)
        co = [names[k] for k in rng.permutation(c)]
        d2 = pd.DataFrame({x: [cols[x][r] for r in o] for x in co})
        s2 = {x: [structure[x][k] for k in rng.permutation(len(structure[x]))] for x in [names[k] for k in rng.permutation(c)]}
        v2, p2, c2 = semantic(ctx, Factory.from_data(s2, d2), "(presented otherwise) ")
        ctx.eq(({k: [plain(x) for x in v] for k, v in v2.items()}, p2), ({k: [plain(x) for x in v] for k, v in values.items()}, parents), "variables or structure depend on the order of rows, columns or parents")
        for k in cp:
            ctx.close(c2[k], cp[k], "the distribution depends on the order of rows, columns or parents", key=repr(k))
        ctx.ev("variants")
    # the same data under other names
    alias = {x: "c%d" % k for x, k in zip(names, rng.permutation(c))}
    b3 = Factory.from_data({alias[x]: [alias[p] for p in structure[x]] for x in structure}, pd.DataFrame({alias[x]: cols[x] for x in names}))
    v3, p3, c3 = semantic(ctx, b3, "(renamed) ")
    for (x, v, at), p in cp.items():
        ctx.close(c3[(alias[x], v, frozenset((alias[a], b) for a, b in at))], p, "the distribution depends on what the columns are called", column=x)
    ctx.ev("variants")
    # and it is usable: the root marginals of the data come back from inference
    if all(t == "str" for t in types.values()) and not any(isinstance(x, int) for x in names):
        spec = gen.spec_of(bbn)
        post = InferenceController.apply(bbn).get_posteriors()
        exact.compare_marginals(ctx, spec, post, exact.Exact(spec).marginals(), "inference on the learned network")
    if any(structure.values()):
        ctx.nontrivial((repr(structure), repr(cols)))
    ctx.sample({"structure": repr(structure), "columns": {str(k): v[:8] for k, v in cols.items()}})

