"""C21..C25: the directed graph."""
import random

from common import CORES, split

DRIVER = ("drive_graph.py", "GraphTrace")
ROOT = "INPUT_ROOT_NODE_TYPE"
INVS = "ParentIffChild HeadsOrCycle PathsSound PruneFixpoint"


def cfg(spec, ids, types, shape="any", emit=True, inv=INVS, props="", view=True):
    return "\n".join([
        "SPECIFICATION " + spec, "CONSTANTS",
        " NodeIds = {%s}" % ",".join('"%s"' % i for i in ids),
        " Types = {%s}" % ",".join('"%s"' % t for t in types),
        " Emit = %s" % ("TRUE" if emit else "FALSE"), ' Shape = "%s"' % shape,
        "VIEW View" if view else "", "CHECK_DEADLOCK FALSE",
        "INVARIANTS " + inv + (" ShowShape" if spec == "SpecShapes" else ""),
        ("PROPERTIES " + props) if props else ""])


def nodes_of(case, rng=None):
    n = list((case["nodes"] or {}).items())
    if rng:
        rng.shuffle(n)
    return n


def rand_graph(rng, n, types, acyclic=False, density=None, one_root=False):
    ids = ["n%d" % i for i in range(n)]
    rng.shuffle(ids)
    d = rng.choice([0.1, 0.2, 0.35, 0.6]) if density is None else density
    edges = []
    for i, a in enumerate(ids):
        for j, b in enumerate(ids):
            if a != b and (i < j or not acyclic) and rng.random() < d:
                edges.append([a, b])
    ty = {i: rng.choice(types) for i in ids}
    if one_root:
        heads = set(ids) - {b for _, b in edges}
        ty = {i: ROOT if i in heads else rng.choice([0, "A", "B", ROOT]) for i in ids}
    order = ids[:]
    rng.shuffle(order)
    rng.shuffle(edges)
    return [[i, ty[i]] for i in order], edges


def large(rng, n, kind, typed=True):
    """Chains, stars, ladders, grids, forests and layers, in random insertion orders."""
    ids = ["m%d" % i for i in range(n)]
    rng.shuffle(ids)
    w = max(2, int(n ** 0.5))
    e = {"chain": [(i, i + 1) for i in range(n - 1)],
         "star": [(0, i) for i in range(1, n)],
         "sink": [(i, n - 1) for i in range(n - 1)],
         "ladder": [(i, i + 1) for i in range(n - 1)] + [(i, i + 2) for i in range(n - 2)],
         "grid": [(i, i + 1) for i in range(n - 1) if (i + 1) % w] + [(i, i + w) for i in range(n - w)],
         "tree": [(rng.randrange(i), i) for i in range(1, n)],
         "forest": [(rng.randrange(i), i) for i in range(1, n) if rng.random() < 0.8],
         "layers": [(i, j) for i in range(n) for j in range(i + 1, n) if j // w == i // w + 1 and rng.random() < 0.6],
         "wheel": [(i, (i + 1) % n) for i in range(n)]}[kind]
    edges = [[ids[a], ids[b]] for a, b in e]
    heads = set(ids) - {b for _, b in edges}
    ty = {i: (ROOT if i in heads else "A") if not typed or rng.random() < 0.7 else rng.choice(["A", "B", 0, ROOT]) for i in ids}
    order = ids[:]
    how = rng.random()
    if how < 0.5:
        rng.shuffle(order)
    elif how < 0.7:
        order.reverse()
    rng.shuffle(edges)
    return [[i, ty[i]] for i in order], edges


DAGS = ["chain", "star", "sink", "ladder", "grid", "tree", "forest", "layers"]


def large_cases(run, rng, ops, kinds, spoil=False):
    """Large graphs, asked again after a few edges came and went."""
    out = []
    for k in range(48 if run.quick else 600):
        nodes, edges = large(rng, rng.choice([15, 25, 40] if run.quick else [15, 25, 40, 60]), kinds[k % len(kinds)])
        now, res, ids = [list(x) for x in edges], list(ops), [i for i, _ in nodes]
        for _ in range(3):
            if rng.random() < 0.5 and now:
                x = now.pop(rng.randrange(len(now)))
                res.append({"op": "remove_edge", "p": x[0], "c": x[1]})
            elif spoil:
                a, b = rng.sample(ids, 2)
                if [a, b] not in now:
                    now.append([a, b])
                    res.append({"op": "add_edge", "p": a, "c": b})
            res += ops
        out.append({"nodes": nodes, "edges": edges, "ops": res, "forbid": {}})
    return out


# ---------------------------------------------------------------- C21
def random_history(rng, length):
    digits = [str(k) for k in rng.sample(range(0, length // 3 + 3), 3)]
    pool = ["a", "b", "c", "d", "1", "", "01"] + digits + [None] * 2
    if rng.random() < 0.3:
        pool += [str(int(d) + 1) for d in digits] + [None] * 3
    types = ["A", "B", 0, ROOT]
    ops = []
    known = []
    for _ in range(length):
        r = rng.random()
        pick = lambda: rng.choice(known) if known and rng.random() < 0.85 else rng.choice(pool[:10] + ["zz", 5])  # noqa
        if r < 0.25:
            i = rng.choice(pool + [3])
            ops.append({"op": "add_node", "id": i, "ty": rng.choice(types)})
            if isinstance(i, str):
                known.append(i)
            elif i is None:
                known.append(str(rng.randrange(1, 9)))
        elif r < 0.65:
            ops.append({"op": "add_edge", "p": pick(), "c": pick()})
        elif r < 0.85:
            ops.append({"op": "remove_edge", "p": pick(), "c": pick()})
        else:
            ops.append({"op": "remove_node", "id": pick()})
    return ops


def c21(run):
    rng = random.Random(run.seed)
    ids = ["a", "b", "c"] if run.quick else ["a", "b", "c", "d"]
    types = ["A", "B"]
    cases = run.model_check("MCGraph", cfg(
        "Spec", ids, types, inv="Structure " + INVS + " CycleHasNoOrder",
        props="RejectedChangesNothing OnlyRemovalsRemove"), name="every transition of the graph machine")
    run.notes["model_transitions_replayed"] = len(cases)
    if not run.quick and len(cases) > 400000:
        rng.shuffle(cases)
        cases = cases[:400000]
        run.notes["model_transitions_replayed"] = len(cases)
    out = []
    for c in cases:
        edges = c["edges"] or []
        rng.shuffle(edges)
        o = dict(c["op"])
        o.pop("acc")
        out.append({"nodes": nodes_of(c, rng), "edges": edges, "ops": [o]})
    n, length = (400, 40) if run.quick else (6000, 120)
    for _ in range(n):
        nodes, edges = rand_graph(rng, rng.randrange(0, 5), ["A", "B", 0], density=0.3)
        if rng.random() < 0.3:
            nodes, edges = [], []
        out.append({"nodes": nodes, "edges": [e for e in edges if not (dict(nodes)[e[0]] == "B" and dict(nodes)[e[1]] == "A")],
                    "ops": random_history(rng, length)})
    # generated ids: every set of ids that look like generated ones, in every position of the history
    top = 6 if run.quick else 9
    for k in range(2 ** top):
        mine = [str(i + 1) for i in range(top) if k >> i & 1]
        rng.shuffle(mine)
        for first in {0, rng.randrange(0, len(mine) + 1), len(mine)}:
            ops = [{"op": "add_node", "id": i, "ty": "A"} for i in mine[:first]] + [{"op": "add_node", "id": None, "ty": "A"}] * 2
            ops += [{"op": "add_node", "id": i, "ty": "A"} for i in mine[first:]] + [{"op": "add_node", "id": None, "ty": "A"}] * 4
            out.append({"nodes": [], "edges": [], "forbid": {}, "ops": ops})
    for _ in range(n // 10):
        out.append({"nodes": [], "edges": [], "factory": False, "forbid": {}, "ops": random_history(rng, length)})
    run.drive(DRIVER, split(out))


# ---------------------------------------------------------------- queries
ODD_IDS = ["", "0", "1", "2", "10", "-1", "None", "a b", "A", "a", "aa", "é", "e\u0301", "[1]", "a_SLOT", "n", "n1", "n10", ROOT, "parents",
           "children", "id", "new\nline", "DEFAULT", "\U0001f600", "%s", "{}", "a/b", " ", "~"]


def oddly(rng, cs, p=0.2):
    """Some of the cases with other names for the nodes."""
    out = []
    for c in cs:
        ids = [i for i, _ in c["nodes"]]
        if 0 < len(ids) <= len(ODD_IDS) and rng.random() < p:
            m = dict(zip(ids, rng.sample(ODD_IDS, len(ids))))
            to = lambda x: m.get(x, x) if isinstance(x, str) else x  # noqa
            c = dict(c, nodes=[[m[i], t] for i, t in c["nodes"]], edges=[[m[x], m[y]] for x, y in c["edges"]],
                     ops=[{k: to(v) if k in ("a", "b", "p", "c", "id") else v for k, v in o.items()} for o in c["ops"]])
        out.append(c)
    return out


def shapes(run, rng, shape, quick_ids, thorough_ids, types, limit):
    ids = quick_ids if run.quick else thorough_ids
    cases = run.model_check("MCGraph", cfg("SpecShapes", ids, types, shape),
                            name="every %s graph of %d nodes" % (shape, len(ids)), xmx="10g")
    run.notes["model_graphs"] = len(cases)
    if len(cases) > limit:
        rng.shuffle(cases)
        cases = cases[:limit]
    run.notes["model_graphs_replayed"] = len(cases)
    return cases


def query_cases(run, rng, cases, ops):
    out = []
    for c in cases:
        edges = c["edges"] or []
        rng.shuffle(edges)
        nodes = nodes_of(c, rng)
        out.append({"nodes": nodes, "edges": edges, "ops": ops([i for i, _ in nodes]), "forbid": {}})
    return out


def after_history(rng, ops):
    """The queries, asked again and again while the graph changes."""
    h = [o for o in random_history(rng, 25) if isinstance(o.get("id", ""), str) or o.get("id") is None]
    res = []
    for k, o in enumerate(h):
        res.append(o)
        if k % 3 == 2:
            res += ops
    return {"nodes": [], "edges": [], "ops": res, "forbid": {}}


def c22(run):
    rng = random.Random(run.seed)
    q = [{"op": "heads"}, {"op": "tails"}]
    cases = shapes(run, rng, "any", "abcd", "abcd", ["A"], 10 ** 6)
    out = query_cases(run, rng, cases, lambda ids: q)
    for _ in range(300 if run.quick else 8000):
        nodes, edges = rand_graph(rng, rng.randrange(1, 13), ["A", "B", 0, ROOT])
        out.append({"nodes": nodes, "edges": edges, "ops": q, "forbid": {}})
    for _ in range(100 if run.quick else 2000):
        out.append(after_history(rng, q))
        out.append(edited_valid(rng, lambda ids: q))
    out += large_cases(run, rng, q, DAGS + ["wheel"], spoil=True)
    rng.shuffle(out)
    run.drive(DRIVER, split(oddly(rng, out)))


def c23(run):
    rng = random.Random(run.seed)
    q = [{"op": "validate"}]
    cases = shapes(run, rng, "any", "abcd", "abcd", ["A"], 10 ** 6)
    cases += shapes(run, rng, "any", "abc", "abcd", ["A", ROOT], 10 ** 6)
    out = query_cases(run, rng, cases, lambda ids: q)
    for _ in range(400 if run.quick else 8000):
        nodes, edges = rand_graph(rng, rng.randrange(1, 13), ["A", "B", 0, ROOT], acyclic=rng.random() < 0.3)
        out.append({"nodes": nodes, "edges": edges, "ops": q, "forbid": {}})
    for _ in range(100 if run.quick else 2000):
        out.append(after_history(rng, q))
        out.append(edited_valid(rng, lambda ids: q))
    out += large_cases(run, rng, q, DAGS + ["wheel"], spoil=True)
    rng.shuffle(out)
    run.drive(DRIVER, split(oddly(rng, out)))


def edited_valid(rng, ops):
    """A valid graph, asked before and after edges come and go (also into and out of cycles)."""
    nodes, edges = rand_graph(rng, rng.randrange(3, 7), [ROOT], acyclic=True, one_root=True)
    ids = [i for i, _ in nodes]
    now, res = [list(e) for e in edges], list(ops(ids))
    gone = []
    for _ in range(rng.randrange(2, 7)):
        r = rng.random()
        if r < 0.35 and now:
            e = now.pop(rng.randrange(len(now)))
            gone.append(e)
            res.append({"op": "remove_edge", "p": e[0], "c": e[1]})
        elif r < 0.6 and gone:
            e = gone.pop()
            now.append(e)
            res.append({"op": "add_edge", "p": e[0], "c": e[1]})
        elif len(ids) > 1:
            a, b = rng.sample(ids, 2)
            if r > 0.8 and now:                   # a cycle of two
                b, a = rng.choice(now)
            if [a, b] not in now:
                now.append([a, b])
            res.append({"op": "add_edge", "p": a, "c": b})
            if rng.random() < 0.5:
                res += ops(ids)
                now.remove([a, b])
                res.append({"op": "remove_edge", "p": a, "c": b})
        res += ops(ids)
    return {"nodes": nodes, "edges": edges, "ops": res, "forbid": {}}


def c24(run):
    rng = random.Random(run.seed)

    def ops(ids):
        res = [{"op": "paths", "a": a, "b": b, "k": None} for a in ids for b in ids]
        for _ in range(4):
            res.append({"op": "paths", "a": rng.choice(ids), "b": rng.choice(ids), "k": rng.randrange(0, 6)})
        for n in ["nope"] + [x for x in (ids[0].upper(), ids[-1] + " ", "") if x not in ids][:2]:
            res.append({"op": "paths", "a": n, "b": ids[0], "k": None})
            res.append({"op": "paths", "a": ids[0], "b": n, "k": 3})
        return res
    cases = shapes(run, rng, "valid", "abcd", "abcd", ["A", ROOT], 10 ** 6)
    if run.quick:
        rng.shuffle(cases)
        cases = cases[:1200]
        run.notes["model_graphs_replayed"] = len(cases)
    out = query_cases(run, rng, cases, ops)
    inv = shapes(run, rng, "any", "abc", "abc", ["A", ROOT], 150 if run.quick else 10 ** 6)
    out += query_cases(run, rng, inv, lambda ids: ops(ids)[:12])
    for _ in range(150 if run.quick else 3000):
        n = rng.randrange(3, 9)
        nodes, edges = rand_graph(rng, n, [ROOT], acyclic=True, one_root=True)
        ids = [i for i, _ in nodes]
        o = []
        for _ in range(25):
            o.append({"op": "paths", "a": rng.choice(ids), "b": rng.choice(ids),
                      "k": rng.choice([None, None, 1, 2, 3, 4, 5])})
        out.append({"nodes": nodes, "edges": edges, "ops": o, "forbid": {}})
    for _ in range(200 if run.quick else 4000):
        out.append(edited_valid(rng, lambda ids: [{"op": "paths", "a": rng.choice(ids), "b": rng.choice(ids),
                                                   "k": rng.choice([None, None, 2, 3])} for _ in range(3)]))
    for k in range(40 if run.quick else 600):
        nodes, edges = large(rng, rng.choice([9, 12, 16]), DAGS[k % len(DAGS)], typed=False)
        ids = [i for i, _ in nodes]
        heads = [i for i, t in nodes if t == ROOT]
        out.append({"nodes": nodes, "edges": edges, "forbid": {}, "ops": [
            {"op": "paths", "a": rng.choice(heads), "b": rng.choice(ids), "k": rng.choice([None, None, 4, 6, 8])} for _ in range(8)]})
    for n in (19, 20, 21, 22):     # the default limit
        ids = ["c%d" % i for i in range(n)]
        nodes = [[ids[0], ROOT]] + [[i, "A"] for i in ids[1:]]
        out.append({"nodes": nodes, "edges": [[ids[i], ids[i + 1]] for i in range(n - 1)], "forbid": {},
                    "ops": [{"op": "paths", "a": ids[0], "b": ids[-1], "k": None},
                            {"op": "paths", "a": ids[0], "b": ids[-1], "k": n},
                            {"op": "paths", "a": ids[0], "b": ids[-1], "k": n - 1},
                            {"op": "paths", "a": ids[1], "b": ids[-1], "k": None}]})
    rng.shuffle(out)
    run.drive(DRIVER, split(oddly(rng, out)))


def c25(run):
    rng = random.Random(run.seed)
    q = [{"op": "order"}]
    cases = shapes(run, rng, "dag", "abcd", "abcde", ["A"], 10 ** 6)
    out = []
    for _ in range(12 if run.quick else 4):
        out += query_cases(run, rng, [dict(c, edges=list(c["edges"] or [])) for c in cases], lambda ids: q)
    for _ in range(400 if run.quick else 10000):
        nodes, edges = rand_graph(rng, rng.randrange(2, 13), ["A", "B", 0, ROOT], acyclic=True)
        out.append({"nodes": nodes, "edges": edges, "ops": q, "forbid": {}})
    for _ in range(100 if run.quick else 2000):
        out.append(after_history(rng, q))
        out.append(edited_valid(rng, lambda ids: q))
    out += large_cases(run, rng, q, DAGS)
    rng.shuffle(out)
    run.drive(DRIVER, split(oddly(rng, out)))


CHECKS = {"C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25}
