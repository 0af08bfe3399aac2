import random
from impl import kind, parse, guard


@kind("rel")
def k_rel(case):
    def go():
        p = parse(case)
        objs = list(p.objs)
        n = len(objs)
        pos = {id(o): i for i, o in enumerate(objs)}
        ids = lambda xs: [pos.get(id(x), -1) for x in xs]
        w = case["word"]
        q = parse(case)
        shuffled = list(objs)
        random.Random(len(objs)).shuffle(shuffled)
        return {
            "n": n,
            "allchildren": [ids(o.all_children) for o in objs],
            "allparents": [ids(o.all_parents) for o in objs],
            "lineage": [ids(o.lineage) for o in objs],
            "geneology": [ids(o.geneology) for o in objs],
            "geneologytext": [list(o.geneology_text) for o in objs],
            "siblings": [ids(o.siblings) for o in objs],
            "endpoint": [o.family_endpoint for o in objs],
            "isparent": [bool(o.is_parent) for o in objs],
            "haschildren": [bool(o.has_children) for o in objs],
            "ischild": [bool(o.is_child) for o in objs],
            "ioscfg": [list(o.ioscfg) for o in objs],
            "isconfig": [bool(o.is_config_line) for o in objs],
            "childwith": [bool(o.has_child_with(w)) for o in objs],
            "descwith": [bool(o.has_child_with(w, all_children=True)) for o in objs],
            "eqpairs": [[i, j] for i in range(n) for j in range(n) if i != j and (objs[i] == objs[j])],
            "badorder": [[i, j] for i in range(n) for j in range(n)
                         if (objs[i] < objs[j]) != (i < j) or (objs[i] > objs[j]) != (i > j)],
            "setsize": len(set(objs)),
            "again": [bool(a == b) and hash(a) == hash(b) for a, b in zip(objs, q.objs)],
            "sorted": ids(sorted(shuffled)),
        }
    return guard(go)
