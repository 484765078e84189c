"""C17 search spaces to and from dictionaries and JSON."""
import copy
import json
import os
import shutil
import tempfile

import numpy as np

from pyvc.verify import *
from contracts.opt import *

P = "C17"
SS = "bayes_optim.search_space.search_space.SearchSpace."
TYPES = dict(Real=["r", "real"], Integer=["i", "int", "integer"], Ordinal=["o", "ordinal"], Discrete=["c", "cat"], Subset=["s", "subset"], Bool=["b", "bool"])


# ------------------------------------------------------------------ run-time contracts
def _default(r, s):
    b = s["bounds"]
    if s["type"] == "Real":
        return r.uniform(*b)
    if s["type"] == "Integer":
        return b[0] + s["step"] * r.randint(0, (b[1] - b[0]) // s["step"])
    if s["type"] == "Subset":
        return tuple(x for x in b if r.random() < 0.5) or (b[0],)
    return r.choice(b)


def _same_var(v, s, name, default, cond):
    """does the variable have exactly the described type, domain and settings"""
    if type(v).__name__ != s["type"] or v.name != name:
        return False
    b = v._bounds if s["type"] == "Subset" else v.bounds
    if list(b) != list(s["bounds"]) or any(type(x) is not type(y) for x, y in zip(b, s["bounds"])):
        return False
    if v.default_value != default:
        return False
    if s["type"] == "Real" and (v.precision != s["precision"] or v.scale != s["scale"]):
        return False
    if s["type"] == "Integer" and v.step != s["step"]:
        return False
    return (v.conditions["string"] if v.conditions else None) == cond


def _draws(b, sp, ss, info):
    from contracts import gen

    X = sp.sample(12).tolist()
    bad = gen.bad_member(ss, X)
    b.check(bad is None, "the space draws values outside the described domain", bad=bad, **info)


@bounded(P, [SS + "from_dict", SS + "from_json", SS + "to_dict", SS + "to_json"], n=4000, n_thorough=40000, budget=80,
         bound="descriptions of 1-6 variables of every type under every type name, with and without repetition (1-3), default, precision, scale, step and conditions, as dictionary and as JSON file")
def described_spaces(b):
    import bayes_optim.search_space as S
    from contracts import gen

    r = b.py
    tmp = tempfile.mkdtemp(prefix="c17_")
    try:
        for case in b.loop():
            ss = gen.specs(b.rng)
            d, want = {}, []
            for i, s in enumerate(ss):
                e = {"type": r.choice(TYPES[s["type"]])}
                if s["type"] != "Bool" or r.random() < 0.3:
                    e["range"] = r.choice([list, tuple])(s["bounds"])
                dv = None
                if r.random() < 0.3:
                    dv = _default(r, s)
                    e["default"] = dv
                elif r.random() < 0.2:
                    e["default"] = None
                if s["type"] == "Real":
                    if s["precision"] is not None or r.random() < 0.3:
                        e["precision"] = s["precision"]
                    if s["scale"] != "linear" or r.random() < 0.3:
                        e["scale"] = s["scale"]
                if s["type"] == "Integer" and (s["step"] != 1 or r.random() < 0.3):
                    e["step"] = s["step"]
                cond = None
                if i and r.random() < 0.2:
                    cond = f"{ss[0]['name']} == 1"
                    e["conditions"] = cond
                N = 1
                if r.random() < 0.4:
                    N = r.randint(1, 3)
                    e["N"] = r.choice([N, str(N)])
                items = list(e.items())
                r.shuffle(items)
                d[s["name"]] = dict(items)
                if N > 1 and i == 0:  # the selector is renamed
                    pass
                want += [(s, s["name"] if N == 1 else f"{s['name']}{k}", dv, cond) for k in range(N)]
            keep = copy.deepcopy(d)
            info = dict(description=keep)
            how = r.choice(["dict", "json"])
            if how == "json":
                p = os.path.join(tmp, "in.json")
                with open(p, "w") as f:
                    json.dump(d, f)
                sp = S.SearchSpace.from_json(p)
            else:
                sp = S.SearchSpace.from_dict(d)
            b.check(d == keep, "the description was changed", got=d, **info)
            b.check(len(sp) == len(want) and all(_same_var(v, *w) for v, w in zip(sp.data, want)), "the space does not have exactly the described variables", got=str(sp), **info)
            b.check(list(sp.var_name) == [w[1] for w in want], "names", got=list(sp.var_name), **info)
            _draws(b, sp, [w[0] for w in want], info)
            # write it and read it back
            before = str(sp)
            q = os.path.join(tmp, "out.json")
            sp.to_json(q)
            back = S.SearchSpace.from_json(q)
            b.check(str(sp) == before and len(sp) == len(want) and all(_same_var(v, *w) for v, w in zip(sp.data, want)), "writing changed the space", **info)
            b.check(len(back) == len(want) and all(_same_var(v, *w) for v, w in zip(back.data, want)), "the space read back differs", got=str(back), **info)
            b.check(type(back) is type(sp), "the type of the space read back differs", got=type(back).__name__, want=type(sp).__name__, **info)
            once = sp.to_dict()
            b.check(list(once) == [w[1] for w in want], "one entry per variable, in order", got=list(once), **info)
            twice = S.SearchSpace.from_dict(once).to_dict()
            b.check(once == twice, "to_dict(from_dict) is not the identity", got=twice, want=once, **info)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@bounded(P, [SS + "from_dict"], n=10000, n_thorough=80000, budget=30, bound="descriptions with one defect: unknown type, reversed or equal bounds, default outside the domain, unknown scale, fractional precision, missing or too many bounds")
def impossible_descriptions(b):
    import bayes_optim.search_space as S
    from contracts import gen

    r = b.py
    for case in b.loop():
        ss = gen.specs(b.rng)
        d = {}
        for s in ss:
            e = {"type": r.choice(TYPES[s["type"]]), "range": list(s["bounds"])}
            if s["type"] == "Real":
                e.update(precision=s["precision"], scale=s["scale"])
            if s["type"] == "Integer":
                e["step"] = s["step"]
            d[s["name"]] = e
        s = r.choice(ss)
        e = d[s["name"]]
        t = s["type"]
        kinds = ["type"] + (["default"] if t not in ("Bool",) else []) + (["reversed", "equal", "missing"] if t in ("Real", "Integer") else []) + (["scale", "precision"] if t == "Real" else []) + (["many"] if t == "Integer" else [])
        k = r.choice(kinds)
        if k == "type":
            e["type"] = r.choice(["", "float", "categorical", "x", "Reals"])
        elif k == "default":
            e["default"] = s["bounds"][1] + 1 if t == "Real" else s["bounds"][0] - 1 if t == "Integer" else 1000 if t == "Ordinal" else "not a level"
        elif k == "reversed":
            e["range"] = e["range"][::-1]
        elif k == "equal":
            e["range"] = [e["range"][0]] * 2
        elif k == "missing":
            e["range"] = e["range"][:1]
        elif k == "scale":
            e["scale"] = "exponential"
        elif k == "precision":
            e["precision"] = 1.5
        elif k == "many":
            e["range"] = e["range"] + [99]
        try:
            sp = S.SearchSpace.from_dict(d)
        except Exception:
            continue
        b.check(False, "an impossible description was accepted", defect=k, entry=e, name=s["name"], got=str(sp))


# ------------------------------------------------------------------ proofs
def _scales(v):
    """the maps of the scale are not at issue here (C01): identity, on the working range of the scale"""
    mv = v.mod("search_space.variable")
    v.stub(mv, "TRANS", {k: [mv.identity, x[1]] for k, x in mv.TRANS.items()})
    v.stub(mv, "INV_TRANS", {k: mv.identity for k in mv.INV_TRANS})


def _entry(v, kind, i, full):
    """a description with symbolic numbers, and a function that compares a variable with it"""
    if kind == "Real":
        lo, hi = v.real(f"lo{i}"), v.real(f"hi{i}")
        v.assume(v.and_(lo < hi, lo >= -1e300, hi <= 1e300))
        e = {"type": full, "range": [lo, hi]}
        return e, lambda x: v.and_(v.eq(x.bounds[0], lo), v.eq(x.bounds[1], hi))
    if kind == "Integer":
        lo, hi = v.int(f"lo{i}"), v.int(f"hi{i}")
        v.assume(lo < hi)
        return {"type": full, "range": [lo, hi]}, lambda x: v.and_(v.eq(x.bounds[0], lo), v.eq(x.bounds[1], hi))
    lev = [f"l{k}" for k in range(3)]
    if kind == "Bool":
        return {"type": full}, lambda x: list(x.bounds) == [False, True]
    return {"type": full, "range": lev}, lambda x: list(x._bounds if kind == "Subset" else x.bounds) == lev


def _described(kind, name, N, extra):
    def body(v):
        m = v.mod("search_space.search_space")
        made = []

        class Space:
            """the constructor of the space: receives the variables (C03)"""

            def __new__(cls, data, *a, **k):
                made.append(list(data))
                return made[-1]

        _scales(v)
        orig = m.SearchSpace.from_dict
        e, ok = _entry(v, kind, 0, name)
        e2, ok2 = _entry(v, "Integer", 1, "int")
        dv, precision, scale, step = None, None, "linear", 1
        if extra:
            if kind == "Real":
                precision = v.int("precision", 0)
                scale = "bilog"
                e.update(precision=precision, scale=scale)
                dv = v.real("default")
                v.assume(v.and_(dv >= e["range"][0], dv <= e["range"][1]))
            elif kind == "Integer":
                step = v.int("step", 1)
                e["step"] = step
                dv = v.int("default")
                v.assume(v.and_(dv >= e["range"][0], dv <= e["range"][1]))
            elif kind == "Bool":
                dv = False
            elif kind == "Subset":
                dv = ("l0", "l2")
            else:
                dv = "l1"
            e["default"] = dv
            e["conditions"] = "other == 3"
        if N is not None:
            e["N"] = N
        d = {"x": e, "other": e2}
        keep = {k: dict(x) for k, x in d.items()}
        v.stub(m, "SearchSpace", Space)
        out = orig(d)
        n = 1 if N is None else N
        v.ensure("one variable per repetition and description", len(out) == n + 1 and len(made) == 1 and out is made[0])
        cls = getattr(v.mod("search_space.variable"), kind)
        for q, x in enumerate(out[:n]):
            v.ensure(f"repetition {q}: type and name", type(x) is cls and x.name == "x")
            v.ensure(f"repetition {q}: range", ok(x))
            v.ensure(f"repetition {q}: default", v.eq(x.default_value, dv) if isinstance(dv, SymNum) else x.default_value == dv)
            if kind == "Real":
                v.ensure(f"repetition {q}: precision and scale", v.and_(x.precision is precision if precision is None else v.eq(x.precision, precision), x.scale == scale))
            if kind == "Integer":
                v.ensure(f"repetition {q}: step", v.eq(x.step, step))
            v.ensure(f"repetition {q}: condition", (x.conditions["string"] if x.conditions else None) == ("other == 3" if extra else None))
            v.ensure(f"repetition {q}: a variable of its own", all(x is not y for y in out[:q]))
        v.ensure("the next description", v.and_(out[-1].name == "other", ok2(out[-1]), out[-1].conditions is None))
        v.ensure("the description is not changed", {k: set(x) for k, x in d.items()} == {k: set(x) for k, x in keep.items()} and all(d[k][q] is keep[k][q] for k in d for q in d[k]))

    return body


for _kd in TYPES:
    for _nm in TYPES[_kd]:
        for _N, _x in ((None, False), (1, True), (3, True)):
            proof(P, [SS + "from_dict"], name=f"described_{_nm}{'' if _N is None else '_%d' % _N}", assume=["the constructor of the space keeps the variables it is given (C03); the linear and the bilog scale; bounds within 1e300"])(_described(_kd, _nm, _N, _x))


@proof(P, [SS + "from_dict"])
def unknown_types(v):
    m = v.mod("search_space.search_space")
    for t in ("float", "", "categorical"):
        v.ensure(f"type {t!r} is rejected", v.raises(ValueError, lambda: m.SearchSpace.from_dict({"x": {"type": t, "range": [0, 1]}})))
    lo, hi = v.real("lo"), v.real("hi")
    v.assume(lo >= hi)
    v.ensure("reversed bounds are rejected", v.raises(ValueError, lambda: m.SearchSpace.from_dict({"x": {"type": "r", "range": [lo, hi]}})))
    a, c, dv = v.int("a"), v.int("b"), v.int("dv")
    v.assume(v.and_(a < c, v.or_(dv < a, dv > c)))
    v.ensure("a default outside the range is rejected", v.raises(ValueError, lambda: m.SearchSpace.from_dict({"x": {"type": "i", "range": [a, c], "default": dv}})))


@proof(P, [SS + "to_dict"])
def written_description(v):
    m, mv = v.mod("search_space.search_space"), v.mod("search_space.variable")
    lo, hi, p, st, il, ih = v.real("lo"), v.real("hi"), v.int("p", 0), v.int("step", 1), v.int("il"), v.int("ih")
    v.assume(v.and_(lo < hi, il < ih, lo >= -1e300, hi <= 1e300))
    _scales(v)
    dv = v.real("dv")
    v.assume(v.and_(dv >= lo, dv <= hi))
    vs = [mv.Real([lo, hi], "r", dv, precision=p, scale="bilog"), mv.Integer([il, ih], "i", step=st, conditions="c == 'b'"), mv.Discrete(["a", "b"], "c", "b"),
          mv.Ordinal([1, 5, 9], "o", 5), mv.Bool("b", False), mv.Subset(["u", "w"], "s", ("u",))]
    o = m.SearchSpace.__new__(m.SearchSpace)
    o.data = vs
    d = o.to_dict()
    v.ensure("one entry per variable, in order, under its name", [k for k in d] == ["r", "i", "c", "o", "b", "s"])
    v.ensure("types", [d[k]["type"] for k in d] == ["real", "integer", "cat", "ordinal", "bool", "subset"])
    v.ensure("real range", v.and_(v.eq(d["r"]["range"][0], lo), v.eq(d["r"]["range"][1], hi)))
    v.ensure("real settings", v.and_(v.eq(d["r"]["default"], dv), v.eq(d["r"]["precision"], p), d["r"]["scale"] == "bilog"))
    v.ensure("integer range", v.and_(v.eq(d["i"]["range"][0], il), v.eq(d["i"]["range"][1], ih), v.eq(d["i"]["step"], st)))
    v.ensure("levels", [list(d[k]["range"]) for k in "cobs"] == [["a", "b"], [1, 5, 9], [False, True], ["u", "w"]])
    v.ensure("defaults", [d[k]["default"] for k in "icobs"] == [None, "b", 5, False, ("u",)])
    v.ensure("conditions", [d[k]["conditions"] for k in d] == [None, "c == 'b'", None, None, None, None])
    v.ensure("one repetition each", all(d[k]["N"] == 1 for k in d))
