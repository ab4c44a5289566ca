"""C27: operations leave their inputs alone, copies share nothing, in-place edits touch only their target."""
import warnings
import numpy as np
import riptable as rt
from rv.core import case, plain
from rv import gen

warnings.simplefilter("ignore")

from rv.ops import OPS, build, state, world


def arrays(x, out=None, depth=0):
    out = [] if out is None else out
    if isinstance(x, np.ndarray):
        out.append(plain(x))  # category tables are shared on purpose and edited through the API only: see edit_cat
    elif isinstance(x, rt.Struct):
        for v in x.values():
            arrays(v, out, depth + 1)
    elif isinstance(x, dict):
        for v in x.values():
            arrays(v, out, depth + 1)
    elif isinstance(x, (list, tuple)) and depth < 3:
        for v in x:
            arrays(v, out, depth + 1)
    return out


def unchanged(m, before, w, what, skip=(), mech=None):
    for k, s in before.items():
        if k in skip:
            continue
        d = gen.snap_diff(s, state(w[k]))
        m.check(d is None, f"{what}: input {k} changed", mech=mech, difference=d)


@case(n=len(OPS) * 2, thorough=len(OPS) * 20)
def inputs_kept(m, r):
    w, before = build(r)
    for _ in range(4):
        name, fn = OPS[(m.idx + r.int(0, 3) * 37) % len(OPS)] if _ else OPS[m.idx % len(OPS)]
        res, err = m.attempt(name, fn, w, r)
        unchanged(m, before, w, name)
    m.note(op=OPS[m.idx % len(OPS)][0], failed=type(err).__name__ if err else None)


def vals(ds):
    """the result column of a named input"""
    return ds["val_"]


def last(ds):
    """the value column; the key column of a group result is the category table itself"""
    return ds[list(ds.keys())[-1]]


# results that must own their data: changing them never reaches an input
FRESH = [
    ("a.copy", lambda w, r: w["a"].copy()), ("c.copy", lambda w, r: w["c"].copy()), ("c2.copy", lambda w, r: w["c2"].copy()), ("d.copy", lambda w, r: w["d"].copy()),
    ("ds.copy", lambda w, r: w["ds"].copy()), ("ds.copy-deep", lambda w, r: w["ds"].copy(deep=True)), ("st.copy", lambda w, r: w["st"].copy()),
    ("ms.copy", lambda w, r: rt.Multiset({"m": w["ds"], "n": w["ds2"]}).copy()),
    ("ds.mask", lambda w, r: w["ds"][w["f"], :]), ("ds.fancy", lambda w, r: w["ds"][w["idx"], :]), ("ds.filter", lambda w, r: w["ds"].filter(w["f"])),
    ("ds.sort_copy", lambda w, r: w["ds"].sort_copy("x")), ("a.mask", lambda w, r: w["a"][w["f"]]), ("a.fancy", lambda w, r: w["a"][w["idx"]]),
    ("a.fillna", lambda w, r: w["a"].fillna(0)), ("a+b", lambda w, r: w["a"] + w["b"]), ("a.sorted", lambda w, r: rt.sort(w["a"])), ("a.shift", lambda w, r: w["a"].shift(1)),
    ("c.filter", lambda w, r: w["c"].filter(w["f"])), ("hstack", lambda w, r: rt.hstack([w["a"], w["b"]])), ("hstack-cat", lambda w, r: rt.hstack([w["c"], w["c"]])),
    ("hstack-ds", lambda w, r: rt.hstack([w["ds"], w["ds"]])), ("merge_lookup-right", lambda w, r: rt.merge_lookup(w["ds"], w["ds2"], on="k", columns_left=["k"], columns_right=["z"]).z),
    ("gb.sum", lambda w, r: w["ds"].gb("g").sum()), ("cat.sum", lambda w, r: vals(w["c"].sum(rt.Dataset({"val_": w["a"]})))), ("cat.first", lambda w, r: vals(w["c"].first(rt.Dataset({"val_": w["a"]})))),
    ("fill_forward", lambda w, r: w["a"].fill_forward()), ("str.upper", lambda w, r: w["s"].str.upper), ("where", lambda w, r: rt.where(w["f"], w["a"], w["b"])),
    ("transform", lambda w, r: w["c"].sum(w["a"], transform=True)), ("ismember", lambda w, r: rt.ismember(w["s"], w["ds2"].k)), ("unique", lambda w, r: rt.unique(w["a"])),
    ("astype", lambda w, r: w["a"].astype("f8")), ("ds.fillna", lambda w, r: w["ds2"][["z", "y"]].fillna(0)), ("ds.drop_duplicates", lambda w, r: w["ds"].drop_duplicates("k")),
    ("ds.asdict-copy", lambda w, r: w["ds"].asdict(copy=True)), ("set_valid", lambda w, r: w["c"].set_valid(w["f"])),
    ("cumsum", lambda w, r: w["a"].cumsum()), ("concat_columns", lambda w, r: rt.Dataset.concat_columns([w["ds"][["x"]], w["ds2"][["z"]]], do_copy=True)),
    ("ds*2", lambda w, r: w["ds2"][["z", "g"]] * 2), ("d+0", lambda w, r: w["d"] + rt.TimeSpan(1, "s")), ("astimezone", lambda w, r: w["d"].copy().astimezone("NYC")),
    ("c.expand", lambda w, r: w["c"].expand_array), ("as_string", lambda w, r: rt.Cat(w["s"]).as_string_array),
    ("Cat(strings)", lambda w, r: rt.Cat(w["s"])), ("ds.sample", lambda w, r: w["ds"].sample(1)), ("ds.melt", lambda w, r: w["ds"].melt(id_vars=["k"], value_vars=["x", "y"])),
    ("accum2", lambda w, r: last(rt.Accum2(w["c"], w["s"]).sum(w["a"]))), ("a.clip", lambda w, r: w["a"].clip(-1, 1)), ("pickle", lambda w, r: __import__("pickle").loads(__import__("pickle").dumps(w["ds"]))),
    ("copy.deepcopy", lambda w, r: __import__("copy").deepcopy(w["ds"])), ("copy.deepcopy-cat", lambda w, r: __import__("copy").deepcopy(w["c"])), ("copy.deepcopy-st", lambda w, r: __import__("copy").deepcopy(w["st"])),
]


def scramble(x):
    """overwrite every writable array of a result"""
    done = 0
    for p in arrays(x):
        if p.size and p.flags.writeable:
            if p.dtype.kind in "SU":
                p[...] = "!" if p.dtype.kind == "U" else b"!"
            elif p.dtype.kind == "b":
                p[...] = ~p
            elif p.dtype.kind in "iuf":
                p[...] = 77
            done += 1
    return done


@case(n=len(FRESH) * 3, thorough=len(FRESH) * 30)
def results_own_data(m, r):
    name, fn = FRESH[m.idx % len(FRESH)]
    w, before = build(r)
    res, err = m.attempt(name, fn, w, r)
    unchanged(m, before, w, name)
    if err is not None:
        return
    k = scramble(res)
    unchanged(m, before, w, name + ", result overwritten")
    m.note(op=name, arrays=k)


def edit_column(w, r):
    x = w["ds"]["x"]
    x[0] = 99


# in-place operations: (name, keys that may change, function)
INPLACE = [
    ("ds.filter-inplace", ("ds",), lambda w, r: w["ds"].filter(w["f"], inplace=True)),
    ("ds.sort_inplace", ("ds",), lambda w, r: w["ds"].sort_inplace(r.pick(["x", "k", "c", ["g", "x"]]))),
    ("ds.sort_view", ("ds",), lambda w, r: w["ds"].sort_view("x")),
    ("ds.fillna-inplace", ("ds2", "st", "j", "b"), lambda w, r: w["ds2"][["z", "y"]].fillna(0, inplace=True)),
    ("ds.col_rename", ("ds",), lambda w, r: w["ds"].col_rename("x", "xx")),
    ("ds.col_remove", ("ds",), lambda w, r: w["ds"].col_remove(w["lst"])),
    ("ds.col_pop", ("ds",), lambda w, r: w["ds"].col_pop("x")),
    ("ds.col_map", ("ds",), lambda w, r: w["ds"].col_map(w["dct"])),
    ("ds.col_move_to_front", ("ds",), lambda w, r: w["ds"].col_move_to_front(w["lst"])),
    ("ds.col_move_to_back", ("ds",), lambda w, r: w["ds"].col_move_to_back(w["lst"])),
    ("ds.col_add_prefix", ("ds",), lambda w, r: w["ds"].col_add_prefix("p_")),
    ("ds.col_swap", ("ds",), lambda w, r: w["ds"].col_swap(["x", "y"], ["y", "x"])),
    ("ds.set-new", ("ds",), lambda w, r: w["ds"].__setitem__("new", w["b"])),
    ("ds.set-replace", ("ds",), lambda w, r: w["ds"].__setitem__("x", w["b"])),
    ("ds.col_replace_all", ("ds",), lambda w, r: w["ds"].col_replace_all({k: w["b"] for k in w["ds"].keys()})),
    ("ds.label_set", ("ds",), lambda w, r: w["ds"].label_set_names(["g"])),
    ("ds.footer", ("ds",), lambda w, r: w["ds"].footer_set_values("tot", {"x": 1.})),
    ("ds.astype", ("ds2",), lambda w, r: w["ds2"].astype("f8", ignore_non_computable=True)),
    ("ds.merge_lookup-inplace", ("ds",), lambda w, r: w["ds"].merge_lookup(w["ds2"], on="k", columns_right=["z"], inplace=True)),
    ("ds.drop_duplicates-inplace", ("ds",), lambda w, r: w["ds"].drop_duplicates("k", inplace=True)),
    ("ds.trim-none", ("ds",), lambda w, r: w["ds"].col_delete("x")),
    ("st.set", ("st",), lambda w, r: setattr(w["st"], "zz", w["b"])),
    ("st.rename", ("st",), lambda w, r: w["st"].col_rename("p", "pp")),
    ("copy-then-edit-ds", ("copy",), lambda w, r: edit_copy(w["ds"].copy(), r)),
    ("copy-then-edit-c", ("copy",), lambda w, r: edit_cat(w["c"].copy(), r)),
    ("copy-then-edit-c2", ("copy",), lambda w, r: edit_cat(w["c2"].copy(), r)),
    ("slice-copy-edit", ("copy",), lambda w, r: edit_copy(w["ds"][w["idx"], :], r)),
    ("shallow-add-col", ("copy",), lambda w, r: shallow_edit(w["ds"].copy(deep=False))),
    ("shallow-index-add", ("copy",), lambda w, r: shallow_edit(w["ds"][["x", "y"]])),
    ("shallow-cat-filter", ("copy",), lambda w, r: w["c"].copy(deep=False).filter(w["f"])),
    ("c.edit", ("c", "ds"), lambda w, r: edit_cat(w["c"], r)),
    ("a.edit", ("a", "par", "ds", "st"), lambda w, r: w["a"].__setitem__(w["f"], 0)),
    ("i.iadd", ("i", "ds", "st"), lambda w, r: w["i"].__iadd__(1)),
    ("b.sort", ("b", "ds2", "st"), lambda w, r: w["b"].sort()),
    ("b.fillna-inplace", ("b", "ds2", "st"), lambda w, r: w["b"].fillna(3., inplace=True)),
    ("rt.putmask", ("b", "ds2", "st"), lambda w, r: rt.putmask(w["b"], w["f"], w["a"])),
    ("b.fill_invalid", ("b", "ds2", "st"), lambda w, r: w["b"].fill_invalid(inplace=True)),
    ("b.fill_forward-inplace", ("b", "ds2", "st"), lambda w, r: w["b"].fill_forward(inplace=True)),
    ("nan_to_zero", ("b", "ds2", "st"), lambda w, r: rt.nan_to_zero(w["b"])),
]


def edit_copy(d, r):
    d["extra"] = 1
    for k in ("x", "y", "t"):
        d[k][...] = d[k][0]
    d.col_rename("k", "kk")
    c = d["c"]
    c[...] = c[0]
    edit_cat(c, r)
    d.sort_inplace("x")


def edit_cat(c, r):
    if c.isenum or c.ismultikey or plain(c.category_array).dtype.kind not in "SU":
        c[0] = c[-1]
        return
    k = r.int(0, 4)
    if k == 0:
        c.auto_add_on()
        c[0] = "a brand new label"
    elif k == 1:
        c.category_replace(c.category_array[0], "renamed label")
    elif k == 2:
        c.category_add("added label")
    elif k == 3:
        c.filtered_set_name("gone")
    else:
        c.invalid_set(0) if hasattr(c, "invalid_set") else None
        c[0] = c.category_array[-1]


def shallow_edit(d):
    d["extra"] = 1
    d.col_rename("x", "renamed")
    d.col_remove("y")


@case(n=len(INPLACE) * 4, thorough=len(INPLACE) * 40)
def inplace_only_target(m, r):
    name, may, fn = INPLACE[m.idx % len(INPLACE)]
    w, _ = build(r)
    keep = {}
    for k in ("ds", "ds2", "c", "c2", "a", "b", "i", "d", "st"):
        keep["copy of " + k] = w[k].copy()
    # a second Dataset holding the same columns: only its arrays may be shared, never its structure
    w2 = dict(w, **keep)
    before = {k: state(v) for k, v in w2.items()}
    res, err = m.attempt(name, fn, w, r)
    skip = set(may)
    if name in ("ds.sort_inplace", "ds.fillna-inplace", "ds.filter-inplace"):
        # these rewrite the Dataset's own columns, which the caller may also hold
        skip |= {"a", "i", "s", "c", "d", "st", "par"}
    unchanged(m, before, w2, name, skip=skip)
    m.note(op=name, failed=type(err).__name__ if err else None)
