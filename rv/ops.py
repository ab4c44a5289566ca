"""Workload shared by C27 and C28: a world of related objects and a table of non-mutating operations over it."""
import warnings
import numpy as np
import riptable as rt
from rv.core import plain
from rv import gen

warnings.simplefilter("ignore")
np.seterr(all="ignore")


def state(x):
    """what a caller can observe of an object, beyond gen.snap"""
    s = gen.snap(x)
    if isinstance(x, rt.Categorical):
        s["sort_gb"] = x._sort_gb
        s["filtered"] = x.filtered_name
        s["ncat"] = x.unique_count
    if isinstance(x, rt.Dataset):
        s["labels"] = list(x.label_get_names())
        s["summary"] = list(x.summary_get_names())
        s["nrows"] = x.get_nrows()
        s["locked"] = x.is_locked()
        s["foot"] = gen.snap(x.footer_get_dict() or {}) if x.get_nrows() else None
    return s


def world(r, n):
    """a set of related inputs; several are views into larger arrays"""
    w = {}
    par = np.round(r.g.normal(0, 20, 2 * n + 2), 2)
    if r.chance(.5):
        par[r.g.random(len(par)) < .15] = np.nan
    w["par"] = rt.FastArray(par)
    w["a"] = w["par"][:n] if r.chance(.6) else w["par"][: 2 * n: 2]
    w["b"] = rt.FastArray(gen.num(r, n, "f8", inv=.1))
    w["i"] = rt.FastArray(gen.num(r, n, r.pick(["i4", "i8", "i1", "u1"]), inv=.1))
    w["j"] = rt.FastArray(gen.num(r, n, w["i"].dtype, inv=.1))
    w["f"] = rt.FastArray(gen.bools(r, n, .6))
    w["s"] = rt.FastArray(gen.words(r, n, "S", empty=.1))
    w["u"] = rt.FastArray(gen.words(r, n, "U", empty=.1), unicode=True)
    w["idx"] = rt.FastArray(r.g.integers(0, n, n).astype("i4"))
    w["c"] = gen.cat(r, n, kind=r.pick(["str", "codes", "ordered0", "int"]))
    w["c2"] = gen.cat(r, n, kind=r.pick(["str", "codes", "multi", "enum"]))
    w["d"] = gen.column(r, n, "dtn")
    w["dt"] = gen.column(r, n, "date")
    w["ts"] = gen.column(r, n, "span")
    w["ds"] = rt.Dataset({"k": w["s"], "x": w["a"], "y": w["i"], "c": w["c"], "t": w["d"], "g": rt.FastArray(r.g.integers(0, 3, n))})
    w["ds2"] = rt.Dataset({"k": rt.FastArray(gen.words(r, n, "S")), "z": w["b"], "g": rt.FastArray(r.g.integers(0, 3, n)), "y": w["j"]})
    w["st"] = rt.Struct({"p": w["a"], "q": 5, "in": rt.Struct({"e": w["i"], "ds": w["ds2"]})})
    w["gb"] = w["ds"].gb(r.pick(["g", "k", ["k", "g"], "c"]))
    w["acc"] = rt.Accum2(w["c"], rt.Cat(w["s"]))
    w["lst"] = ["x", "y"]
    w["dct"] = {"x": "xx", "y": "yy"}
    if r.chance(.3):
        w["ds"].label_set_names(["k"])
    return w


def op(fn):
    OPS.append(fn)
    return fn


OPS = []


def maybe(x, *a):
    return x(*a) if callable(x) and not isinstance(x, (np.ndarray, rt.Struct)) else x


A = lambda name, fn: OPS.append((name, fn))

# element-wise, reductions and order operations on arrays
for o in ["+", "-", "*", "/", "//", "%", "**", "<", "<=", "==", "!=", ">", ">=", "&", "|", "^"]:
    k = ("f", "f") if o in "&|^" else ("a", "b")
    A("num" + o, eval(f"lambda w, r: w['{k[0]}'] {o} w['{k[1]}']"))
    if o not in ("//", "%", "**"):
        A("int" + o, eval(f"lambda w, r: w['{'f' if o in '&|^' else 'i'}'] {o} w['{'f' if o in '&|^' else 'j'}']"))
for nm in ["abs", "sign", "trunc", "isnan", "isnotnan", "isfinite", "isinf", "isnanorzero", "sum", "nansum", "mean", "nanmean", "min", "max", "nanmin",
           "nanmax", "std", "var", "nanstd", "nanvar", "median", "nanmedian", "argmin", "argmax", "nanargmin", "nanargmax", "cumsum", "cumprod",
           "cummax", "cummin", "diff", "shift", "fill_forward", "fill_backward", "unique", "nunique", "count", "describe", "statx", "rankdata", "nanrankdata",
           "normalize_minmax", "normalize_zscore", "copy_invalid", "fillna", "isna", "notna", "issorted", "duplicated", "transitions", "argsort", "crc",
           "tolist", "any", "all", "push", "sample", "round", "info"]:
    for tgt in ("a", "i"):
        A(f"{tgt}.{nm}", lambda w, r, nm=nm, tgt=tgt: maybe(getattr(w[tgt], nm), *([0] if nm == "fillna" else [])))
for nm, args in [("rolling_sum", 3), ("rolling_mean", 2), ("rolling_nansum", 2), ("rolling_std", 3), ("rolling_nanmean", 3), ("move_max", 2), ("move_median", 3),
                 ("clip_lower", 0), ("clip_upper", 0), ("between", (0, 5)), ("isin", "b"), ("isin", "a"),
                 ("replacena", 0.), ("ema_decay", ("idx_sorted", 1.)), ("repeat", 2), ("tile", 2), ("clip", (-1, 1)), ("filter", "f"),
                 ("astype", "f4"), ("astype", "i8"), ("map", "dctnum"), ("timewindow_sum", ("idx_sorted", 2)), ("apply", "fun")]:
    def run(w, r, nm=nm, args=args):
        def val(v):
            if v == "idx_sorted":
                return rt.FastArray(np.sort(plain(w["idx"])).astype("i8"))
            if v == "dctnum":
                return {1.: 2., 3.: 4.}
            if v == "fun":
                return lambda x: x * 2
            return w[v] if isinstance(v, str) and v in w else v
        return getattr(w["a"], nm)(*[val(v) for v in (args if isinstance(args, tuple) else (args,))])
    A("a." + nm, run)

# module functions
for nm in ["unique", "sum", "nansum", "mean", "nanmean", "std", "nanstd", "var", "min", "max", "nanmin", "nanmax", "sort", "argsort", "cumsum", "diff", "absolute",
           "isnan", "isnotnan", "floor", "ceil", "trunc", "round", "nan_to_num", "nan_to_zero", "crc32c", "reverse", "log", "combine2keys", "hstack"]:
    def run(w, r, nm=nm):
        if nm == "hstack":
            return rt.hstack([w["a"], w["b"]])
        if nm == "reverse":
            return w["a"][::-1]
        if nm == "combine2keys":
            return rt.combine2keys(w["idx"], w["idx"], int(len(w["idx"])), int(len(w["idx"])))
        return getattr(rt, nm)(w["b"].copy() if nm in ("nan_to_num", "nan_to_zero") else w["a"])
    A("rt." + nm, run)
A("rt.ismember", lambda w, r: rt.ismember(w["s"], w["ds2"].k))
A("rt.ismember-num", lambda w, r: rt.ismember(w["i"], w["j"]))
A("rt.ismember-cat", lambda w, r: rt.ismember(w["c"], w["s"]))
A("rt.ismember-multi", lambda w, r: rt.ismember([w["s"], w["idx"]], [w["ds2"].k, w["idx"]]))
A("rt.where", lambda w, r: rt.where(w["f"], w["a"], w["b"]))
A("rt.lexsort", lambda w, r: rt.lexsort([w["a"], w["s"]]))
A("rt.searchsorted", lambda w, r: rt.searchsorted(rt.sort(w["b"]), w["a"]))
A("rt.cut", lambda w, r: rt.cut(w["a"], [-10., 0., 10.]))
A("rt.qcut", lambda w, r: rt.qcut(w["a"], 2, duplicates="drop"))
A("rt.interp", lambda w, r: rt.interp(w["a"], [0., 1., 2.], [5., 6., 7.]))
A("rt.mask_or", lambda w, r: rt.mask_or(w["f"], ~w["f"]))
A("rt.mask_and", lambda w, r: rt.mask_and(w["f"], w["f"], ~w["f"]))
A("rt.mask_xor", lambda w, r: rt.mask_xor(w["f"], ~w["f"]))
A("rt.mask_andnot", lambda w, r: rt.mask_andnot(w["f"], ~w["f"]))
A("rt.unique-multi", lambda w, r: rt.unique([w["s"], w["idx"]]))
A("rt.hstack-cat", lambda w, r: rt.hstack([w["c"], w["c"]]))
A("rt.hstack-mixcat", lambda w, r: rt.hstack([rt.Cat(w["s"]), rt.Cat(w["ds2"].k)]))
A("rt.hstack-ds", lambda w, r: rt.hstack([w["ds"], w["ds"]]))
A("rt.vstack", lambda w, r: rt.vstack([w["a"], w["b"]]))
A("rt.concatenate", lambda w, r: rt.concatenate([w["i"], w["a"]]))
A("rt.alignmk", lambda w, r: rt.alignmk(w["s"], w["ds2"].k, w["idx"], w["idx"]))
A("rt.bool_to_fancy", lambda w, r: rt.bool_to_fancy(w["f"]))
A("rt.groupbyhash", lambda w, r: rt.groupbyhash([w["s"], w["idx"]]))
A("rt.groupbylex", lambda w, r: rt.groupbylex([w["s"], w["idx"]]))
A("rt.groupby", lambda w, r: rt.groupby([w["s"]], filter=w["f"]))
A("np.sort", lambda w, r: np.sort(w["a"]))
A("np.concatenate", lambda w, r: np.concatenate([w["a"], w["b"]]))
A("np.unique", lambda w, r: np.unique(w["i"]))
A("index-mask", lambda w, r: [w[k][w["f"]] for k in ("a", "s", "c", "d", "dt", "ts")])
A("index-fancy", lambda w, r: [w[k][w["idx"]] for k in ("a", "u", "c", "d", "dt", "ts")])
A("out-param", lambda w, r: np.add(w["a"], w["b"], out=w["b"].copy()))

# strings
for nm, args in [("upper", ()), ("lower", ()), ("strlen", None), ("contains", ("a",)), ("startswith", ("a",)), ("endswith", ("a",)), ("regex_match", ("a.*",)),
                 ("strpbrk", None), ("strstr", ("a",)), ("replace", ("a", "zz")), ("substr", (0, 2)), ("extract", ("(.)",)), ("char", (0,)), ("removetrailing", ()), ("reverse", ()),
                 ("regex_replace", ("a", "q"))]:
    for tgt in ("s", "u", "c"):
        if args is not None:
            A(f"{tgt}.str.{nm}", lambda w, r, nm=nm, args=args, tgt=tgt: maybe(getattr(w[tgt].str, nm), *args))
A("str_append", lambda w, r: w["s"].str_append(w["ds2"].k))
A("str+", lambda w, r: w["s"] + w["ds2"].k)

# dates
for nm in ["year", "month", "day", "hour", "minute", "second", "day_of_week", "day_of_year", "is_dst", "tz_offset", "is_weekend", "start_of_week", "date", "monthyear", "yyyymmdd",
           "time_since_midnight", "nanos_since_midnight", "days_since_epoch", "isnan", "diff", "min", "max", "to_iso", "cummax", "argsort", "unique"]:
    for tgt in ("d", "dt"):
        A(f"{tgt}.{nm}", lambda w, r, nm=nm, tgt=tgt: maybe(getattr(w[tgt], nm)) if hasattr(w[tgt], nm) else None)
A("d+ts", lambda w, r: w["d"] + w["ts"])
A("d-d", lambda w, r: w["d"] - w["d"])
A("d-ts", lambda w, r: w["d"] - w["ts"])
A("ts-arith", lambda w, r: (w["ts"] * 2, w["ts"] / 2, w["ts"] + w["ts"], -w["ts"], abs(w["ts"])))
A("ts-parts", lambda w, r: (w["ts"].hours, w["ts"].minutes, w["ts"].seconds, w["ts"].days))
A("dt-arith", lambda w, r: (w["dt"] + 1, w["dt"] - w["dt"], w["dt"] > w["dt"]))
A("astimezone", lambda w, r: w["d"].astimezone("NYC"))
A("strftime", lambda w, r: w["dt"][w["dt"].isnotnan()].strftime("%Y"))
A("cut_time", lambda w, r: w["d"].cut_time(60, start_time=(9, 0), end_time=(17, 0)))
A("d.resample", lambda w, r: w["d"].resample("1h"))

# categoricals and groupings
for nm in ["count", "sum", "mean", "nanmean", "min", "max", "first", "last", "median", "std", "var", "nansum", "cumsum", "cumcount", "shift", "rolling_diff", "rolling_sum", "ema_decay",
           "nth", "mode", "fill_forward", "fill_backward", "quantile", "cumprod", "count_uniques", "nb_sum"]:
    def run(w, r, nm=nm):
        c = w["c"]
        kw = {"filter": w["f"]} if r.chance(.4) and nm in ("sum", "mean", "min", "max", "nansum", "first", "last", "count", "std", "median", "var", "mode", "nanmean") else {}
        if nm in ("count", "ngroup"):
            return getattr(c, nm)(**kw)
        if nm in ("cumcount",):
            return c.cumcount()
        if nm in ("shift",):
            return c.shift_cat(1) if r.chance(.3) else c.shift(w["a"], window=1)
        if nm in ("rolling_sum", "rolling_diff"):
            return getattr(c, nm)(w["b"], window=2)
        if nm == "ema_decay":
            return c.ema_decay(w["b"], time=rt.FastArray(np.sort(plain(w["idx"])).astype("i8")), decay_rate=1.)
        if nm == "nth":
            return c.nth(w["b"], 1, **({"filter": w["f"]} if r.chance(.5) else {}))
        if nm == "quantile":
            return c.quantile(w["b"], q=.3)
        return getattr(c, nm)(w[r.pick(["a", "b", "i"])], **kw)
    A("c." + nm, run)
for nm in ["first", "last", "median", "sum"]:
    for tgt in ("c", "gb"):
        def run(w, r, nm=nm, tgt=tgt):
            kw = {"filter": w["f"]} if r.chance(.6) else {}
            return getattr(w["c"], nm)(w["b"], **kw) if tgt == "c" else getattr(w["gb"], nm)(**kw)
        A(f"{tgt}.{nm}-filter", run)
A("c.apply_reduce-filter", lambda w, r: w["c"].apply_reduce(lambda x: x.sum(), w["b"], filter=w["f"]))
A("c.apply-filter", lambda w, r: w["c"].apply(lambda x: x.sum(), w["b"], filter=w["f"]))
A("c.groups", lambda w, r: w["c"].groups)
A("c.iter_groups", lambda w, r: list(w["c"].iter_groups()))
A("c.fancy", lambda w, r: (w["c"].first_fancy, w["c"].last_fancy, w["c"].first_bool, w["c"].last_bool))
A("c.packing", lambda w, r: (w["c"].grouping.ncountgroup, w["c"].grouping.igroup, w["c"].grouping.ifirstgroup, w["c"].grouping.igroupreverse, w["c"].grouping.ncountkey))
A("c.keys", lambda w, r: (w["c"].grouping.ifirstkey, w["c"].grouping.ilastkey, w["c"].grouping.inextkey, w["c"].grouping.iprevkey))
A("c.rolling_count", lambda w, r: (w["c"].rolling_count(), w["c"].cumcount(ascending=False)))
A("c.get_groupings", lambda w, r: w["c"].get_groupings(filter=w["f"] if r.chance() else None))
A("c.as_filter", lambda w, r: w["c"].as_filter(1))
A("c.merge-right", lambda w, r: rt.merge2(w["ds2"][["z"]].copy() if False else rt.Dataset({"c": w["c"], "l": w["b"]}), rt.Dataset({"c": w["c"], "z": w["i"]}), on="c", how=r.pick(["left", "inner", "outer"]), suffixes=("_1", "_2")))
A("c.merge-keep", lambda w, r: rt.merge2(rt.Dataset({"c": w["c"], "l": w["b"]}), rt.Dataset({"c": w["c"], "z": w["i"]}), on="c", keep=r.pick(["first", "last"]), suffixes=("_1", "_2")))
A("c.merge_lookup", lambda w, r: rt.merge_lookup(rt.Dataset({"c": w["c"], "l": w["b"]}), rt.Dataset({"c": w["c"], "z": w["i"]}), on="c", columns_right=["z"]))
A("c.merge_asof", lambda w, r: rt.merge_asof(rt.Dataset({"c": w["c"], "t": rt.sort(w["idx"])}), rt.Dataset({"c": w["c"], "t": rt.sort(w["idx"]), "z": w["i"]}), on="t", by="c"))
A("c.unique-counts", lambda w, r: rt.unique(w["c"], return_index=True, return_inverse=True))
A("c.duplicated", lambda w, r: (w["c"].duplicated(), w["ds"].drop_duplicates("c")))
for nm in ["sum", "mean", "first", "cumsum", "count", "nansum", "max"]:
    A("gb." + nm, lambda w, r, nm=nm: getattr(w["gb"], nm)())
A("gb.groups", lambda w, r: (w["gb"].groups, [(k, v.copy()) for k, v in w["gb"]]))
A("gb.apply", lambda w, r: w["gb"].apply(lambda d: d.sum()))
A("gb.agg", lambda w, r: w["gb"].agg({"x": "sum", "y": ["min", "max"]}))
A("gb.fancy", lambda w, r: (w["gb"].first_fancy, w["gb"].last_fancy, w["gb"].ngroups if hasattr(w["gb"], "ngroups") else 0))
A("acc.sum", lambda w, r: w["acc"].sum(w["b"], **({"filter": w["f"]} if r.chance() else {})))
A("acc.count", lambda w, r: w["acc"].count(**({"filter": w["f"]} if r.chance() else {})))
A("acc.first", lambda w, r: w["acc"].first(w["b"], **({"filter": w["f"]} if r.chance() else {})))
A("acc.median", lambda w, r: w["acc"].median(w["b"], **({"filter": w["f"]} if r.chance() else {})))
A("acc.groupings", lambda w, r: (w["acc"].ncountgroup, w["acc"].grouping.igroup))
A("c.transform", lambda w, r: w["c"].sum(w["a"], transform=True))
A("c.sum-ds", lambda w, r: w["c"].sum(w["ds2"]))
A("c.agg", lambda w, r: w["c"].agg(["sum", "mean"], w["b"]))
A("c.apply_reduce", lambda w, r: w["c"].apply_reduce(lambda x: x.sum(), w["b"]))
A("c.apply_nonreduce", lambda w, r: w["c"].apply_nonreduce(lambda x: x.cumsum(), w["b"]))
A("c.apply_mut", lambda w, r: w["c"].apply_nonreduce(lambda x: x * 2, w["a"]))
A("c.expand", lambda w, r: w["c"].expand_array)
A("c2.expand", lambda w, r: w["c2"].expand_array)
A("c.filter", lambda w, r: w["c"].filter(w["f"]))
A("c2.filter", lambda w, r: w["c2"].filter(w["f"]))
A("c.set_valid", lambda w, r: w["c"].set_valid(w["f"]))
A("c.shrink", lambda w, r: w["c"].shrink(list(w["c"].category_array[:1])))
A("c.as_singlekey", lambda w, r: w["c2"].as_singlekey())
A("c.sorted", lambda w, r: rt.sort(w["c"]))
A("c.unique", lambda w, r: w["c"].unique())
A("c.isin", lambda w, r: w["c"].isin(["red", "a", "b"]))
A("c==", lambda w, r: (w["c"] == "red", w["c"] != "b"))
A("c.copy", lambda w, r: w["c"].copy(deep=r.chance()))
A("c.map", lambda w, r: w["c"].map({"a": "b", "red": "blue"}))
A("c.one_hot", lambda w, r: w["c"].one_hot_encode())
A("c.align", lambda w, r: rt.Cat.align([rt.Cat(w["s"]), rt.Cat(w["ds2"].k)]))
A("c.cat-of-cat", lambda w, r: rt.Cat(w["c"]))
A("c.multi", lambda w, r: rt.Cat([w["c"], w["s"]]))
A("c.fillna", lambda w, r: w["c"].fill_forward(w["a"]))
A("c.groupings", lambda w, r: (w["c"].grouping.igroup, w["c"].grouping.ifirstkey, w["c"].grouping.ncountgroup, w["c"].iter_groups()))
A("c.as_filter", lambda w, r: w["c"].isfiltered())
A("c.nunique", lambda w, r: w["c"].nunique())
A("c.to_arrow", lambda w, r: w["c"].to_arrow())
A("Cat(values, cats)", lambda w, r: rt.Cat(w["s"], np.unique(plain(w["s"]))))
A("Cat(filter)", lambda w, r: rt.Cat(w["s"], filter=w["f"]))
A("Cat(codes)", lambda w, r: rt.Cat(w["idx"] % 3 + 1, np.array(["q", "w", "e"])))
A("accum2", lambda w, r: rt.Accum2(w["c"], w["s"]).sum(w["a"]))
A("accumtable", lambda w, r: rt.Accum2(w["s"], w["ds2"].k).count(filter=w["f"]))
A("accum_cols", lambda w, r: rt.accum_cols(rt.Cat(w["s"]), [w["a"], w["b"]], ["m", "n"]))
A("accum_ratio", lambda w, r: rt.accum_ratio(rt.Cat(w["s"]), rt.Cat(w["ds2"].k), w["a"], w["b"]))
A("accum_ratiop", lambda w, r: rt.accum_ratiop(rt.Cat(w["s"]), rt.Cat(w["ds2"].k), w["a"]))

# datasets
for nm in ["sum", "mean", "min", "max", "nansum", "std", "var", "count", "median", "describe", "duplicated", "drop_duplicates", "transpose", "crc", "tolist", "as_struct",
           "to_pandas", "to_arrow", "as_recordarray", "head", "tail", "noncomputable", "computable", "copy", "asdict", "info", "total_sizes", "memory_stats", "keys",
           "as_ordered_dictionary", "normalize_minmax", "normalize_zscore"]:
    A("ds." + nm, lambda w, r, nm=nm: maybe(getattr(w["ds"] if nm not in ("as_recordarray", "isnull") else w["ds2"], nm), *(["k"] if nm in ("duplicated", "drop_duplicates") and r.chance() else [])))
A("ds.sort_copy", lambda w, r: w["ds"].sort_copy(r.pick(["x", "k", ["g", "x"], "c"])))
A("ds.sort_copy-desc", lambda w, r: w["ds"].sort_copy(["g", "x"], ascending=[False, True]))
A("ds.filter", lambda w, r: w["ds"].filter(w["f"]))
A("ds.slice", lambda w, r: (w["ds"][1:3, :], w["ds"][w["f"], ["x", "y"]], w["ds"][w["idx"], :], w["ds"][["x", "k"]]))
A("ds.trim", lambda w, r: w["ds"][["x", "y"]].trim())
A("ds.fillna", lambda w, r: w["ds"][["x", "y"]].fillna(0))
A("np.sqrt", lambda w, r: (np.sqrt(w["a"]), np.exp(w["b"]), np.isnan(w["a"]), np.maximum(w["a"], w["b"])))
A("ds.isin", lambda w, r: w["ds"].isin([1, 2, "a"]))
A("ds.sample", lambda w, r: w["ds"].sample(2))
A("ds.gb", lambda w, r: w["ds"].gb(r.pick(["k", "g", ["k", "g"], "c"])).sum())
A("ds.gb-c-names", lambda w, r: (list(w["ds"].gb("c").sum().keys()), list(w["ds"].gb("c").first().keys())))
A("c.put-elsewhere", lambda w, r: rt.Dataset({"other": w["c"]}))
A("ds.gb-filter", lambda w, r: w["ds"].gb("g").mean(filter=w["f"]))
A("ds.gb-agg", lambda w, r: w["ds"].gb("g").agg({"x": "sum", "y": ["min", "max"]}))
A("ds.gb-cum", lambda w, r: w["ds"].gb("g").cumsum())
A("ds.gb-apply", lambda w, r: w["ds"].gb("g").apply(lambda d: d.sum()))
A("ds.gbu", lambda w, r: w["ds"].gbu("k").count())
A("ds.cat", lambda w, r: w["ds"].cat(["g", "k"]).count())
A("ds.merge_lookup", lambda w, r: rt.merge_lookup(w["ds"], w["ds2"], on="k", columns_right=["z"]))
A("ds.merge2", lambda w, r: rt.merge2(w["ds"], w["ds2"], on="k", how=r.pick(["left", "right", "inner", "outer"]), suffixes=("_1", "_2")))
A("ds.merge2-multi", lambda w, r: rt.merge2(w["ds"], w["ds2"], on=["k", "g"], suffixes=("_1", "_2")))
A("ds.merge", lambda w, r: rt.merge(w["ds"], w["ds2"], on="g", how="left", columns_left=["k", "x"], columns_right=["z"]))
A("ds.merge_asof", lambda w, r: rt.merge_asof(rt.Dataset({"t": rt.sort(w["idx"]), "v": w["a"]}), rt.Dataset({"t": rt.sort(w["idx"]), "z": w["b"]}), on="t"))
A("ds.melt", lambda w, r: w["ds"].melt(id_vars=["k"], value_vars=["x", "y"]))
A("ds.pivot", lambda w, r: w["ds"].pivot(labels="k", columns="g", values="x", ordered=True))
A("ds.accum2", lambda w, r: w["ds"].accum2("k", "g").sum(w["a"]))
A("ds.accum1", lambda w, r: w["ds"].accum1("k").sum(w["a"]))
A("ds.concat_rows", lambda w, r: rt.Dataset.concat_rows([w["ds"], w["ds"]]))
A("ds.concat_rows-diff", lambda w, r: rt.Dataset.concat_rows([w["ds"], w["ds2"]]))
A("ds.concat_columns", lambda w, r: rt.Dataset.concat_columns([w["ds"], w["ds2"]], do_copy=r.chance(), on_duplicate="first"))
A("ds.imatrix", lambda w, r: w["ds2"].imatrix_make(colnames=["z", "g"], inplace=False))
A("ds.as_matrix", lambda w, r: w["ds2"].as_matrix())
A("ds.apply_cols", lambda w, r: w["ds2"].apply_cols(lambda x: x))
A("ds.astype", lambda w, r: w["ds2"][["g", "y"]].astype("f8"))
A("ds.arith", lambda w, r: (w["ds2"][["z", "g"]] * 2, w["ds2"][["z"]] + w["ds2"][["z"]]))
A("ds.one_hot", lambda w, r: w["ds"].one_hot_encode(columns=["k"]))
A("ds.quantile", lambda w, r: w["ds2"][["z"]].quantile(q=[.5]))
A("ds.col_filter", lambda w, r: w["ds"].col_filter(w["lst"]))
A("ds.str", lambda w, r: (w["ds"].col_str_match("x"), w["ds"].label_as_dict(), w["ds"].summary_as_dict()))
A("ds.outliers", lambda w, r: w["ds2"][["z", "g"]].outliers("z"))
A("ds.equals", lambda w, r: w["ds"].equals(w["ds2"]))
A("ds.new", lambda w, r: rt.Dataset({"x": w["a"], "c": w["c"], "l": w["lst"] * (len(w["a"]) // 2) if len(w["a"]) % 2 == 0 else w["a"]}))
A("ds.from-ds", lambda w, r: rt.Dataset(w["ds"]))
A("ds.asrows", lambda w, r: (list(w["ds"].asrows("tuple")), [x for x in w["ds"].iterrows()]))
A("multiset", lambda w, r: rt.Multiset({"m": w["ds"], "n": w["ds2"]}).copy())
A("struct", lambda w, r: (w["st"].copy(), w["st"].flatten(), w["st"].asdict(), w["st"].tree(), w["st"].key_search("e")))
A("struct.equals", lambda w, r: w["st"].equals(w["st"].copy()))
A("hstack-struct", lambda w, r: rt.Struct.concat_structs([rt.Struct({"p": w["a"]}), rt.Struct({"p": w["b"]})]))
A("apply_schema", lambda w, r: w["ds"].apply_schema({"x": "doc", "y": {"type": "int"}}))

# displays
for tgt in ("a", "i", "s", "u", "c", "c2", "d", "dt", "ts", "ds", "ds2", "st", "f"):
    A("repr " + tgt, lambda w, r, tgt=tgt: (repr(w[tgt]), str(w[tgt])))
    if tgt in ("ds", "ds2", "st"):
        A("html " + tgt, lambda w, r, tgt=tgt: w[tgt]._repr_html_())
A("head-tail repr", lambda w, r: (repr(w["ds"].head(2)), repr(w["ds"].tail(1)), repr(w["ds"].sort_copy("x"))))
A("accum repr", lambda w, r: repr(rt.Accum2(w["s"], w["c"]).sum(w["a"])))
A("gb repr", lambda w, r: repr(w["ds"].gb("g").sum()))
A("sort_view", lambda w, r: repr(w["ds"].copy().sort_view("x")))
A("ds.show", lambda w, r: repr(w["ds"].show_all(max_cols=3)))


def build(r):
    n = r.pick([1, 2, 4, 7, 12, 30, 30])
    w = world(r, n)
    return w, {k: state(v) for k, v in w.items() if k not in ("gb", "acc")}
