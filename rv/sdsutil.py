"""Scratch folders and comparison of loaded with saved objects."""
import os, shutil, tempfile
import numpy as np
import riptable as rt
from rv.core import plain
from rv import gen

SCR = os.environ.get("RV_SCRATCH") or tempfile.gettempdir()


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="sds", dir=SCR)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def cmp_array(m, got, exp, what):
    m.check(type(got) is type(exp), f"{what}: loaded class {type(got).__name__}, saved {type(exp).__name__}")
    m.check(plain(got).dtype == plain(exp).dtype, f"{what}: dtype {plain(got).dtype} != {plain(exp).dtype}")
    m.same(plain(got), plain(exp), what)
    if plain(exp).dtype.kind == "f":
        m.check(plain(got).tobytes() == np.ascontiguousarray(plain(exp)).tobytes() or plain(exp).ndim > 1, f"{what}: float bits changed")
    if isinstance(exp, rt.Categorical):
        cmp_cat(m, got, exp, what)
    elif isinstance(exp, rt.DateTimeNano):
        m.check(gen.kind_of(got) == gen.kind_of(exp), f"{what}: timezone {gen.kind_of(got)} != {gen.kind_of(exp)}")
        m.same(plain(got.hour) if len(got) else [], plain(exp.hour) if len(exp) else [], f"{what} hour in its time zone")


def cmp_cat(m, got, exp, what):
    m.check(bool(got.isenum) == bool(exp.isenum), f"{what}: enum-ness changed")
    m.check(bool(got.ordered) == bool(exp.ordered), f"{what}: ordered {got.ordered} != {exp.ordered}")
    m.check(got.sort_gb == exp.sort_gb, f"{what}: sort_gb {got.sort_gb} != {exp.sort_gb}")
    m.check(got.invalid_category == exp.invalid_category, f"{what}: invalid category {got.invalid_category!r} != {exp.invalid_category!r}")
    if exp.isenum:
        g, e = got.category_mapping, exp.category_mapping
        m.check({int(k): gen.txt(v) for k, v in g.items()} == {int(k): gen.txt(v) for k, v in e.items()}, f"{what}: mapping {g} != {e}")
    else:
        m.check(got.base_index == exp.base_index, f"{what}: base index {got.base_index} != {exp.base_index}")
        g, e = got.category_dict, exp.category_dict
        m.check(len(g) == len(e), f"{what}: number of category columns")
        m.check(list(g) == list(e) or len(e) == 1, f"{what}: category column names {list(g)} != {list(e)}")
        for a, b in zip(g.values(), e.values()):
            m.check(type(a) is type(b), f"{what}: category array class {type(a)} != {type(b)}")
            m.check(plain(a).dtype.kind == plain(b).dtype.kind, f"{what}: category dtype {plain(a).dtype} != {plain(b).dtype}")
            m.same(plain(a), plain(b), f"{what} categories")
    m.same(gen.cat_labels(got), gen.cat_labels(exp), f"{what} labels")


def cmp_any(m, got, exp, what, late=None, depth=0):
    if isinstance(exp, rt.Struct):
        m.check(type(got) is type(exp), f"{what}: loaded {type(got).__name__}, saved {type(exp).__name__}")
        m.check(sorted(got.keys()) == sorted(exp.keys()), f"{what}: names {list(got.keys())} != {list(exp.keys())}")
        if list(got.keys()) != list(exp.keys()):
            only_containers = depth > 0 and not isinstance(exp, rt.Dataset) and all(isinstance(v, rt.Struct) for v in exp.values())
            m.check(only_containers and late is not None, f"{what}: order {list(got.keys())} != {list(exp.keys())}")
            late.append(f"{what}: order {list(got.keys())} != {list(exp.keys())}")
        if isinstance(exp, rt.Dataset):
            m.check(got.shape == exp.shape, f"{what}: shape {got.shape} != {exp.shape}")
            m.check(list(got.label_get_names()) == list(exp.label_get_names()), f"{what}: labels {got.label_get_names()} != {exp.label_get_names()}")
        for k in exp.keys():
            cmp_any(m, got[k], exp[k], f"{what}/{k}", late, depth + 1)
    elif isinstance(exp, np.ndarray):
        cmp_array(m, got, exp, what)
    else:
        g = gen.txt(got)
        g = g.item() if hasattr(g, "item") else g
        e = gen.txt(exp)
        m.check(g == e or (g != g and e != e), f"{what}: scalar {got!r} != {exp!r}")
