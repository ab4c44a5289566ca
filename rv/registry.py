import importlib, os, pkgutil, sys

REPO = os.environ.get("RV_REPO", "/repo")

def module_of(prop):
    d = os.path.join(os.path.dirname(__file__), "props")
    for fn in sorted(os.listdir(d)):
        if fn.startswith(prop.lower() + "_") and fn.endswith(".py"):
            return "rv.props." + fn[:-3]
    raise SystemExit(f"no module for {prop}")

def load(prop):
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import riptable
    got = os.path.realpath(os.path.dirname(riptable.__file__))
    assert got == os.path.realpath(os.path.join(REPO, "riptable")), got
    return importlib.import_module(module_of(prop))
