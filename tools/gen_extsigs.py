"""usage (with the libraries of the repository importable): gen_extsigs.py > ww/extsigs.json
names of the positional parameters and the constant defaults of the library functions and classes
the repository can call; used to give one form to f(a, b) / f(a, y=b) / f(a, y=b, z=<default>)."""
import inspect, importlib, json, sys
MODS = """numpy pandas sklearn.utils sklearn.utils.validation sklearn.utils.multiclass sklearn.preprocessing
sklearn.pipeline sklearn.model_selection sklearn.ensemble._base sklearn.datasets._base sklearn.compose
scipy.sparse joblib collections os os.path urllib.request gzip zipfile warnings threading math""".split()
out = {}
for m in MODS:
    mod = importlib.import_module(m)
    for n in sorted(dir(mod)):
        f = getattr(mod, n)
        if n.startswith("__") or not callable(f):
            continue
        try:
            ps = list(inspect.signature(f).parameters.values())
        except (ValueError, TypeError):
            continue
        pos = [p.name for p in ps if p.kind == p.POSITIONAL_OR_KEYWORD]
        if any(p.kind in (p.POSITIONAL_ONLY, p.VAR_POSITIONAL) for p in ps):
            pos = []
        dfl = {p.name: p.default for p in ps if p.default is None or isinstance(p.default, (bool, int, str))}
        if pos or dfl:
            out[m + "." + n] = [pos, dfl]
json.dump(out, sys.stdout, sort_keys=True, separators=(",", ":"))
