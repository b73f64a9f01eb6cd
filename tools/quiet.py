"""usage: quiet.py [names...]: apply each refactoring to a scratch clone of /repo and run the comparison
of every function and every rule on it; prints what is reported."""
import os, shutil, subprocess, sys, tempfile
from multiprocessing import Pool
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "tools")); sys.setrecursionlimit(20000)


def loose(s, old, new):
    """replace old by new, comment lines and blank lines not taken into account"""
    lines = s.split("\n")
    keep = [i for i, l in enumerate(lines) if l.strip() and not l.strip().startswith("#")]
    want = [l.rstrip() for l in old.split("\n") if l.strip() and not l.strip().startswith("#")]
    for k in range(len(keep) - len(want) + 1):
        if all(lines[keep[k + j]].split("  #")[0].rstrip() == w.split("  #")[0].rstrip() for j, w in enumerate(want)):
            return "\n".join(lines[: keep[k]] + [new.rstrip("\n")] + lines[keep[k + len(want) - 1] + 1:])
    return None


def apply(root, edits):
    import glob, re
    for f, old, new in edits:
        p = os.path.join(root, f)
        if old.startswith("@@sub "):
            n = 0
            for q in glob.glob(p, recursive=True):
                s = open(q).read()
                s2, k = re.subn(old[6:], new, s, flags=re.M)
                n += k
                compile(s2, q, "exec")
                open(q, "w").write(s2)
            if not n:
                raise SystemExit("no match of %s" % old)
            continue
        if old == "@@new":
            open(p, "w").write(new)
            continue
        s = open(p).read()
        if old.startswith("@@from\n"):
            i = s.index(old[7:])
            j = s.find("\n\n\n", i)
            s = s[:i] + new.split("\n", 1)[1] + (s[j:] if j >= 0 else "")
        elif old.startswith("@@append"):
            s += new
        else:
            if old not in s:
                s2 = loose(s, old, new)
                if s2 is None:
                    import ast
                    u = ast.unparse(ast.parse(s))
                    s2 = u.replace(old, new, 1) if old in u else None
                if s2 is not None:
                    compile(s2, p, "exec")
                    open(p, "w").write(s2)
                    continue
                raise SystemExit("no match in %s: %s" % (f, old[:80]))
            s = s.replace(old, new, 1)
        compile(s, p, "exec")
        open(p, "w").write(s)


def judge(root):
    from ww.checker import Checker, second_look, all_anchors
    from ww.rules import RULES
    ck = Checker(root)
    out = []
    V = False
    for a in all_anchors(ck):
        for f in ck.check(a, 60):
            out.append((f.kind, f.anchor, f.slot[:50], f.msg[:260]))
            V |= f.kind == "V"
    for n, r in RULES.items():
        for f in r(ck)[0]:
            out.append(("R", f.anchor, n, f.msg[:200]))
    if V:
        bad = second_look(ck)
        out = [("v" if o[0] == "V" and any(q.endswith(o[1]) for q in bad) else o[0],) + o[1:] for o in out]
    return out


def one(r):
    name, edits = r
    d = tempfile.mkdtemp(prefix="quiet_")
    try:
        root = os.path.join(d, "r")
        subprocess.run(["git", "clone", "-q", "/repo", root], check=True)
        try:
            apply(root, edits)
        except (SystemExit, SyntaxError) as e:
            return name, [("BAD EDIT", str(e), "", "")]
        return name, judge(root)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    import importlib
    names = sys.argv[1:]
    m = importlib.import_module(os.environ.get("RFMOD", "refactorings"))
    todo = [r for r in m.RF if not names or r[0] in names]
    with Pool(int(os.environ.get("NP", "5"))) as P:
        for name, out in P.imap_unordered(one, todo):
            k = "".join(sorted({o[0] for o in out})) or "quiet"
            print(name, k, flush=True)
            for o in out[:4] if not names else out:
                print("    ", *o, flush=True)
