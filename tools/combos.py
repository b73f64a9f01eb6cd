"""random combinations of the refactorings of all corpora: K edits of one file (or of any file) applied one after another;
SEED, K and COUNT from the environment. An edit that no longer finds its place is left out."""
import os, random, importlib, glob, sys, shutil, tempfile, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from quiet import apply
rng = random.Random(int(os.environ.get("SEED", "1")))
ALL = []
for p in sorted(glob.glob(os.path.join(HERE, "refactorings*.py"))):
    m = importlib.import_module(os.path.basename(p)[:-3])
    ALL += [(os.path.basename(p)[12:-3] + ":" + n, e) for n, e in m.RF]
SKIP = set(os.environ.get("SKIP", "").split(","))
ALL = [x for x in ALL if x[0] not in SKIP]
RF = []
for i in range(int(os.environ.get("COUNT", "40"))):
    k = int(os.environ.get("K", "4"))
    first = rng.choice(ALL)
    f0 = first[1][0][0]
    same = [x for x in ALL if x[1][0][0] == f0 and x is not first]
    pool = same if rng.random() < 0.8 and len(same) >= k else ALL
    chosen = [first] + rng.sample(pool, k - 1)
    d = tempfile.mkdtemp(prefix="combo_")
    try:
        root = os.path.join(d, "r")
        subprocess.run(["cp", "-r", "/repo/wildwood", d + "/w0"], check=True)
        os.mkdir(root)
        shutil.move(d + "/w0", root + "/wildwood")
        done, edits = [], []
        for n, es in chosen:
            shutil.copytree(root, d + "/bak")
            try:
                apply(root, es)
                done.append(n)
                edits += es
                shutil.rmtree(d + "/bak")
            except (SystemExit, SyntaxError, FileNotFoundError, ValueError):
                shutil.rmtree(root)
                shutil.move(d + "/bak", root)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if len(done) > 1:
        RF.append(("+".join(done), edits))
