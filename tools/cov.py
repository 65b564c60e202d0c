"""Which lines of the package do the checks execute?  usage: cov.py SCALE [PROP...]"""
import ast, collections, glob, json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
props = sys.argv[2:] or ["P%02d" % i for i in range(1, 31)]
tmp = tempfile.mkdtemp(prefix="cov-")
tot = collections.defaultdict(lambda: collections.defaultdict(set))
for p in props:
    env = dict(os.environ, VERIF_COV=tmp + "/" + p, VERIF_SCALE=sys.argv[1])
    r = subprocess.run(["python3-vt", HERE + "/run_check.py", p, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    print(r.stdout.strip().splitlines()[-1], flush=True)
    for f in glob.glob(tmp + "/" + p + ".*"):
        try:
            for fn, lines in json.load(open(f)).items():
                for l in lines:
                    tot[fn][l].add(p)
        except ValueError:
            pass
        os.remove(f)
os.rmdir(tmp)
json.dump({f: {str(l): sorted(ps) for l, ps in v.items()} for f, v in tot.items()}, open("/tmp/cov.json", "w"))
for fn in sorted(os.listdir(REPO + "/atrcopy")):
    if not fn.endswith(".py"):
        continue
    src = open(REPO + "/atrcopy/" + fn).read()
    stm = set()
    for node in ast.walk(ast.parse(src)):
        if isinstance(node, (ast.FunctionDef,)):
            for n in ast.walk(node):
                if isinstance(n, ast.stmt) and n is not node and not isinstance(n, (ast.FunctionDef, ast.Global)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    stm.add(n.lineno)
    miss = sorted(stm - set(tot[fn]))
    print("== %s: %d statements in functions, %d not executed" % (fn, len(stm), len(miss)))
    L = src.splitlines()
    for l in miss:
        print("%5d %s" % (l, L[l - 1]))
