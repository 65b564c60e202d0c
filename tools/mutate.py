"""Mutation testing of the checks.

usage: mutate.py N SEED [FILE...]
Makes N random one-token changes to the package, keeps those that pass the
tests, and runs the checks that execute the changed line (from /tmp/cov.json,
see cov.py) until one reports a violation.  Survivors are printed.
Everything happens in copies under /tmp/mut.
"""
import ast, json, multiprocessing, os, random, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PYPY = "/opt/venv-pypy/bin/python"
FILES = ["__init__.py", "ataridos.py", "cartridge.py", "container.py", "dcm.py", "diskimages.py", "dos33.py", "dummy.py", "executables.py", "kboot.py",
         "magic.py", "mame.py", "parsers.py", "segments.py", "spartados.py", "standard_delivery.py", "utils.py"]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<", ast.Mod: "//"}


def seg(src_lines, n):
    if n.lineno == n.end_lineno:
        return src_lines[n.lineno - 1][n.col_offset:n.end_col_offset]


def mutants(fn):
    src = open(os.path.join(REPO, "atrcopy", fn)).read()
    lines = src.splitlines()
    out = []
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and (ast.unparse(n.func).startswith(("log.", "print", "errors.")) or ast.unparse(n.func) in ("RuntimeError", "ValueError", "TypeError")):
            for c in ast.walk(n):
                skip.add(id(c))
        if isinstance(n, ast.FunctionDef) and n.name in ("__str__", "__repr__", "verbose_info", "process", "get_template_info"):
            for c in ast.walk(n):
                skip.add(id(c))
        if isinstance(n, (ast.If,)) and ast.unparse(n.test) == "_xd":
            for c in ast.walk(n):
                skip.add(id(c))
        if isinstance(n, ast.JoinedStr):
            for c in ast.walk(n):
                skip.add(id(c))
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        for n in ast.walk(f):
            if id(n) in skip or not hasattr(n, "lineno") or n.lineno != n.end_lineno:
                continue
            t = seg(lines, n)

            def add(new, kind):
                out.append((fn, n.lineno, n.col_offset, n.end_col_offset, new, kind))
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                add("(%s %s %s)" % (seg(lines, n.left), CMP[type(n.ops[0])], seg(lines, n.comparators[0])), "cmp")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(n.left, ast.Constant) and isinstance(n.left.value, int):
                add("(%s %s %s)" % (seg(lines, n.left), BIN[type(n.op)], seg(lines, n.right)), "bin")
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                add(str(n.value + 1), "const")
                if n.value > 0:
                    add(str(n.value - 1), "const")
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                add(str(not n.value), "bool")
            elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
                o = "or" if isinstance(n.op, ast.And) else "and"
                add("(%s %s %s)" % (seg(lines, n.values[0]), o, seg(lines, n.values[1])), "boolop")
                add(seg(lines, n.values[0]), "drop")
                add(seg(lines, n.values[1]), "drop")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add("(%s)" % seg(lines, n.operand), "not")
            elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                if not (isinstance(n, ast.Expr) and id(n.value) in skip):
                    add("pass", "del")
            elif isinstance(n, ast.Return) and n.value is not None:
                add("return None", "ret")
            if isinstance(n, (ast.If, ast.While)):
                pass
        for n in ast.walk(f):
            if isinstance(n, ast.If) and id(n) not in skip and n.test.lineno == n.test.end_lineno:
                out.append((fn, n.test.lineno, n.test.col_offset, n.test.end_col_offset, "False", "if"))
                out.append((fn, n.test.lineno, n.test.col_offset, n.test.end_col_offset, "True", "if"))
    return sorted(set(out))


def run(cmd, cwd, env=None, timeout=200):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -9, "timeout"


def work(job):
    i, m, props = job
    fn, line, a, b, new, kind = m
    wt = "/tmp/mut/w%d" % os.getpid()
    if not os.path.isdir(wt):
        os.makedirs(wt)
        for d in ("atrcopy", "test", "test_data"):
            shutil.copytree(os.path.join(REPO, d), os.path.join(wt, d))
    p = os.path.join(wt, "atrcopy", fn)
    src = open(os.path.join(REPO, "atrcopy", fn)).read()
    lines = src.split("\n")
    old = lines[line - 1]
    lines[line - 1] = old[:a] + new + old[b:]
    mut = "\n".join(lines)
    try:
        compile(mut, fn, "exec")
    except SyntaxError:
        return i, m, "syntax", None, old, lines[line - 1]
    open(p, "w").write(mut)
    try:
        env = dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        rc, out = run(["prlimit", "--as=%d" % (8 << 30), PYPY, "-W", "ignore", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60"], wt + "/test", env)
        if rc != 0:
            return i, m, "tests", None, old, lines[line - 1]
        env = dict(os.environ, VERIF_REPO=wt, VERIF_SHARDS="1", VERIF_SCALE=os.environ.get("MSCALE", "0.2"), VERIF_BUDGET="60", VERIF_EVID="/tmp/mut/ev%d" % os.getpid())
        for pr in props:
            rc, out = run(["python3-vt", HERE + "/run_check.py", pr, "quick"], "/tmp", env, 300)
            if rc == 1:
                return i, m, "caught", pr, old, lines[line - 1]
            if rc not in (0, 1):
                return i, m, "fault", pr + " " + out[-200:], old, lines[line - 1]
        return i, m, "SURVIVED", None, old, lines[line - 1]
    finally:
        open(p, "w").write(src)


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or FILES
    cov = json.load(open("/tmp/cov.json"))
    allm = []
    for f in files:
        allm += mutants(f)
    rnd = random.Random(seed)
    rnd.shuffle(allm)
    allm = allm[:n]
    order = "P29 P06 P28 P17 P09 P25 P26 P27 P16 P15 P14 P13 P11 P12 P18 P19 P20 P21 P22 P23 P24 P10 P01 P02 P03 P04 P07 P08 P05 P30".split()
    jobs = []
    unc = 0
    for i, m in enumerate(allm):
        ps = cov.get(m[0], {}).get(str(m[1]), [])
        if not ps:
            unc += 1
            continue
        # the most specific checks first
        jobs.append((i, m, sorted(ps, key=order.index)))
    print("%d mutants, %d on lines not executed by the checks" % (len(allm), unc), flush=True)
    import collections
    cnt = collections.Counter()
    t0 = time.time()
    with multiprocessing.Pool(int(os.environ.get("MPROC", "8"))) as pool:
        for i, m, res, extra, old, new in pool.imap_unordered(work, jobs):
            cnt[res] += 1
            if res in ("SURVIVED", "fault"):
                print("%s %s:%d %s\n   - %s\n   + %s  %s" % (res, m[0], m[1], m[5], old.strip(), new.strip(), extra or ""), flush=True)
    print(dict(cnt), round(time.time() - t0), "s")
    shutil.rmtree("/tmp/mut", ignore_errors=True)


if __name__ == "__main__":
    main()
