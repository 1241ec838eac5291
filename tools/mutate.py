"""mutate.py SEED COUNT OUTDIR [FILE...]: random mutants of the code, in scratch copies; reports those that pass the stable
tests and that no check of the files' properties notices. Uses copies of /repo and /verif under OUTDIR (removed by hand)."""
import ast, json, os, random, re, shutil, subprocess, sys

seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
rnd = random.Random(seed)
R, V = out + "/repo", out + "/verif"
os.makedirs(out, exist_ok=True)
if not os.path.isdir(R):
    subprocess.check_call(["git", "clone", "-q", "/repo", R])
    subprocess.check_call(["git", "clone", "-q", "/verif", V])
    shutil.copytree("/verif/.deps", V + "/.deps")
props = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    for f in p["anchors"]["files"]:
        props.setdefault(f, []).append(p["id"])
EXTRA = {"yaocptool/modelling/ocp.py": ["C07", "C15"], "yaocptool/modelling/system_model.py": ["C16"], "yaocptool/modelling/dataset.py": ["C19", "C11"],
         "yaocptool/util/util.py": ["C07", "C19"], "yaocptool/methods/augmented_lagrangian.py": ["C24"]}
for f, e in EXTRA.items():
    props[f] = props.get(f, []) + [x for x in e if x not in props.get(f, [])]
files = sys.argv[4:] or sorted(props)
weights = [len(open(R + "/" + f).read().splitlines()) for f in files]
PAIRS = [("_max", "_min"), ("x", "y"), ("t_0", "t_f"), ("n_x", "n_y"), ("n_u", "n_u_par"), ("ode", "alg"), ("x_names", "y_names"), ("p", "theta"), ("u", "u_par"), ("lbx", "ubx"), ("lbg", "ubg"), ("n_p", "n_theta"), ("append", "extend")]


def seg(src, n):
    return ast.get_source_segment(src, n)


def candidates(src):
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or "print" in (seg(src, n) or "")[:6] or "warn" in (seg(src, n) or "")[:20])):
            for k in ast.walk(n):
                skip.add(id(k))
        if isinstance(n, ast.FunctionDef):
            if n.name in ("__repr__", "__str__", "plot", "show") or "plot" in n.name or "print" in n.name:
                for k in ast.walk(n):
                    skip.add(id(k))
            for a in [n.returns] + [k.annotation for k in n.args.args + n.args.kwonlyargs]:
                if a is not None:
                    for k in ast.walk(a):
                        skip.add(id(k))
        if isinstance(n, ast.AnnAssign):
            for k in ast.walk(n.annotation):
                skip.add(id(k))
    res = []
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        s = seg(src, n)
        if s is None:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = seg(src, n.left), seg(src, n.comparators[0])
            sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
            res.append((n, "%s %s %s" % (a, sw[type(n.ops[0])], b)))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*"}
            res.append((n, "%s %s %s" % (seg(src, n.left), sw[type(n.op)], seg(src, n.right))))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            res.append((n, str(n.value + rnd.choice([1, -1]))))
        elif isinstance(n, ast.Constant) and type(n.value) is float:
            res.append((n, repr(n.value * 2 + 0.5)))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            res.append((n, repr(not n.value)))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            res.append((n, "(" + op.join(seg(src, v) for v in n.values) + ")"))
        elif isinstance(n, ast.If):
            res.append((n.test, "not (%s)" % seg(src, n.test)))
            res.append((n.test, "True"))
            res.append((n.test, "False"))
        elif isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
            res.append((n, "pass"))
            res.append((n, "pass"))
        elif isinstance(n, ast.Attribute):
            for a, b in PAIRS:
                for a, b in ((a, b), (b, a)):
                    if n.attr == a or (a.startswith("_") and n.attr.endswith(a)):
                        at = b if n.attr == a else n.attr[:-len(a)] + b
                        res.append((n, s[:len(s) - len(n.attr)] + at))
        elif isinstance(n, ast.IfExp):
            res.append((n, "(%s)" % seg(src, n.orelse)))
            res.append((n, "(%s)" % seg(src, n.body)))
        elif isinstance(n, ast.Call) and (seg(src, n.func) or '').split(".")[-1] in ("list", "dict", "copy", "deepcopy", "DM", "get_copy", "sorted") and len(n.args) <= 1:
            # aliases instead of copies
            o = seg(src, n.args[0]) if n.args else seg(src, n.func).rpartition(".")[0]
            if o:
                res += [(n, o)] * 2
        elif isinstance(n, ast.Call) and seg(src, n.func) in ("vertcat", "horzcat", "fmax", "fmin", "max", "min") and len(n.args) >= 2 and rnd.random() < 0.5:
            res.append((n, seg(src, rnd.choice(n.args)) if not isinstance(n.args[0], ast.Starred) else s))
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = n.args
            if seg(src, a) and seg(src, b):
                res.append((a, seg(src, b), b, seg(src, a)))
        elif isinstance(n, ast.Call) and n.keywords:
            k = rnd.choice(n.keywords)
            if k.arg and seg(src, k.value) not in (None, "None"):
                res.append((k.value, "None"))
        elif isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and seg(src, n.iter.func) in ("range", "enumerate"):
            res.append((n.iter, "list(%s)[1:]" % seg(src, n.iter)))
            res.append((n.iter, "list(%s)[:-1]" % seg(src, n.iter)))
    # inside a loop: only from the third (or after the first) round on
    loops = [n for n in ast.walk(tree) if isinstance(n, ast.For)]
    for r in list(res):
        if len(r) != 2 or r[1] == "pass" or not isinstance(r[0], ast.expr):
            continue
        for l in loops:
            it = seg(src, l.iter) or ""
            t = l.target.elts[0] if it.startswith("enumerate") and isinstance(l.target, ast.Tuple) else l.target
            if isinstance(t, ast.Name) and it.startswith(("range(", "enumerate(")) and l.body[0].lineno <= r[0].lineno <= l.body[-1].end_lineno:
                res += [(r[0], "((%s) if %s >= %d else (%s))" % (r[1], t.id, rnd.choice([1, 2]), seg(src, r[0])))] * 2
    return res


def pos(src, n):
    lines = src.splitlines(keepends=True)
    enc = lambda ln, col: sum(len(x) for x in lines[:ln - 1]) + len(lines[ln - 1].encode()[:col].decode())
    return enc(n.lineno, n.col_offset), enc(n.end_lineno, n.end_col_offset)


def sh(cmd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        q = subprocess.run(cmd, shell=True, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return q.returncode, q.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"


BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def stable():
    rep = out + "/junit.xml"
    if os.path.exists(rep):
        os.remove(rep)
    sh("cd %s && find . -name __pycache__ -type d -prune -exec rm -rf {} + ; /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s tests" % (R, rep),
       {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1"}, 200)
    if not os.path.exists(rep):
        return False
    sh("/usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s" % (out, rep))
    return BASE <= set(json.load(open(out + "/o.json"))["passed"])


log = open(out + "/log.txt", "a")
done = 0
while done < count:
    f = rnd.choices(files, weights)[0]
    src = open(R + "/" + f).read()
    c = rnd.choice(candidates(src))
    edits = [(pos(src, c[i]), c[i + 1]) for i in range(0, len(c), 2)]
    new = src
    for (a, b), t in sorted(edits, reverse=True):
        new = new[:a] + t + new[b:]
    try:
        if new == src or ast.dump(ast.parse(new)) == ast.dump(ast.parse(src)):
            continue
    except SyntaxError:
        continue
    open(R + "/" + f, "w").write(new)
    diff = subprocess.check_output(["git", "-C", R, "diff", "-U2"], text=True)
    done += 1
    verdict = "tests"
    if stable():
        verdict = "SURVIVED"
        ps = list(props[f])
        rnd.shuffle(ps)
        for p in ps:
            rc, o = sh("cd %s && ./run.sh %s" % (V, p), {"VERIF_REPO": R, "PYTHONPATH": ""}, 900)
            if rc == 1:
                verdict = p
                break
            if rc != 0:
                verdict = "BROKEN %s rc=%s %s" % (p, rc, o[-300:])
                break
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    log.write("=== %s %s\n%s\n" % (verdict, f, "\n".join(diff.splitlines()[4:]) if verdict not in ("tests",) else ""))
    log.flush()
