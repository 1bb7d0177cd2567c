"""Development aid: which small changes of the source do the checks see?

usage: python3 meta/mutate.py OUT.jsonl SEED PER_FILE CHECKS FILE...

Every mutant that imports and passes the tests is analysed; OUT lists those no
check reports (to be read: most survivors are equivalent)."""
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

WORK = "/tmp/w/mut"
SWAP = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
        ast.And: "or", ast.Or: "and", ast.FloorDiv: "/", ast.Is: "is not", ast.IsNot: "is", ast.BitAnd: "|", ast.BitOr: "&", ast.In: "not in", ast.NotIn: "in"}
PAIRS = [("left", "right"), ("min", "max"), ("maximum", "minimum"), ("start", "end"), ("height", "discharge"), ("first", "last"), ("lower", "upper"), ("np.min", "np.max"), ("coarse", "fine"),
         ("velocity", "discharge"), ("input", "output"), ("show", "save"), ("0.5", "1")]


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0].value)); skip.add(id(n.body[0]))
        if isinstance(n, ast.AnnAssign):
            for m in ast.walk(n.annotation):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef,)):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    for m in ast.walk(a.annotation):
                        skip.add(id(m))
            if n.returns:
                for m in ast.walk(n.returns):
                    skip.add(id(m))
        if isinstance(n, ast.keyword) and n.arg in ("help", "description", "metavar", "formatter_class", "desc", "unit"):
            for m in ast.walk(n.value):
                skip.add(id(m))
        if isinstance(n, (ast.Assert, ast.Raise)):
            for m in ast.walk(n):
                if isinstance(m, (ast.Constant, ast.JoinedStr, ast.FormattedValue)):
                    skip.add(id(m))

    def op_between(a, b, old_node, kind):
        s, e = pos(a)[1], pos(b)[0]
        return s, e

    def add(s, e, new, kind):
        if raw[s:e].decode() != new:
            out.append((s, e, new, kind))

    seg = lambda n: raw[pos(n)[0]:pos(n)[1]].decode()
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            s, e = pos(n.left)[1], pos(n.right)[0]
            t = raw[s:e].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.BitAnd: "&", ast.BitOr: "|"}[type(n.op)]
            if t.count(sym) == 1 or sym == "//":
                add(s, e, t.replace(sym, SWAP[type(n.op)], 1), "binop")
            add(*pos(n), seg(n.left), "drop-right")
            if isinstance(n.op, (ast.Sub, ast.Div)) and "\n" not in seg(n):
                add(*pos(n), "(%s) %s (%s)" % (seg(n.right), sym, seg(n.left)), "swap-operands")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            s, e = pos(n.left)[1], pos(n.comparators[0])[0]
            add(s, e, " %s " % SWAP[type(n.ops[0])], "compare")
        elif isinstance(n, ast.BoolOp):
            for a, b in zip(n.values, n.values[1:]):
                s, e = pos(a)[1], pos(b)[0]
                t = raw[s:e].decode()
                add(s, e, t.replace("and", "or") if isinstance(n.op, ast.And) else t.replace("or", "and"), "boolop")
            add(*pos(n), seg(n.values[0]), "first-only")
            add(*pos(n), seg(n.values[-1]), "last-only")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(*pos(n), seg(n.operand), "unary")
        elif isinstance(n, ast.IfExp):
            add(*pos(n), seg(n.body), "if-body")
            add(*pos(n), seg(n.orelse), "if-else")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            add(*pos(n), repr(n.value + 1), "constant+1")
            if n.value:
                add(*pos(n), "0" if isinstance(n.value, int) else repr(n.value / 2), "constant")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(*pos(n), repr(not n.value), "bool")
        elif isinstance(n, (ast.Attribute, ast.Name)) and not isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del)):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id
            for a, b in PAIRS:
                for x, y in ((a, b), (b, a)):
                    if x in nm and len(x) > 2:
                        new = nm.replace(x, y)
                        s, e = pos(n)
                        if isinstance(n, ast.Attribute):
                            s = e - len(nm)
                        if new.encode() in raw:
                            add(s, e, new, "sibling")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                k = len(n.args)
                for i in range(k - 1):
                    s, e = pos(n.args[i])[0], pos(n.args[i + 1])[1]
                    mid = raw[pos(n.args[i])[1]:pos(n.args[i + 1])[0]].decode()
                    add(s, e, seg(n.args[i + 1]) + mid + seg(n.args[i]), "swap-args")
            for kw in n.keywords:
                if kw.arg and kw.arg not in ("help", "description", "metavar", "formatter_class", "desc", "unit"):
                    s = starts[kw.lineno - 1] + kw.col_offset
                    e = pos(kw.value)[1]
                    while raw[e:e + 1] in (b",", b" ", b"\n"):
                        e += 1
                        if raw[e - 1:e] == b",":
                            break
                    if raw[e:e+1] == b")" and raw[e-1:e] != b",":
                        while raw[s - 1:s] in (b" ", b"\n"):
                            s -= 1
                        if raw[s - 1:s] == b",":
                            s -= 1
                        e = pos(kw.value)[1]
                    add(s, e, "", "drop-keyword")
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr == "copy" and not n.args:
                add(*pos(n), seg(f.value), "drop-copy")
            if len(n.args) == 1 and not n.keywords and isinstance(f, (ast.Name, ast.Attribute)):
                add(*pos(n), "(%s)" % seg(n.args[0]), "drop-call")
        elif isinstance(n, ast.Slice):
            for b in (n.lower, n.upper):
                if b is not None:
                    add(*pos(b), "", "drop-bound")
        elif isinstance(n, (ast.FunctionDef,)):
            body = n.body
            for st in body:
                if isinstance(st, (ast.Expr, ast.AugAssign)) and id(st) not in skip and len(body) > 1 or isinstance(st, ast.Assert):
                    add(*pos(st), "pass", "drop-statement")
                if isinstance(st, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in st.targets):
                    add(*pos(st), "pass", "drop-assignment")
        elif isinstance(n, ast.AugAssign) and type(n.op) in SWAP:
            s, e = pos(n.target)[1], pos(n.value)[0]
            t = raw[s:e].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}.get(type(n.op))
            if sym:
                add(s, e, t.replace(sym, SWAP[type(n.op)]), "augop")
                add(s, e, " = ", "aug-drop")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            pass
        elif isinstance(n, (ast.If,)):
            add(*pos(n.test), "True", "if-true")
            add(*pos(n.test), "False", "if-false")
    good = []
    seen = set()
    for m in out:
        if m[:3] in seen:
            continue
        seen.add(m[:3])
        new = raw[:m[0]] + m[2].encode() + raw[m[1]:]
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        good.append((m, new))
    return raw, good


def job(a):
    k, rel, m, new, checks = a
    w = os.path.join(WORK, str(os.getpid()))
    if not os.path.exists(w):
        os.makedirs(WORK, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
    p = os.path.join(w, rel)
    old = open(p, "rb").read()
    line = old[:m[0]].count(b"\n") + 1
    ev = w + ".ev"
    res = {"file": rel, "line": line, "kind": m[3], "old": old[m[0]:m[1]].decode()[:100], "new": m[2][:100]}
    ls = lambda b: b.decode().splitlines()
    res["text"] = ls(old)[line - 1].strip()[:110]
    try:
        open(p, "wb").write(new)
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
        try:
            t = subprocess.run(["timeout", "120", "/opt/venv/bin/python", "-m", "pytest", "-q", "--no-header", "-p", "no:cacheprovider", "-W", "ignore", "-o", "python_files=*_test.py", "--continue-on-collection-errors", "test"],
                               cwd=w, env=env, capture_output=True, text=True)
            last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "none"
        except Exception as e:
            last = "error %s" % e
        if not last.startswith("1 failed, 243 passed"):
            res["tests"] = last[:60]
            res["verdict"] = "tests"
            return res
        env = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=ev)
        res["checks"] = {}
        res["verdict"] = "survived"
        for c in checks:
            try:
                t = subprocess.run(["timeout", "500", "python3", "-m", "sa.run", c, "-1"], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env, capture_output=True, text=True)
            except Exception as e:
                continue
            res["checks"][c] = t.returncode
            if t.returncode == 1:
                res["verdict"] = "caught " + c
                for l in t.stdout.splitlines():
                    if l.startswith("  violated"):
                        res["by"] = l[:160]
                        break
                break
            und = [l for l in t.stdout.splitlines() if "undetermined" in l]
            if und and " 0 undetermined" not in und[0]:
                res.setdefault("und", []).append(und[0][:110])
    finally:
        open(p, "wb").write(old)
    return res


def main():
    out, seed, per, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(",")
    rng = random.Random(seed)
    jobs = []
    for rel in sys.argv[5:]:
        raw, good = mutants(os.path.join("/repo", rel))
        rng.shuffle(good)
        for m, new in good[:per]:
            jobs.append((len(jobs), rel, m, new, checks))
    print(len(jobs), "mutants", flush=True)
    procs = int(os.environ.get("PROCS", "7"))
    stats = {}
    with open(out, "w") as f, multiprocessing.Pool(procs) as pool:
        for r in pool.imap_unordered(job, jobs):
            stats[r["verdict"].split()[0]] = stats.get(r["verdict"].split()[0], 0) + 1
            f.write(json.dumps(r) + "\n")
            f.flush()
    print(stats)
    shutil.rmtree("/tmp/w/mut", ignore_errors=True)
if __name__ == "__main__":
    main()
