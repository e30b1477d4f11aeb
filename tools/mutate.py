#!/usr/bin/env python3
"""mutate.py <out.jsonl> [--seed N] [--per-file N] [--jobs N] [file ...]

Small changes of behaviour (an operator, a comparison, a constant, an argument, a statement) in scratch copies of /repo, each run
against the checks of the properties anchored in the changed file until one reports it. What no check reports is listed for review
(many of those change nothing observable). A tool of this framework only: no check uses it."""
import ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "fixedIncome/src/"


def mutants(path):
    """(line, what, new text) for every mutant of a file."""
    text = open(path).read()
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = text.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def put(a, b, new, n, what):
        out.append((n.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*", ast.MatMult: None}
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
           ast.In: "not in", ast.NotIn: "in"}
    SYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@"}

    def skip(n):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__":
            return True
        if isinstance(n, (ast.FunctionDef,)) and (n.name.startswith("plot") or n.name in ("__repr__", "__str__")):
            return True
        return isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.JoinedStr))

    def walk(n):
        if skip(n):
            return
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                walk(d)
            for d in n.args.defaults + n.args.kw_defaults:
                if d is not None:
                    walk(d)
            body = n.body
            for s in body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                walk(s)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                walk(n.value)
            return
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            l, r = src(n.left), src(n.right)
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            s = SYM[type(n.op)]
            if OPS[type(n.op)] and mid.count(s) == 1:
                put(a, b, mid.replace(s, OPS[type(n.op)]), n, f"{s} -> {OPS[type(n.op)]}")
            if isinstance(n.op, (ast.Sub, ast.Div)) and len(l) + len(r) < 80:
                x, y = span(n)
                put(x, y, f"({r}) {s} ({l})" if False else f"(({r}) {s} ({l}))", n, f"operands of {s} exchanged")
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                x, y = span(n)
                put(x, y, f"({l})", n, f"right operand of {s} dropped")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            mid = raw[a:b].decode()
            x, y = span(n)
            put(x, y, f"({src(n.left)} {CMP[type(n.ops[0])]} {src(n.comparators[0])})", n, "comparison " + mid.strip() + " -> " + CMP[type(n.ops[0])])
        if isinstance(n, ast.BoolOp):
            x, y = span(n)
            s = " or " if isinstance(n.op, ast.And) else " and "
            put(x, y, "(" + s.join("(" + src(v) + ")" for v in n.values) + ")", n, "and/or exchanged")
            for i in range(len(n.values)):
                rest = [src(v) for j, v in enumerate(n.values) if j != i]
                k = " and " if isinstance(n.op, ast.And) else " or "
                put(x, y, "(" + k.join(f"({v})" for v in rest) + ")", n, f"operand {i} of and/or dropped")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            x, y = span(n)
            put(x, y, "(" + src(n.operand) + ")", n, "unary operator dropped")
        if isinstance(n, ast.IfExp):
            x, y = span(n)
            put(x, y, "(" + src(n.body) + ")", n, "conditional -> first")
            put(x, y, "(" + src(n.orelse) + ")", n, "conditional -> second")
        if isinstance(n, ast.If):
            x, y = span(n.test)
            put(x, y, f"not ({src(n.test)})", n, "condition negated")
            put(x, y, "False", n, "condition False")
        if isinstance(n, ast.Constant) and n.value is not None and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis:
            x, y = span(n)
            if isinstance(n.value, bool):
                put(x, y, str(not n.value), n, f"{n.value} -> {not n.value}")
            else:
                put(x, y, f"({src(n)} + 1)", n, f"{src(n)} + 1")
        if isinstance(n, ast.Call):
            x, y = span(n)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                p, q = span(n.args[0]), span(n.args[1])
                put(p[0], q[1], f"{src(n.args[1])}, {src(n.args[0])}", n, "first two arguments exchanged")
            for kw in n.keywords:
                if kw.arg and kw.arg not in ("fill_value",):
                    a, b = span(kw)
                    # drop the keyword with a following comma, if any
                    e = b
                    while e < len(raw) and raw[e:e + 1] in b" \n\t":
                        e += 1
                    if raw[e:e + 1] == b",":
                        put(a, e + 1, "", n, f"argument {kw.arg} dropped")
                    else:
                        s = a
                        while raw[s - 1:s] in (b" ", b"\n", b"\t"):
                            s -= 1
                        put(s - 1 if raw[s - 1:s] == b"," else s, b, "", n, f"argument {kw.arg} dropped")
            if isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
                a, b = span(n.func)
                put(a, b, "max" if n.func.id == "min" else "min", n, "min/max exchanged")
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "abs", "reversed", "float") and len(n.args) == 1 and not n.keywords:
                put(x, y, "(" + src(n.args[0]) + ")", n, f"{n.func.id}() dropped")
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            x, y = span(n)
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) or not isinstance(n, ast.Assign):
                put(x, y, "pass", n, "statement dropped")
            if isinstance(n, ast.AugAssign) and type(n.op) in SYM:
                s = SYM[type(n.op)]
                put(x, y, f"{src(n.target)} = {src(n.value)}", n, "augmented assignment -> assignment")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            x, y = span(n)
            put(x, y, src(n.value), n, "slice dropped")
        if isinstance(n, (ast.Continue, ast.Break)):
            x, y = span(n)
            put(x, y, "pass", n, "continue/break dropped")
        if isinstance(n, ast.Return) and n.value is not None and False:
            pass
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.arguments,)):
                continue
            walk(c)

    for s in tree.body:
        if isinstance(s, ast.ClassDef):
            for c in s.body:
                walk(c)
        else:
            walk(s)
    return out


def main():
    a = sys.argv[1:]
    opt = {"--seed": "1", "--per-file": "20", "--jobs": "6", "--scale": "0.2", "--again": ""}
    pos = []
    while a:
        if a[0] in opt:
            opt[a[0]] = a[1]
            a = a[2:]
        else:
            pos.append(a.pop(0))
    out, files = pos[0], pos[1:]
    props = {}
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l)
        for f in d["anchors"]["files"]:
            props.setdefault(f.replace(SRC, ""), []).append(d["id"])
    rng = random.Random(int(opt["--seed"]))
    jobs = []
    again = {(r["file"], r["line"], r["what"]) for r in map(json.loads, open(opt["--again"])) if not r["caught"]} if opt["--again"] else None
    seen = {(r["file"], r["line"], r["what"]) for r in map(json.loads, open(out))} if os.path.exists(out) else set()
    for f in files or sorted(props):
        ms = mutants("/repo/" + SRC + f)
        good = []
        for m in ms:
            try:
                compile(m[2], f, "exec")
                good.append(m)
            except SyntaxError:
                pass
        if again is not None:       # only those another run left over
            good = [m for m in good if (f, m[0], m[1]) in again]
        k = min(int(opt["--per-file"]), len(good))
        for m in rng.sample(good, k):
            if (f, m[0], m[1]) not in seen:
                jobs.append((f, *m))
        print(f, len(good), "mutants,", k, "taken", flush=True)
    rng.shuffle(jobs)
    lock = threading.Lock()
    slots = []
    for i in range(int(opt["--jobs"])):
        w = f"/tmp/mut_{i}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.check_call(f"git -C {V} archive HEAD | tar x -C {w} --one-top-level=verif; "
                              f"git -C /repo archive HEAD | tar x -C {w} --one-top-level=repo", shell=True)
        slots.append(w)

    def run(job):
        f, line, what, text = job
        with lock:
            w = slots.pop()
        try:
            p = f"{w}/repo/{SRC}{f}"
            old = open(p).read()
            open(p, "w").write(text)
            res, t0 = {}, time.time()
            for q in props[f]:
                try:
                    r = subprocess.run(["python3", "check.py", q], cwd=w + "/verif", capture_output=True, text=True, timeout=600,
                                       env={**os.environ, "VERIF_REPO": w + "/repo", "VERIF_SEED": "1", "VERIF_TIER": "quick",
                                            **({"VERIF_SCALE": opt["--scale"]} if float(opt["--scale"]) < 1 else {}),
                                            "MPLCONFIGDIR": w + "/mpl", "TMPDIR": w})
                    res[q] = r.returncode
                except subprocess.TimeoutExpired:
                    res[q] = "timeout"
                if res[q] == 1:
                    break
            open(p, "w").write(old)
            with lock:
                with open(out, "a") as o:
                    o.write(json.dumps({"file": f, "line": line, "what": what, "text": old.splitlines()[line - 1].strip(), "res": res,
                                        "caught": 1 in res.values(), "s": round(time.time() - t0)}) + "\n")
        finally:
            with lock:
                slots.append(w)

    with ThreadPoolExecutor(len(slots)) as ex:
        list(ex.map(run, jobs))
    for w in slots:
        shutil.rmtree(w, ignore_errors=True)


main()
