"""
Dev tool: mutation testing of the checks. usage:
  mutate.py PROP FILE[:name,name,...] [FILE...] [--n 40] [--seed 0] [--scale 0.5] [--jobs 4] [--timeout 300] [--only SUB,SUB]
Random small source mutations of the given functions/classes (all if none given), each in a scratch worktree of /repo's HEAD;
runs the quick check of PROP and prints the survivors.
"""
import argparse, ast, concurrent.futures, os, queue, random, subprocess, sys, tempfile

REPO = os.environ.get("MUT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("files", nargs="+")
ap.add_argument("--n", type=int, default=40); ap.add_argument("--seed", type=int, default=0)
ap.add_argument("--scale", default="0.5"); ap.add_argument("--jobs", type=int, default=4)
ap.add_argument("--timeout", type=int, default=300); ap.add_argument("--only", default="")
ap.add_argument("--workers", default="2"); ap.add_argument("--list", action="store_true")
args = ap.parse_args()

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//"}


def seg(src_lines, node):
    assert node.lineno
    return (node.lineno - 1, node.col_offset, node.end_lineno - 1, node.end_col_offset)


def mutants(fn, names):
    src = open(REPO + "/" + fn).read()
    tree = ast.parse(src)
    lines = src.encode().split(b"\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l) + 1)
    data = src.encode()

    def pos(node):
        return offs[node.lineno - 1] + node.col_offset, offs[node.end_lineno - 1] + node.end_col_offset

    def text(node):
        a, b = pos(node)
        return data[a:b].decode()

    res = []

    def add(node, new, what):
        a, b = pos(node)
        if data[a:b].decode() == new:
            return
        res.append((fn, a, b, new, node.lineno, what))

    def visit(node, active, qual):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            qual = qual + [node.name]
            if names and not active:
                active = any(node.name == n or ".".join(qual) == n for n in names)
            body = node.body
            if body and isinstance(body[0], ast.Expr) and isinstance(getattr(body[0], "value", None), ast.Constant):
                body = body[1:]
            for c in body:
                visit(c, active, qual)
            return
        if active or not names:
            in_func = True
            if isinstance(node, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom)):
                return
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and text(node.value.func) == "print":
                return
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                op = CMP[type(node.ops[0])]
                add(node, "%s %s %s" % (text(node.left), op, text(node.comparators[0])), "cmp")
            elif isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, ast.Constant) or (isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(getattr(node.left, "value", None), str)):
                if not (isinstance(node.left, (ast.JoinedStr,)) or isinstance(node.right, ast.JoinedStr) or isinstance(getattr(node.right, "value", None), str)):
                    add(node, "(%s %s %s)" % (text(node.left), BIN[type(node.op)], text(node.right)), "bin")
            elif isinstance(node, ast.BoolOp):
                op = " or " if isinstance(node.op, ast.And) else " and "
                add(node, "(" + op.join(text(v) for v in node.values) + ")", "bool")
                for i in range(len(node.values)):
                    rest = [v for j, v in enumerate(node.values) if j != i]
                    o = " and " if isinstance(node.op, ast.And) else " or "
                    add(node, "(" + o.join("(" + text(v) + ")" for v in rest) + ")", "bool-drop")
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
                add(node, "(" + text(node.operand) + ")", "not")
            elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
                add(node, str(not node.value), "const")
            elif isinstance(node, ast.Constant) and isinstance(node.value, int):
                add(node, str(node.value + 1), "const")
            elif isinstance(node, ast.If):
                add(node.test, "not (" + text(node.test) + ")", "if-neg")
                add(node.test, "False and (" + text(node.test) + ")", "if-false")
            elif isinstance(node, (ast.Assign, ast.AugAssign)) and not isinstance(node, ast.AnnAssign):
                if isinstance(node, ast.AugAssign):
                    add(node, "pass", "del-stmt")
                elif isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
                    add(node, "pass", "del-stmt")
            elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                add(node, "pass", "del-stmt")
            elif isinstance(node, ast.Call) and len(node.args) == 2 and not node.keywords and text(node.func) in ("min", "max"):
                add(node, ("max" if text(node.func) == "min" else "min") + "(%s, %s)" % (text(node.args[0]), text(node.args[1])), "minmax")
            elif isinstance(node, ast.Call) and node.keywords and len(node.keywords) > 1:
                for kw in node.keywords:
                    if kw.arg and isinstance(kw.value, (ast.Name, ast.Attribute)):
                        parts = [text(a) for a in node.args] + [(k.arg + "=" if k.arg else "**") + text(k.value) for k in node.keywords if k is not kw]
                        add(node, "%s(%s)" % (text(node.func), ", ".join(parts)), "drop-kw-" + kw.arg)
            elif isinstance(node, ast.Continue):
                add(node, "break", "continue")
            elif isinstance(node, ast.Break):
                add(node, "continue", "break")
        if isinstance(node, ast.AnnAssign):
            if node.value:
                visit(node.value, active, qual)
            return
        for c in ast.iter_child_nodes(node):
            if isinstance(node, ast.arguments) and c in getattr(node, "args", []):
                continue
            visit(c, active, qual)

    visit(tree, False, [])
    out = []
    for m in res:
        new = data[: m[1]] + m[3].encode() + data[m[2] :]
        try:
            compile(new, fn, "exec")
        except SyntaxError:
            continue
        out.append((m, new))
    return out, data


pool = []
for f in args.files:
    fn, _, names = f.partition(":")
    ms, orig = mutants(fn, [n for n in names.split(",") if n])
    print(fn, len(ms), "mutants")
    pool += [(m, new, orig) for m, new in ms]
random.Random(args.seed).shuffle(pool)
pool = pool[: args.n]
if args.list:
    sys.exit(0)
wts = queue.Queue()
made = []
for i in range(args.jobs):
    d = tempfile.mkdtemp(prefix="mut-"); os.rmdir(d)
    subprocess.check_call(["git", "-C", REPO, "worktree", "add", "-q", "--detach", d, "HEAD"])
    made.append(d); wts.put(d)


def run(item):
    (fn, a, b, new_txt, line, what), new, orig = item
    wt = wts.get()
    try:
        open(wt + "/" + fn, "wb").write(new)
        e = dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1", VERIF_NO_SHRINK="1")
        cmd = ["/opt/venv/bin/python", VERIF + "/run.py", args.prop, "--workers", args.workers, "--scale", args.scale]
        if args.only:
            cmd += ["--only", args.only]
        try:
            p = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=args.timeout, start_new_session=True)
            r = "killed" if p.returncode == 1 else ("SURVIVED" if p.returncode == 0 else "rc%i" % p.returncode)
            for l in p.stdout.splitlines():
                if l.startswith("VIOLATION") and "replay=" in l:
                    try:
                        os.unlink(l.split("replay=")[1].strip())
                    except OSError:
                        pass
        except subprocess.TimeoutExpired:
            r = "timeout"
        open(wt + "/" + fn, "wb").write(orig)
        return r, item[0], orig[a:b].decode()
    finally:
        wts.put(wt)


stat = {}
try:
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as ex:
        for r, (fn, a, b, new_txt, line, what), old in ex.map(run, pool):
            stat[r] = stat.get(r, 0) + 1
            if r != "killed":
                print("%s %s:%i [%s]\n    - %s\n    + %s" % (r, fn, line, what, old.replace("\n", "\n      ")[:300], new_txt.replace("\n", "\n      ")[:300]), flush=True)
finally:
    for d in made:
        subprocess.call(["git", "-C", REPO, "worktree", "remove", "--force", d])
print(stat)
