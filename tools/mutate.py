"""Mutation sweep (a tool for development, not a check): usage mutate.py OUT.jsonl FILEGLOB STRIDE OFFSET CHECK...
Every STRIDE-th mutant of the files is put in a scratch copy of /repo and the checks are run on it until one reports."""
import ast
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
NOISE = ("logger", "get_logger", "logging", "print", "warnings")


def noisy(node):
    s = ast.unparse(node)
    return any(s.startswith(n) for n in NOISE) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant))


def mutants(tree):
    """(line, description, apply, undo)"""
    out = []

    def add(node, what, field, new):
        out.append((node.lineno, what, node, field, new))

    class V(ast.NodeVisitor):
        def generic_visit(self, node):
            if isinstance(node, ast.stmt) and noisy(node):
                return
            if isinstance(node, (ast.Raise, ast.Import, ast.ImportFrom)):
                return
            if isinstance(node, ast.AnnAssign) and node.value is None:
                return
            if isinstance(node, ast.Compare) and type(node.ops[0]) in SWAP:
                add(node, f"compare {ast.unparse(node)}", "ops", [SWAP[type(node.ops[0])]()] + node.ops[1:])
            elif isinstance(node, ast.BoolOp):
                add(node, f"boolop {ast.unparse(node)}", "op", ast.Or() if isinstance(node.op, ast.And) else ast.And())
                for i in range(len(node.values)):
                    if len(node.values) > 1:
                        add(node, f"drop {ast.unparse(node.values[i])} from {ast.unparse(node)}", "values", node.values[:i] + node.values[i + 1 :])
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
                add(node, f"not {ast.unparse(node)}", "op", ast.UAdd()) if False else add(node, f"double not {ast.unparse(node)}", "operand", ast.UnaryOp(ast.Not(), node.operand))
            elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)) and not isinstance(node.left, (ast.JoinedStr,)):
                add(node, f"binop {ast.unparse(node)}", "op", ast.Sub() if isinstance(node.op, ast.Add) else ast.Add())
            elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
                add(node, f"const {node.value}", "value", not node.value)
            elif isinstance(node, ast.Constant) and isinstance(node.value, int):
                add(node, f"const {node.value}+1", "value", node.value + 1)
                if node.value:
                    add(node, f"const {node.value}-1", "value", node.value - 1)
            elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
                add(node, f"cond true {ast.unparse(node.test)}", "test", ast.Constant(True)) if not isinstance(node, ast.While) else None
                add(node, f"cond false {ast.unparse(node.test)}", "test", ast.Constant(False))
            elif isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
                add(node, f"return none for {ast.unparse(node)}", "value", ast.Constant(None))
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("sorted", "set", "list", "str", "tuple", "max", "min", "reversed") and len(node.args) == 1 and node.func.id not in ("max", "min"):
                add(node, f"unwrap {ast.unparse(node)}", "func", ast.Name("_identity", ast.Load()))
            elif isinstance(node, ast.ExceptHandler) and node.type is not None:
                pass
            for field, value in ast.iter_fields(node):
                if field in ("body", "orelse", "finalbody") and isinstance(value, list):
                    for i, s in enumerate(value):
                        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) and not noisy(s):
                            out.append((s.lineno, f"delete {ast.unparse(s)[:80]}", node, field, value[:i] + [ast.Pass()] + value[i + 1 :]))
            if isinstance(node, (ast.FunctionDef,)):
                for s in node.body:
                    self.visit(s)
                return
            if isinstance(node, ast.JoinedStr):
                return
            super().generic_visit(node)

    V().visit(tree)
    return out


def main():
    outfile, pattern, stride, offset, checks = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
    files = sorted(f for p in pattern.split(",") for f in glob.glob(f"/repo/mabel/{p}", recursive=True) if f.endswith(".py"))
    done = set()
    if os.path.exists(outfile):
        for l in open(outfile):
            r = json.loads(l)
            done.add((r["file"], r["i"]))
    for f in files:
        src = open(f).read()
        n = len(mutants(ast.parse(src)))
        print(f, n, flush=True)
        if stride == 0:
            continue
        for i in range(offset, n, stride):
            rel = f[len("/repo/") :]
            if (rel, i) in done:
                continue
            tree = ast.parse(src)
            line, what, node, field, new = mutants(tree)[i]
            setattr(node, field, new)
            try:
                text = ast.unparse(ast.fix_missing_locations(tree))
            except Exception:
                continue
            if "_identity(" in text:
                text += "\n\ndef _identity(x):\n    return x\n"
            d = tempfile.mkdtemp(prefix="mutant.", dir="/tmp")
            try:
                subprocess.run(["cp", "-a", "/repo/mabel", d], check=True)
                open(f"{d}/{rel}", "w").write(text)
                res = {}
                for c in checks:
                    try:
                        p = subprocess.run(["/verif/run.sh", c], env={**os.environ, "TARGET_REPO": d, "MCHECK_NOEVIDENCE": "1", "MCHECK_MAX": "1"}, capture_output=True, text=True, timeout=300)
                        res[c] = p.returncode
                    except subprocess.TimeoutExpired:
                        res[c] = "timeout"
                    if res[c] != 0:
                        break
                verdict = "survived" if all(v == 0 for v in res.values()) else "killed"
                r = {"file": rel, "i": i, "line": line, "what": what, "verdict": verdict, "res": res}
                open(outfile, "a").write(json.dumps(r) + "\n")
                print(verdict, rel, line, what, res, flush=True)
            finally:
                shutil.rmtree(d, ignore_errors=True)


main()
