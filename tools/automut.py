"""Development only: systematic small edits of every function of properimage, against the checks of the function.

python3 tools/automut.py --list            how many edits
python3 tools/automut.py --shard I/N       runs every N-th edit, from the I-th (never by the registered commands)
"""
import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MAP = {
    "operations": {"subtract": "C11 C12 C21 C24 C25", "diff": "C22", "stack_R": "C22", "process_chunk_joblib": "C13 C01", "coadd": "C13 C01 C21 C22 C24"},
    "plot": {"*": "C16"},
    "simtools": {"*": "C17"},
    "utils": {"store_img": "C14", "crossmatch": "C10", "_matching": "C09", "transparency": "C09 C13", "_align_for_diff": "C21", "_align_for_coadd": "C21",
              "find_S_local_maxima": "C18", "chunk_it": "C19", "fit_gaussian2d": "C23"},
    "single_image": {
        "conv": "C26 C05", "__init__": "C07 C08 C03", "__enter__": "C08", "__exit__": "C08", "__repr__": "C07", "_clean": "C08", "attached_to": "C07", "data": "C07 C06", "gain": "C07",
        "header": "C07", "_trim_mask": "C06 C07", "mask": "C06", "background": "C25 C15", "_bkg": "C15 C25 C24 C03", "bkg_sub_img": "C15 C25", "stamp_shape": "C20 C03",
        "best_sources": "C20 C24 C03", "update_sources": "C20 C03 C09", "stamps_pos": "C20 C04 C24", "n_sources": "C03 C20", "cov_matrix": "C04", "eigenv": "C04", "kl_basis": "C04",
        "_setup_kl_basis": "C04 C03", "kl_afields": "C04 C03", "get_afield_domain": "C05 C02", "_setup_kl_a_fields": "C05 C04 C03", "get_variable_psf": "C05 C04 C03",
        "normal_image": "C05 C26 C03", "min_sources": "C20 C03", "maskthresh": "C06", "zp": "C26 C03 C22", "var": "C11 C25", "s_hat_comp": "C26 C03", "s_component": "C26 C03", "interped": "C15 C03",
        "interped_hat": "C26 C15", "plot": "C16", "psf_hat_sqnorm": "C26 C03", "p_sqnorm": "C26 C03", "get_psf_xy": "C05"},
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def quiet(node):
    s = ast.unparse(node)
    return s.startswith(("logger.", "warnings.", "log.")) or isinstance(node, (ast.Import, ast.ImportFrom)) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant))


def edits(fn):
    """Yields (description, function that edits a copy of the tree given the path to the node)."""
    nodes = list(ast.walk(fn))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.stmt) and quiet(n):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.JoinedStr, ast.Raise)):
            skip.update(id(x) for x in ast.walk(n))
    for i, n in enumerate(nodes):
        if id(n) in skip or n is fn:
            continue
        if isinstance(n, ast.Compare):
            yield i, "cmp"
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            yield i, "bin"
        elif isinstance(n, ast.BoolOp):
            yield i, "bool"
        elif isinstance(n, ast.UnaryOp):
            yield i, "unary"
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield i, "not"
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            yield i, "const"
        elif isinstance(n, ast.If):
            yield i, "never"
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)):
            yield i, "drop"
        elif isinstance(n, ast.Call) and n.keywords:
            for k in range(len(n.keywords)):
                yield i, "kw%d" % k
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            yield i, "swap"


def apply(fn, i, how):
    n = list(ast.walk(fn))[i]
    was = ast.unparse(n)
    if how == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif how == "bin":
        n.op = BIN[type(n.op)]()
    elif how == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif how == "unary":
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
        if isinstance(n.op, (ast.Not, ast.Invert)):
            for p in ast.walk(fn):
                for f, v in ast.iter_fields(p):
                    if v is n:
                        setattr(p, f, n.operand)
                    elif isinstance(v, list) and any(x is n for x in v):
                        setattr(p, f, [n.operand if x is n else x for x in v])
            return was, ast.unparse(n.operand)
    elif how == "not":
        n.value = not n.value
    elif how == "const":
        n.value = n.value + 1 if isinstance(n.value, int) else n.value * 1.5 + 0.01
    elif how == "never":
        n.test = ast.Constant(False)
    elif how == "drop":
        for p in ast.walk(fn):
            for f, v in ast.iter_fields(p):
                if isinstance(v, list) and any(x is n for x in v):
                    setattr(p, f, [ast.copy_location(ast.Pass(), n) if x is n else x for x in v])
        return was, "pass"
    elif how.startswith("kw"):
        del n.keywords[int(how[2:])]
    elif how == "swap":
        n.slice.elts.reverse()
    return was, ast.unparse(n)


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n
        elif isinstance(n, ast.ClassDef):
            for k, x in enumerate(n.body):
                if isinstance(x, ast.FunctionDef):
                    yield (n.name + "." if n.name == "SingleImageGaussPSF" else "") + x.name, x


def all_edits():
    out = []
    for mod in MAP:
        src = open("%s/properimage/%s.py" % (REPO, mod)).read()
        tree = ast.parse(src)
        for k, (name, fn) in enumerate(functions(tree)):
            checks = "C23" if "." in name else MAP[mod].get(name, MAP[mod].get("*"))
            if checks is None:
                print("unmapped", mod, name)
                continue
            for i, how in edits(fn):
                out.append((mod, k, name, i, how, checks.split()))
    return out


def main():
    E = all_edits()
    if "--list" in sys.argv:
        from collections import Counter
        print(len(E), Counter((m, n) for m, _, n, *_ in E))
        return
    a, b = map(int, sys.argv[2].split("/"))
    for e in E[a::b]:
        mod, k, name, i, how, checks = e
        path = "properimage/%s.py" % mod
        src = open("%s/%s" % (REPO, path)).read()
        tree = ast.parse(src)
        fn = dict(enumerate(functions(tree)))[k][1]
        line = list(ast.walk(fn))[i]
        line = getattr(line, "lineno", 0)
        try:
            was, now = apply(fn, i, how)
        except Exception as x:
            print("cannot", e, x)
            continue
        if was == now:
            continue
        d = tempfile.mkdtemp(prefix="auto", dir="/tmp")
        try:
            subprocess.run("cp -a %s/properimage %s/" % (REPO, d), shell=True, check=True)
            open(os.path.join(d, path), "w").write(ast.unparse(ast.fix_missing_locations(tree)))
            res = []
            for c in checks:
                r = subprocess.run(["timeout", "900", sys.executable, "check.py", c], cwd=HERE, env=dict(os.environ, VMC_REPO=d, **({} if c == "C15" else {"VMC_STOP": "0"})), capture_output=True, text=True)
                res.append("%s:%d" % (c, r.returncode))
                if r.returncode == 1:
                    break
            verdict = "caught" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "odd"
            print(verdict, "%s.%s:%d" % (mod, name, line), how, "|", was.replace("\n", " ")[:90], "=>", now.replace("\n", " ")[:90], "|", " ".join(res), flush=True)
        finally:
            shutil.rmtree(d)


main()
