"""mutate.py <file> <n> <seed> [-o out.jsonl] [-j workers] [-f name,name]: random small changes of a source file of UXsim, each in a scratch
copy; runs the checks mapped to the place until one reports a violation. Used to find weak checks; its survivors are looked at by hand."""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, time, argparse
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("SEED_BASE", "/repo")
PY = "/opt/venv/bin/python"
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("n", type=int); ap.add_argument("seed", type=int)
ap.add_argument("-o", default="/tmp/mut.jsonl"); ap.add_argument("-j", type=int, default=3); ap.add_argument("-f", default=""); ap.add_argument("-c", default="")
ap.add_argument("-l", default="", help="line range a-b")
a = ap.parse_args()
CORE = "C13 C03 C09 C10 C07 C20 C23 C08 C05 C06 C04 C01 C02 C11 C12".split()
MAP = {"uxsim/analyzer.py": "C16 C21 C10 C23 C13".split(), "uxsim/scenario_reader_writer.py": ["C15"], "uxsim/Utilities/Utilities.py": ["C19", "C18", "C22"],
       "uxsim/TaxiHandler/TaxiHandler.py": ["C17"], "uxsim/DTAsolvers/DTAsolvers.py": ["C18"], "uxsim/DTAsolvers/ALNS.py": ["C18"],
       "uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py": ["C18"], "uxsim/trafficpp/dta_solver.cpp": ["C18"],
       "uxsim/uxsim_cpp_wrapper.py": "C22 C23 C13 C20 C14 C15 C16 C10 C17 C08 C09".split(), "uxsim/trafficpp/traffi.cpp": CORE + ["C18", "C19", "C22"],
       "uxsim/trafficpp/bindings.cpp": CORE + ["C18", "C22"], "uxsim/uxsim.py": CORE + ["C14", "C22", "C15", "C17", "C19", "C18"]}
SKIP = re.compile(r"print|plot|show|save_|anim|__repr__|copy|macroscopic_fund|cumulative_curves|time_space_diagram|network_fancy|output_data|change_print")
src = open(os.path.join(BASE, a.file)).read()
rng = random.Random(a.seed)
lines = src.split("\n")
sites = []          # (start offset, end offset, replacement, function, kind)
if a.file.endswith(".py"):
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: raw[pos(n)[0]:pos(n)[1]].decode()
    def visit(node, fn):
        for ch in ast.iter_child_nodes(node):
            f = fn
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                f = (fn + "." if fn else "") + ch.name
                if SKIP.search(ch.name):
                    continue
            if isinstance(ch, ast.Call) and isinstance(ch.func, (ast.Name, ast.Attribute)) and re.search(r"print|warn|writer", seg(ch.func)):
                continue
            if isinstance(ch, ast.arguments):
                continue
            def add(n, new, kind):
                sites.append((pos(n)[0], pos(n)[1], new, f, kind))
            if f:
                if isinstance(ch, ast.Compare) and len(ch.ops) == 1:
                    M = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}
                    o = type(ch.ops[0])
                    if o in M:
                        add(ch, "%s %s %s" % (seg(ch.left), M[o], seg(ch.comparators[0])), "bound")
                if isinstance(ch, ast.BinOp):
                    M = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/"}
                    if type(ch.op) in M and not (isinstance(ch.left, ast.Constant) and isinstance(ch.left.value, str)) and not isinstance(ch.left, ast.JoinedStr) and not isinstance(ch.right, ast.JoinedStr):
                        add(ch, "%s %s %s" % (seg(ch.left), M[type(ch.op)], seg(ch.right)), "arith")
                if isinstance(ch, ast.Constant) and type(ch.value) in (int, float):
                    add(ch, repr(ch.value + 1) if ch.value != 1 or rng.random() < .5 else "0", "const")
                if isinstance(ch, ast.BoolOp) and len(ch.values) == 2:
                    add(ch, "%s %s %s" % (seg(ch.values[0]), "or" if isinstance(ch.op, ast.And) else "and", seg(ch.values[1])), "bool")
                    add(ch, "(%s)" % seg(ch.values[0]), "drop")
                    add(ch, "(%s)" % seg(ch.values[1]), "drop")
                if isinstance(ch, ast.If):
                    add(ch.test, "True", "if"); add(ch.test, "False", "if")
                if isinstance(ch, (ast.Assign, ast.AugAssign)) or (isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Call)):
                    add(ch, "pass", "del")
                if isinstance(ch, (ast.Continue, ast.Break)):
                    add(ch, "pass", "del")
                if isinstance(ch, ast.Name) and ch.id in ("min", "max"):
                    add(ch, "max" if ch.id == "min" else "min", "minmax")
            visit(ch, f)
    visit(ast.parse(src), "")
else:
    raw = src.encode(); p = 0; fn = ""
    for l in lines:
        m = re.match(r"^\S.*?(\w+(::\w+)?)\(", l)
        if m and not l.startswith(("//", "#", " ")):
            fn = m.group(1)
        code = l.split("//")[0]
        if code.strip() and not code.strip().startswith(("*", "/*", "#", "throw")) and not SKIP.search(fn) and "<<" not in code:
            b = lambda k: p + len(l[:k].encode())
            for m in re.finditer(r" (<=|>=|<|>|==|!=|\+|-|\*|/|&&|\|\||\+=|-=) ", code):
                M = {"<=": "<", ">=": ">", "<": "<=", ">": ">=", "==": "!=", "!=": "==", "+": "-", "-": "+", "*": "/", "/": "*", "&&": "||", "||": "&&", "+=": "-=", "-=": "+="}
                if m.group(1) in ("==", "!=") and rng.random() < .6:
                    continue
                sites.append((b(m.start(1)), b(m.end(1)), M[m.group(1)], fn, "op"))
            for m in re.finditer(r"(?<![\w.])(\d+)(\.\d+)?(?![\w.])", code):
                sites.append((b(m.start()), b(m.end()), str(int(m.group(1)) + 1) + (m.group(2) or ""), fn, "const"))
            m = re.match(r"^\s+([\w\->.\[\]]+ (=|\+=|-=) .*;|[\w\->.]+\(.*\);|break;|continue;)\s*$", code)
            if m:
                sites.append((b(m.start(1)), b(m.end(1)), ";", fn, "del"))
            m = re.match(r"^\s+(?:\} else )?if \((.*)\)\s*\{\s*$", code)
            if m:
                for v in ("true", "false"):
                    sites.append((b(m.start(1)), b(m.end(1)), v, fn, "if"))
        p += len(l.encode()) + 1
if a.f:
    sites = [s for s in sites if re.search(a.f, s[3])]
if a.l:
    lo, hi = map(int, a.l.split("-"))
    ln = lambda o: raw[:o].count(b"\n") + 1
    sites = [s for s in sites if lo <= ln(s[0]) <= hi]
done = set()
if os.path.exists(a.o):
    for l in open(a.o):
        d = json.loads(l); done.add((d["file"], d["line"], d["old"], d["new"]))
pick = rng.sample(sites, min(a.n, len(sites)))
print(len(sites), "sites", flush=True)
BUILD = r'''
import sys; sys.path.insert(0, "%s/harness"); import os; os.environ["UX_REPO"] = os.getcwd()
import uxenv, shutil; uxenv.finish_cpp_build()
import atexit; atexit._run_exitfuncs(); os._exit(0)
''' % R
def one(s):
    t0 = time.time()
    line = raw[:s[0]].count(b"\n") + 1
    old = raw[s[0]:s[1]].decode()
    key = (a.file, line, old[:200], s[2][:200])
    if key in done or old == s[2]:
        return
    out = dict(file=a.file, line=line, func=s[3], kind=s[4], old=old[:200], new=s[2][:200], text=lines[line - 1].strip()[:150])
    t = tempfile.mkdtemp(prefix="mut_")
    try:
        subprocess.run("git -C %s archive HEAD | tar -x -C %s" % (BASE, t), shell=True, check=True)
        open(os.path.join(t, a.file), "wb").write(raw[:s[0]] + s[2].encode() + raw[s[1]:])
        env = dict(os.environ, UX_REPO=t, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED="1", OMP_NUM_THREADS="2", UX_OUT=t + "/out")
        if a.file.endswith(".cpp"):
            b = subprocess.run([PY, "-c", BUILD], cwd=t, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if b.returncode:
                out["res"] = "nobuild"
        if "res" not in out:
            out["res"] = "SURVIVED"
            for c in (a.c.split(",") if a.c else MAP[a.file]):
                try:
                    r = subprocess.run([PY, R + "/harness/check.py", c, "quick"], cwd=R, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    out["res"] = "timeout " + c
                    break
                if r.returncode:
                    out["res"] = "%s rc%d %s" % (c, r.returncode, " | ".join(r.stdout.strip().split("\n")[-3:-1])[:160])
                    break
    finally:
        shutil.rmtree(t, ignore_errors=True)
    out["sec"] = int(time.time() - t0)
    open(a.o, "a").write(json.dumps(out) + "\n")
    print(out["res"][:60], "|", s[3], line, repr(old[:60]), "->", repr(s[2][:60]), out["sec"], flush=True)
with ThreadPoolExecutor(a.j) as ex:
    list(ex.map(one, pick))
