#!/usr/bin/env python3
"""Decide one property of TrajoptLib by symbolic execution of its current source.

usage: check.py <property> [quick|thorough]

Compiles the harnesses of the property together with /repo's current source to
LLVM IR, executes the IR symbolically (symx/), sends every proof obligation to
SMT solvers, replays every counterexample against a native build of the same
source, and reports.  Exit 0: held within the stated bounds.  Exit 1 with a
VIOLATION line: broken.  Exit 2: no verdict (an error of the check).
"""
import concurrent.futures as cf
import glob, hashlib, itertools, json, math, os, queue, random, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TRAJOPT_REPO", "/repo")
sys.path.insert(0, HERE)
from registry import PROPS  # noqa: E402

T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
rng = random.Random(SEED)
JOBS = min(8, os.cpu_count() or 8)
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
P = PROPS[pid]
THO = tier == "thorough"
BUDGET = 3000 if THO else 780
ONLY = os.environ.get("CASES", "")
KEEP = os.environ.get("KEEP", "")
W = tempfile.mkdtemp(prefix="symx_%s_" % pid)
EVD = os.path.join(HERE, "evidence")
os.makedirs(EVD, exist_ok=True)


def log(*a):
    print(*a, flush=True)


def cleanup():
    if KEEP:
        log("kept", W)
    else:
        shutil.rmtree(W, ignore_errors=True)


class Undecided(Exception):
    pass


def run(cmd, timeout=900, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return -999, out


def must(cmd, what, timeout=900):
    rc, out = run(cmd, timeout)
    if rc != 0:
        raise Undecided("%s failed (%s):\n%s" % (what, " ".join(cmd), out[-4000:]))
    return out


# ------------------------------------------------------------------ build
INC = ["-I" + os.path.join(HERE, "symx"), "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(HERE, "stubs"),
       "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + W]
BCF = ["-std=c++20", "-O1", "-g1", "-DNDEBUG", "-DSYMX", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize",
       "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-pic", "-fno-pie", "-w", "-emit-llvm", "-c"]
NATF = ["-std=c++20", "-O1", "-g0", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-c"]
TD = ["-DTHOROUGH=1"] if THO else ["-DTHOROUGH=0"]


def build_symx():
    srcs = sorted(glob.glob(os.path.join(HERE, "symx", "*.hpp")) + [os.path.join(HERE, "symx", "symx.cpp")])
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()[:16]
    cached = os.path.join(HERE, ".build", "symx-" + h)
    if os.path.exists(cached):
        return cached
    out = os.path.join(W, "symx")
    must(["g++", "-std=c++20", "-O1", "-w", "-I/usr/lib/llvm-18/include", os.path.join(HERE, "symx", "symx.cpp"), "-o", out,
          "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], "build of the symbolic executor")
    try:
        os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
        t = cached + ".%d" % os.getpid()
        shutil.copy2(out, t)
        os.replace(t, cached)
    except OSError:
        pass
    return out


def repo_sources(ffi):
    s = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    return [f for f in s if ffi or os.path.basename(f) != "RustFFI.cpp"]


def kids(s):
    return os.path.splitext(os.path.basename(s))[0]


def build(cases):
    files = sorted({c["file"] for c in cases})
    units = []
    for f in files:
        units.append((os.path.join(HERE, "harness", f + ".cpp"), "h_" + f))
    needrepo = any(c.get("repo") for c in cases)
    ffi = any(c.get("ffi") for c in cases)
    rs = []
    if needrepo:
        for i, s in enumerate(repo_sources(ffi)):
            u = "r%d_%s" % (i, kids(s))
            rs.append(u)
            units.append((s, u))
    if ffi:
        sys.path.insert(0, HERE)
        import gen_bridge
        gen_bridge.generate(os.path.join(REPO, "src", "lib.rs"), os.path.join(W, "trajoptlib", "src", "lib.rs.h"))
    jobs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        sx = ex.submit(build_symx)
        jobs.append(ex.submit(must, ["clang++", *BCF, *INC, os.path.join(HERE, "symx", "rt.cpp"), "-o", W + "/rt.bc"], "rt"))
        for s, u in units:
            jobs.append(ex.submit(must, ["clang++", *BCF, *TD, *INC, s, "-o", "%s/%s.bc" % (W, u)], "compilation of " + s))
        for s, u in units:
            jobs.append(ex.submit(must, ["g++", *NATF, *TD, *INC, s, "-o", "%s/%s.o" % (W, u)], "native compilation of " + s))
        jobs.append(ex.submit(must, ["g++", *NATF, *TD, *INC, os.path.join(HERE, "symx", "native_rt.cpp"), "-o", W + "/native_rt.o"], "native_rt"))
        for j in jobs:
            j.result()
        symx = sx.result()
        jobs = []
        for f in files:
            r = rs if any(c.get("repo") for c in cases if c["file"] == f) else []
            jobs.append(ex.submit(must, ["llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link", W + "/h_%s.bc" % f, W + "/rt.bc", *["%s/%s.bc" % (W, u) for u in r], "-o", W + "/%s.bc" % f], "llvm-link"))
            jobs.append(ex.submit(must, ["g++", "-fsanitize=address,undefined", W + "/h_%s.o" % f, W + "/native_rt.o", *["%s/%s.o" % (W, u) for u in r], "-o", W + "/%s.exe" % f], "native link"))
        for j in jobs:
            j.result()
    return symx


# ------------------------------------------------------------------ solving
solver_time = 0.0
solver_queries = 0


def parse_sexp(s):
    tok = re.findall(r'\|[^|]*\||\(|\)|[^\s()]+', s)
    pos = 0

    def rec():
        nonlocal pos
        t = tok[pos]
        pos += 1
        if t == "(":
            r = []
            while tok[pos] != ")":
                r.append(rec())
            pos += 1
            return r
        return t
    return rec()


def f64bits(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def to_num(v):
    """value of an SMT model term: float, int, bool or ('bits', n)"""
    if isinstance(v, str):
        if v in ("true", "false"):
            return v == "true"
        if v.startswith("#x"):
            return int(v[2:], 16)
        if v.startswith("#b"):
            return int(v[2:], 2)
        v = v.rstrip("?")
        if re.fullmatch(r"-?\d+", v):
            return int(v)
        return float(v)
    if v[0] == "-":
        return -to_num(v[1])
    if v[0] == "/":
        a, b = to_num(v[1]), to_num(v[2])
        from fractions import Fraction
        return float(Fraction(a) / Fraction(b))
    if v[0] == "_" and v[1].startswith("bv"):
        return int(v[1][2:])
    if v[0] == "_" and v[1] in ("+zero", "-zero", "+oo", "-oo", "NaN"):
        d = {"+zero": 0.0, "-zero": -0.0, "+oo": math.inf, "-oo": -math.inf, "NaN": math.nan}[v[1]]
        return ("bits", struct.unpack("<Q", struct.pack("<d", d))[0])
    if v[0] == "fp":
        s, e, m = (x[2:] if x.startswith("#b") else bin(int(x[2:], 16))[2:].zfill(4 * (len(x) - 2)) for x in v[1:4])
        return ("bits", int(s + e + m, 2))
    raise ValueError("cannot parse model value %r" % (v,))


class Query:
    def __init__(self, path):
        self.path = path
        self.lines = open(path).read().split("\n")
        self.inputs, self.trig, self.hints, self.choices = [], [], [], []
        for l in self.lines:
            if l.startswith(";;INPUT "):
                self.inputs.append(l[8:].split(" "))
            elif l.startswith(";;TRIG "):
                self.trig.append(l[7:])
            elif l.startswith(";;HINT "):
                self.hints.append(l[7:])
            elif l.startswith(";;CHOICE "):
                self.choices.append(l[9:].split(" "))
        t = []
        for s in self.trig:
            parts = s.rsplit(" ", 2)
            t.append(tuple(parts))
        self.trig = t

    def text(self, extra=(), pool=True):
        out = []
        skip = False
        for l in self.lines:
            if l.startswith(";;"):
                skip = l.startswith(";;POOL") and not pool
                continue
            if skip:
                skip = False
                continue
            out.append(l)
        out += ["(assert %s)" % e for e in extra]
        return "\n".join(out)

    def refs(self):
        r = []
        for i in self.inputs:
            r += i[2:]
        for a, s, c in self.trig:
            r += [a, s, c]
        seen = []
        for x in r:
            if x not in seen and not re.fullmatch(r"[\d.]+", x) and not x.startswith("("):
                seen.append(x)
        return seen


def solve_one(q, cfg, timeout, extra=(), pool=True, seed=0, live=None):
    """-> (verdict, model)"""
    global solver_time, solver_queries
    refs = q.refs()
    body = q.text(extra, pool)
    head = "(set-option :produce-models true)\n"
    tail = "(check-sat)\n"
    if cfg in ("z3", "nlsat", "z3old"):
        head += "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n"
        if seed:
            head += "(set-option :smt.random_seed %d)\n(set-option :nlsat.seed %d)\n(set-option :sat.random_seed %d)\n" % (seed, seed, seed)
        if cfg == "nlsat":
            tail = "(check-sat-using (then simplify purify-arith propagate-values solve-eqs elim-uncnstr simplify (or-else qfnra-nlsat smt)))\n"
        cmd = ["z3-new" if cfg != "z3old" else "z3", "-in", "-T:%d" % int(timeout + 1), "-memory:5000"]
    else:
        head = "(set-logic ALL)\n" + head
        cmd = ["cvc5", "--lang=smt2", "--tlimit=%d" % int(timeout * 1000), "--produce-models"]
        if seed:
            cmd.append("--seed=%d" % seed)
        body = body.replace("(define-fun tiny () Real (/ 1.0 1267650600228229401496703205376.0))", "(define-fun tiny () Real (/ 1.0 1267650600228229401496703205376.0))")
    txt = head + body + "\n" + tail
    if refs:
        txt += "(get-value (%s))\n" % " ".join(refs)
    t = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    LIVE.append(p)
    if live is not None:
        live.append(p)
    try:
        out, _ = p.communicate(txt, timeout=timeout + 5)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        out = "unknown"
    solver_time += time.time() - t
    solver_queries += 1
    first = out.strip().split("\n", 1)
    v = first[0].strip() if first else "unknown"
    if v not in ("sat", "unsat"):
        if "error" in out and os.environ.get("DBG"):
            log("solver:", out[:500])
        return "unknown", None
    if v == "unsat":
        return v, None
    model = {}
    if refs:
        try:
            s = parse_sexp(first[1])
            for k, val in s:
                name = k if isinstance(k, str) else None
                if name:
                    try:
                        model[name] = to_num(val)
                    except Exception:
                        pass
        except Exception as e:
            return "unknown", None
    return v, model


LIVE = []


def kill_live(ps=None):
    for p in (LIVE if ps is None else ps):
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def portfolio(q, timeout, extra=(), pool=True, want_model=False):
    hints = q.hints
    realonly = not re.search(r"BitVec|Int\b|to_int|FloatingPoint", "\n".join(q.lines))
    cfgs = [("z3", extra, True), ("cvc5", extra, True)]
    if hints:
        cfgs.insert(0, ("z3", tuple(extra) + tuple(hints), False))
    if realonly:
        cfgs.append(("nlsat", extra, True))
        if hints:
            cfgs.append(("nlsat", tuple(extra) + tuple(hints), False))
    best = None
    live = []
    with cf.ThreadPoolExecutor(len(cfgs)) as ex:
        mine = {}
        for c, e, full in cfgs:
            mine[ex.submit(solve_one, q, c, timeout, e, pool, SEED, live)] = full
        for f in cf.as_completed(mine):
            v, m = f.result()
            if v == "sat" or (v == "unsat" and mine[f]):
                best = (v, m)
                break
        kill_live(live)
    return best or ("unknown", None)


# ------------------------------------------------------------------ replay
def val_text(q, model, choices=True):
    rows = []
    for i in q.inputs:
        kind, name = i[0], i[1]
        if kind == "angle":
            s, c = (model.get(x, to_const(x)) for x in (i[2], i[3]))
            rows.append((name, repr(math.atan2(float(s or 0), float(c or 0)))))
            continue
        v = model.get(i[2])
        if v is None:
            v = 0
        if isinstance(v, tuple):
            rows.append((name, "0x%016x" % v[1] if kind == "f64" else repr(struct.unpack("<f", struct.pack("<I", v[1]))[0])))
        elif kind in ("f64", "f32"):
            rows.append((name, repr(float(v))))
        else:
            rows.append((name, str(v).lower() if isinstance(v, bool) else str(v)))
    for n, v in q.choices:
        rows.append((n, v))
    return "".join("%s %s\n" % r for r in rows)


def to_const(x):
    try:
        return float(x)
    except ValueError:
        return None


ENVN = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98", UBSAN_OPTIONS="print_stacktrace=0")


def replay(case, values):
    f = tempfile.NamedTemporaryFile("w", dir=W, suffix=".val", delete=False)
    f.write(values)
    f.close()
    rc, out = run([W + "/%s.exe" % case["file"], case["entry"], f.name], 60, env=ENVN)
    return rc, out, f.name


def reproduces(case, label, values):
    rc, out, fn = replay(case, values)
    if "ASSUME-FAIL" in out:
        return False, out
    if label.startswith("crash:"):
        bad = rc in (98, 99, -6, -11) or "CRASH" in out or "AddressSanitizer" in out or "runtime error" in out or "Assertion" in out
        return bad, out
    if "CHECK-FAIL " + label in out:
        # the posted constraints (pool) must hold at the failing check
        for l in out.split("\n"):
            if l.startswith("CHECK-FAIL " + label):
                if l.endswith(" pool=0"):
                    return True, out
        return False, out
    bad = rc in (98, 99, -6, -11) or "AddressSanitizer" in out or "runtime error" in out
    return bad, out


def trig_ok(q, m):
    for a, s, c in q.trig:
        av, sv, cv = (m.get(x) for x in (a, s, c))
        if av is None or sv is None or cv is None:
            continue
        if abs(math.sin(av) - sv) > 1e-7 or abs(math.cos(av) - cv) > 1e-7:
            return False
    return True


def rat(x):
    from fractions import Fraction
    f = Fraction(x).limit_denominator(10**12)
    s = "(/ %d.0 %d.0)" % (abs(f.numerator), f.denominator)
    return "(- %s)" % s if f < 0 else s


def pins(q, m, how):
    """constraints that make sin/cos of an argument consistent with the argument"""
    angle_refs = {i[2] for i in q.inputs if i[0] == "angle"} | {i[3] for i in q.inputs if i[0] == "angle"}
    ex = []
    for a, s, c in q.trig:
        if s in angle_refs or c in angle_refs:
            continue
        av, sv, cv = (m.get(x) for x in (a, s, c))
        if av is None:
            if re.fullmatch(r"[\d.]+|\(.*\)", a):
                continue
            continue
        if how == "arg" and sv is not None and cv is not None:
            th = math.atan2(sv, cv)
            # a nearby angle with the model's sine and cosine
            th += 2 * math.pi * round((av - th) / (2 * math.pi)) if abs(av) < 40 else 0
            ex.append("(and (< (- %s %s) 0.000000001) (< (- %s %s) 0.000000001))" % (a, rat(th), rat(th), a))
            # on the unit circle exactly: rational point through tan(half angle)
            t = math.tan(th / 2) if abs(abs(th) - math.pi) > 1e-6 else None
            continue
        # keep the argument, give sine and cosine their true values (rational point of the circle)
        t = math.tan(av / 2)
        if abs(t) > 1e6:
            continue
        from fractions import Fraction
        T = Fraction(t).limit_denominator(10**9)
        S, C = 2 * T / (1 + T * T), (1 - T * T) / (1 + T * T)
        fr = lambda F: ("(- (/ %d.0 %d.0))" if F < 0 else "(/ %d.0 %d.0)") % (abs(F.numerator), F.denominator)
        ex.append("(= %s %s)" % (s, fr(S)))
        ex.append("(= %s %s)" % (c, fr(C)))
        ex.append("(and (< (- %s %s) 0.000000001) (< (- %s %s) 0.000000001))" % (a, rat(av), rat(av), a))
    return ex


STOP = threading.Event()
PINV = ["0.0", "1.0", "(- 1.0)", "2.0", "0.5", "3.0", "(- 2.0)", "0.6", "0.8", "4.0", "(- 0.6)", "0.25", "(- 3.0)"]


def try_model(case, label, q, m, timeout):
    """replay a solver model, repaired where sin/cos need it; -> (values, output) or None, last output"""
    cand = [m]
    if q.trig and not trig_ok(q, m):
        for how in ("arg", "val"):
            vv, mm = portfolio(q, min(timeout, 20), extra=tuple(pins(q, m, how)))
            if vv == "sat":
                cand.append(mm)
    out = ""
    flat = ["(and (= %s 0.0) (= %s 1.0))" % (i[2], i[3]) for i in q.inputs if i[0] == "angle"]
    if flat and any(abs(m.get(i[2]) or 0) < 1e-9 for i in q.inputs if i[0] == "angle"):
        # sin(k pi) is not exactly zero: prefer the angle 0
        vv, mm = portfolio(q, min(timeout, 20), extra=tuple(flat))
        if vv == "sat":
            cand.append(mm)
    for mm in cand:
        vals = val_text(q, mm)
        ok, out = reproduces(case, label, vals)
        if ok:
            return (vals, out), out
    return None, out


# motions of a robot that make most of a problem linear: (quantity, value) pins
REST = {"Mv": "0.0", "Ma": "0.0", "Mw": "0.0", "Mal": "0.0", "Mf": "0.0", "Mdt": "1.0"}
SLIDE = {"Mw": "0.0", "Mal": "0.0", "Mdt": "1.0"}
MOTIONS = [dict(REST, Ms="0.0"), dict(REST, Mc="0.0"), dict(SLIDE, Ms="0.0"), REST, dict(SLIDE, Mc="1.0"), dict(REST, Mdt="0.0"), SLIDE, dict(Mdt="0.5", Ms="0.0")]


def motion_model(q, t):
    """a model in which the robot moves in one of these ways"""
    names = [(i[1], i[2]) for i in q.inputs if i[0] == "f64"]
    if not any(n.startswith("Mc") for n, _ in names):
        return None
    for mo in MOTIONS:
        if STOP.is_set():
            return None
        e = tuple("(= %s %s)" % (v, mo[n.split("#")[0]]) for n, v in names if n.split("#")[0] in mo)
        verdict, m = solve_one(q, "z3", t, e, True, 1)
        if verdict == "sat":
            return m
    return None


def greedy(q, deadline, r):
    """pin inputs to small values, whole groups first, until the solver can complete a model"""
    names = [(i[1], i[2]) for i in q.inputs if i[0] == "f64"]
    circle = {n.split("#")[0] for n, _ in names} >= {"c", "s"}

    def pin(n, v):
        if circle and n.split("#")[0] == "s":
            return None
        if circle and n.split("#")[0] == "c":
            x = r.choice(["1.0", "0.0", "(- 1.0)", "0.6"])
        else:
            x = "0.0" if r.random() < 0.3 else r.choice(PINV)
        return "(= %s %s)" % (v, x)
    r.shuffle(names)
    if circle:  # the pose of the robot first
        names.sort(key=lambda n: n[0].split("#")[0] not in ("c", "x", "y", "s"))
    held = []
    work = [names[:len(names) // 2], names[len(names) // 2:]] if len(names) > 6 else [[n] for n in names]
    while work:
        if time.time() > deadline or STOP.is_set():
            return None
        g = work.pop(0)
        done = False
        for _ in range(4 if len(g) < 3 else 2):
            e = [x for x in (pin(n, v) for n, v in g) if x]
            if not e:
                done = True
                break
            verdict, m = solve_one(q, "z3", 1.0 if len(g) < 3 else 2.0, tuple(held) + tuple(e), True, r.randrange(1, 1000))
            if verdict == "sat":
                return m
            if verdict == "unknown":
                held += e
                done = True
                break
        if not done and len(g) > 1:
            work = [g[:len(g) // 2], g[len(g) // 2:]] + work
    return None


def quick_cex(case, label, q, secs, r):
    """-> ('violation', values, output) | ('holds',) | None"""
    deadline = time.time() + secs
    v, m = portfolio(q, min(12, secs))
    if v == "unsat":
        return ("holds",)
    models = [m] if v == "sat" else []
    k = 0
    while True:
        if models:
            got, _ = try_model(case, label, q, models.pop(), 10)
            if got:
                return ("violation",) + got
        if time.time() > deadline or STOP.is_set() or k >= 6:
            return None
        k += 1
        m = greedy(q, deadline, r)
        if m:
            models.append(m)
        elif v != "sat":
            continue


def find_violation(case, label, q, timeout):
    """-> ('violation', values, output) | ('holds',) | ('unknown', why)"""
    v, m = portfolio(q, timeout)
    if v == "unsat":
        return ("holds",)
    r = random.Random(SEED)
    if v == "unknown":
        m = greedy(q, time.time() + timeout, r)
        if not m:
            return ("unknown", "solvers undecided")
    tries = 0
    t_end = time.time() + max(60, timeout * 3)
    last = ""
    while tries < 10 and time.time() < t_end:
        got, last = try_model(case, label, q, m, timeout)
        if got:
            return ("violation",) + got
        # another model: block the current values of a random real input
        reals = [i for i in q.inputs if i[0] == "f64" and isinstance(m.get(i[2]), (int, float))]
        tries += 1
        if not reals:
            break
        if tries % 2 == 0:
            mm = greedy(q, time.time() + 20, r)
            if mm:
                m = mm
                continue
        ex = []
        for i in r.sample(reals, max(1, len(reals) // 3)):
            lo = r.uniform(-3, 3)
            ex.append("(and (>= %s %s) (<= %s %s))" % (i[2], rat(lo), i[2], rat(lo + 2)))
        vv, mm = portfolio(q, 10, extra=tuple(ex))
        if vv != "sat":
            vv, mm = portfolio(q, 10, extra=tuple(ex[:1]))
        if vv == "sat":
            m = mm
    return ("unknown", "counterexample did not replay: " + last[-600:])


# ------------------------------------------------------------------ main
CEX = queue.PriorityQueue()   # open obligations, tried while the exploration runs
VERDICT = {}                  # file -> result of an early attempt
FOUND = []
tick = itertools.count()


def run_case(symx, c):
    out = os.path.join(W, "out_" + c["entry"])
    o = dict(c.get("opts", {}))
    if THO:
        o.update(c.get("topts", {}))
    cmd = [symx, "--mode", c.get("mode", "real"), "--out", out, "--entry", "case_" + c["entry"], "--z3", shutil.which("z3-new") or "z3",
           "--max-time", str(o.pop("max-time", BUDGET * (0.25 if c.get("extra") else 0.55)))]
    for k, v in o.items():
        cmd += ["--" + k, str(v)]
    cmd.append(W + "/%s.bc" % c["file"])
    if STOP.is_set():
        return c, None, None, "stopped"
    t = time.time()
    log_ = open(out + ".log", "w")
    p = subprocess.Popen(cmd, stdout=log_, stderr=subprocess.STDOUT, start_new_session=True)
    LIVE.append(p)
    man, pos, paths = out + "/obligations.jsonl", 0, set()
    while True:
        done = p.poll() is not None
        try:
            with open(man) as f:
                f.seek(pos)
                for l in iter(f.readline, ""):
                    if not l.endswith("\n"):
                        break
                    pos += len(l)
                    ob = json.loads(l)
                    if ob["kind"] in ("check", "crash"):
                        sz = os.path.getsize(ob["file"])
                        CEX.put((1, ob["inline"] != "sat", sz, next(tick), c, ob))
                        if c["file"] in ("c14", "c15", "c19"):  # one of each path first
                            fresh = (ob["label"], ob["path"]) not in paths
                            paths.add((ob["label"], ob["path"]))
                            CEX.put((0, not fresh, sz, next(tick), c, ob))
        except OSError:
            pass
        if done:
            break
        if STOP.is_set() or time.time() - t > BUDGET:
            kill_live([p])
        time.sleep(0.05)
    log_.close()
    rc = p.returncode
    if rc != 0:
        if STOP.is_set():
            return c, None, None, "stopped"
        return c, None, None, "symbolic execution failed (rc %s): %s" % (rc, open(out + ".log").read()[-1500:])
    st = json.load(open(out + "/stats.json"))
    obs = [json.loads(l) for l in open(man) if l.strip()]
    st["wall_case"] = time.time() - t
    return c, st, obs, None


def cex_worker(kf, alldone):
    r = random.Random(SEED * 7919 + next(tick))
    tried = {}
    while not STOP.is_set():
        try:
            stage, _, _, _, c, ob = CEX.get(timeout=0.1)
        except queue.Empty:
            if alldone.is_set():
                return
            continue
        lab = ob["label"]
        if any(k["label"] == lab and k["case"] == c["entry"] for k in kf):
            continue
        if time.time() - T0 > BUDGET * 0.6:
            continue
        key = (c["entry"], lab, stage)
        tried[key] = tried.get(key, 0) + 1
        if tried[key] > (4 if stage else 20):
            continue
        try:
            if stage == 0:
                q = Query(ob["file"])
                m = motion_model(q, 0.7)
                got = m and try_model(c, lab, q, m, 10)[0]
                if got and not STOP.is_set():
                    FOUND.append((c, lab) + got)
                    STOP.set()
                continue
            res = quick_cex(c, lab, Query(ob["file"]), 40, r)
        except Exception as e:
            if not STOP.is_set():
                log("note: early search failed:", e)
            continue
        if res:
            VERDICT[ob["file"]] = res
            if res[0] == "violation" and not STOP.is_set():
                FOUND.append((c, lab, res[1], res[2]))
                STOP.set()


def known_findings():
    r = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) case=(\S+) label=(\S+) (.*)", l)
            if m:
                r.append(dict(property=m[1], case=m[2], label=m[3], what=m[4].strip()))
    except OSError:
        pass
    return r


def main(cases=None, symx=None, reduced=()):
    if cases is None:
        cases = [c for c in P["cases"] if THO or not c.get("thorough")]
        if ONLY:
            cases = [c for c in cases if c["entry"] in ONLY.split(",")]
        symx = build(cases)
    viol, problems, known_hit = [], [], []
    tb = time.time() - T0
    results = []
    kf = [k for k in known_findings() if k["property"] == pid]
    heavy = sorted(cases, key=lambda c: (bool(c.get("extra")), -c.get("weight", 1)))
    alldone = threading.Event()
    workers = [threading.Thread(target=cex_worker, args=(kf, alldone)) for _ in range(3)]
    for w in workers:
        w.start()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(run_case, symx, c) for c in heavy]
        for f in futs:
            results.append(f.result())
    alldone.set()
    for w in workers:
        w.join()
    viol += FOUND[:1]
    results.sort(key=lambda r: [c["entry"] for c in cases].index(r[0]["entry"]))
    agg = dict(paths=0, instructions=0, obligations=0, trivial=0, inline_unsat=0, dumped=0, queries=0, solver_time=0.0, infeasible=0, crash_paths=0)
    labels, lines, samples, replayed, dumped_ok = {}, {}, [], 0, 0
    qt = 120 if THO else 40
    seen_viol = set()
    if not FOUND:
        # every open obligation once, side by side
        results.sort(key=lambda r: bool(r[0].get("extra")))
        late = {id(o) for c, st, obs, err in results if not err and c.get("extra") for o in obs}
        todo = [o for c, st, obs, err in results if not err for o in obs if o["kind"] in ("check", "crash") and o["inline"] != "sat" and o["file"] not in VERDICT]

        def settle(o):
            if time.time() - T0 > BUDGET * (0.45 if id(o) in late else 0.7):
                return
            q = Query(o["file"])
            for cfg, pool in (("z3", False), ("z3", True), ("nlsat", True), ("cvc5", True)):
                if pool is False and not any(l.startswith(";;POOL") for l in q.lines):
                    continue
                v, m = solve_one(q, cfg, qt / 4, pool=pool)
                if v == "unsat":
                    VERDICT[o["file"]] = ("holds",)
                    return
                if v == "sat" and pool:
                    return
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(settle, todo))
    for c, st, obs, err in results:
        if err:
            if err != "stopped":
                problems.append("%s: %s" % (c["entry"], err))
            continue
        for k in agg:
            agg[k] += st[k]
        for k, v in st["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for f, fn, ln in st["lines"]:
            if f.startswith(REPO) or "/repo/" in f:
                lines.setdefault(fn, set()).add((f, ln))
        if st["truncated"]:
            problems.append("%s: exploration truncated (%s), %d branches pending" % (c["entry"], st["trunc_why"], st["pending"]))
        for lab in c.get("reach", []):
            if lab not in st["reach"]:
                problems.append("%s: witness %r was never reached (vacuous run)" % (c["entry"], lab))
        if FOUND:
            continue
        # counterexample candidates, one label at a time
        bylabel = {}
        for o in obs:
            if o["kind"] in ("check", "crash"):
                bylabel.setdefault(o["label"], []).append(o)
        skipped = [o for o in obs if o["kind"] == "skipped"]
        for lab, os_ in bylabel.items():
            got = None
            und = []
            done = 0
            for o in sorted(os_, key=lambda o: o["inline"] != "sat"):
                if time.time() - T0 > BUDGET * (0.5 if c.get("extra") else 1):
                    und.append("time budget")
                    break
                r = VERDICT.get(o["file"]) or find_violation(c, lab, Query(o["file"]), qt)
                if r[0] == "violation":
                    got = r
                    break
                if r[0] == "unknown":
                    und.append(r[1])
                    if len(und) > 4:
                        break
                else:
                    done += 1
                    dumped_ok += 1
            if got:
                k = next((k for k in kf if k["label"] == lab and k["case"] == c["entry"]), None)
                if k:
                    known_hit.append((k, lab))
                else:
                    viol.append((c, lab, got[1], got[2]))
            elif und:
                problems.append("%s: %s: %s" % (c["entry"], lab, und[0]))
        for o in skipped:
            if not any(v[1] == o["label"] for v in viol) and not any(l == o["label"] for _, l in known_hit):
                problems.append("%s: %s: too many open obligations" % (c["entry"], o["label"]))
                break
        # reachability witnesses, replayed natively
        if not viol:
            for o in obs:
                if o["kind"] != "reach":
                    continue
                q = Query(o["file"])
                ok = False
                v, m = portfolio(q, 15)
                if v == "unsat":
                    problems.append("%s: witness %r is unreachable" % (c["entry"], o["label"]))
                    continue
                tries = [m] if v == "sat" else []
                if v == "sat" and q.trig and not trig_ok(q, m):
                    for how in ("arg", "val"):
                        vv, mm = portfolio(q, 10, extra=tuple(pins(q, m, how)))
                        if vv == "sat":
                            tries.append(mm)
                for m in tries:
                    vals = val_text(q, m)
                    rc, out, _ = replay(c, vals)
                    if "REACH " + o["label"] in out:
                        ok = True
                        if "CHECK-FAIL" in out:
                            bad = [l for l in out.split("\n") if l.startswith("CHECK-FAIL") and l.endswith("pool=0")]
                            if bad and not c.get("loose_replay"):
                                lab = bad[0].split(" ")[1]
                                if not any(k["label"] == lab for k in kf):
                                    problems.append("%s: native replay of witness %r fails %s although the solver discharged it" % (c["entry"], o["label"], bad[0]))
                        break
                if ok:
                    replayed += 1
                    if len(samples) < 6:
                        samples.append({"case": c["entry"], "witness": o["label"], "input": vals.strip().split("\n")[:40]})
                elif v == "sat" and c.get("strict_witness", True) is True and o["label"] in c.get("reach", []):
                    problems.append("%s: witness %r does not replay" % (c["entry"], o["label"]))
    # a case beyond the base bounds that could not be decided: said so, base bounds stand
    more = {c["entry"] for c in cases if c.get("extra")}
    soft = [p for p in problems if p.split(":")[0] in more and re.search(r"truncated|undecided|did not replay|too many open|time budget|was never reached|does not replay", p)]
    if not viol and soft and len(soft) == len(problems):
        reduced = list(reduced) + ["%s; beyond the base bounds, which are decided" % p[:200] for p in soft]
        problems = []
    if problems and not viol and not reduced:
        # a case that could not be decided (say, a loop over an unbounded number of turns) within the smaller bounds it names
        bad = [c for c in cases if any(p.startswith(c["entry"] + ":") for p in problems)]
        if bad and all(c.get("fallback") for c in bad) and all(any(p.startswith(c["entry"] + ":") for c in bad) for p in problems):
            for p in problems:
                log("note: " + p[:300])
            VERDICT.clear()
            return main([dict(c, **c["fallback"]) if c in bad else c for c in cases], symx, ["%s: undecided; decided instead: %s" % (c["entry"], c["fallback"]["bounds"]) for c in bad])
    for n in reduced:
        log("note: " + n)
    fns = sorted(lines)
    cov = {
        "states": agg["paths"],
        "transitions": agg["instructions"],
        "traces_validated_against_impl": replayed,
        "samples": samples or [{"note": "no witness replayed"}],
        "obligations": agg["obligations"],
        "discharged_by_simplification": agg["trivial"],
        "discharged_by_solver": agg["inline_unsat"] + dumped_ok,
        "open": agg["dumped"] - dumped_ok,
        "solver_queries": agg["queries"] + solver_queries,
        "solver_time_s": round(agg["solver_time"] + solver_time, 2),
        "paths_infeasible": agg["infeasible"],
        "functions_encoded": fns[:400],
        "functions_encoded_count": len(fns),
        "repo_source_lines_executed": sum(len(v) for v in lines.values()),
        "labels": labels,
        "cases": [{"case": c["entry"], "mode": c.get("mode", "real"), "paths": st["paths"], "obligations": st["obligations"], "wall_s": round(st["wall_case"], 2)} for c, st, _, e in results if st],
        "bounds": P["bounds_thorough"] if THO and "bounds_thorough" in P else P["bounds"],
        "meaning": "states = explored symbolic paths (each covers every input satisfying its path condition); transitions = IR instructions executed symbolically",
        "build_s": round(tb, 2),
        "problems": problems,
        "reduced": list(reduced),
    }
    rep = None
    if viol:
        c, lab, vals, out = viol[0]
        rd = os.path.join(EVD, "replay")
        os.makedirs(rd, exist_ok=True)
        rep = os.path.join(rd, "%s_%s.txt" % (pid, re.sub(r"[^A-Za-z0-9_.-]", "_", lab)[:60]))
        with open(rep, "w") as f:
            f.write("# property %s, harness case %s, failing check %s\n# input values (names are harness inputs):\n%s\n# native output:\n" % (pid, c["entry"], lab, vals))
            f.write("".join("# " + l + "\n" for l in out.split("\n")[:60]))
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": cov,
          "assumptions": P.get("assumptions", []) + GENERAL_ASSUMPTIONS, "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    with open(os.path.join(EVD, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d paths, %d instructions, %d obligations (%d trivial, %d by solver, %d open), %d witnesses replayed, solver %.1f s, wall %.1f s" % (
        pid, tier, agg["paths"], agg["instructions"], agg["obligations"], agg["trivial"], agg["inline_unsat"] + dumped_ok, agg["dumped"] - dumped_ok, replayed, agg["solver_time"] + solver_time, time.time() - T0))
    for k, lab in known_hit:
        log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for c, lab, vals, out in viol:
        log("violated: case %s check %s" % (c["entry"], lab))
        log("  input: " + vals.strip().replace("\n", "; ")[:1500])
    if viol:
        log("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if problems:
        for p in problems[:20]:
            log("NO VERDICT: " + p)
        return 2
    return 0


GENERAL_ASSUMPTIONS = [
    "clang 18 -O1 lowers the C++ source faithfully; the symbolic executor models the LLVM IR it meets (anything else aborts the run)",
    "malloc/new do not fail; uninitialised memory reads are not reported",
]

if __name__ == "__main__":
    rc = 2
    try:
        if P.get("kind") == "kani":
            import kani_check
            rc = kani_check.main(pid, tier, P, W, REPO, EVD, SEED)
        else:
            rc = main()
    except Undecided as e:
        log("NO VERDICT:", e)
    finally:
        kill_live()
        cleanup()
    sys.exit(rc)
