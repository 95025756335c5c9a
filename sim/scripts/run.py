#!/usr/bin/env python3
"""Runs polycc.sh.in and inscop (the real scripts) as a simulated system: every
command they run is a step at which a seeded fault may strike.  Same command
line and output as simrun.  Nothing outside a scratch directory is touched."""
import ctypes, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
WRAP = os.environ["SIM_WRAP"]          # directory of stand-ins, made by build.sh
CMDS = ("mv cp rm cat grep egrep fgrep sed awk gawk mawk wc head tail tr cut sort uniq tee cmp diff ln mkdir rmdir mktemp touch "
        "basename dirname gcc cc cpp clang-format chmod sync install dd stat readlink realpath expr seq tac printf echo test true false").split()

# ------------------------------------------------------------------ generation
def gen(prop, seed, idx):
    r = random.Random("%s/%d/%d" % (prop, seed, idx))
    c = [("prop", prop)]
    name = r.choice(["prog.c", "a.c", "sub/k.c", "x_1.c", "prog.cc"])
    c.append(("source", name))
    n = 0
    nk = 0
    indent = r.random() < 0.08
    def text(lo, hi):
        nonlocal n
        for _ in range(r.randint(lo, hi)):
            n += 1
            k = 1 if indent else r.random()    # clang-format rearranges the others
            if k < 0.05: t = "#include <omp.h>"
            elif k < 0.12: t = "#include <h%d.h>" % n
            elif k < 0.2: t = "/* uses omp.h %d */ int v%d;" % (n, n)
            elif k < 0.25: t = "  // #pragma once %d" % n
            elif k < 0.3: t = "#define M%d(x) ((x) * %d)" % (n, n)
            elif k < 0.40: t = r.choice(["", "", "  ", "\t"])
            elif k < 0.48: t = r.choice(['  printf("%d\\n", $@);', "\tx = a * b; /* * ? [a-z] `@` */", "# define Q@ \\", "    y = '\\\\'; // @ \\t",
                                         "#pragma omp parallel for private(i@)", "int s@ = scop; // pragma scop endscop", "  # include <omp2_@.h>",
                                         "// _NL_DELIMIT_ @", 'char *p@ = "#include <omp.h>";', "}", "  {", "-n @", "-e @", "&amp; @ &", "# 1 \"f@.c\""])
            elif k < 0.49: t = "  #include <omp.h>"
            else: t = "  int u%d = f(%d); " % (n, n)
            c.append(("line", t.replace("@", str(n))))
        if r.random() < 0.06:
            c.append(("bulk", "%d %d" % (n, r.choice([50, 200, 700]))))
    text(0, 4)
    nscop = r.choice([1, 1, 2, 2, 3, 4])
    for s in range(nscop):
        a, b = r.choice(["#pragma scop", "#pragma scop", "#pragma  scop"]), r.choice(["#pragma endscop", "#pragma endscop", "#pragma  endscop"])
        c.append(("line", a))
        for _ in range(r.randint(1, 3)):
            nk += 1
            c.append(("line", "for (i = 0; i < N; i++) { K_%d(i); }" % nk))
        c.append(("line", b))
        text(0, 3)
    if r.random() < 0.1:
        c.append(("nonl", "1"))
    a = []
    if r.random() < 0.4: a.append("--parallel")
    if r.random() < 0.2: a.append("--silent")
    if r.random() < 0.1: a.append("--debug")
    if indent: a.append(r.choice(["-i", "--indent"]))
    if r.random() < 0.3: a += ["-o", r.choice(["out.c", "sub/out.c", "result.cc"])]
    c.append(("args", " ".join(a)))
    if r.random() < (0.9 if prop == "C13" else 0.75):
        kinds = ["fail", "kill9", "full"]
        if prop == "C13":
            kinds += ["crash", "crash_after"] + ["%s_%s%s" % (x, w, z) for x in ("int", "term", "hup") for w in ("group", "leader") for z in ("", "_after")]
        else:
            kinds += ["fail", "full", "int_group", "term_leader"]
        for _ in range(1 if r.random() < 0.8 else 2):
            c.append(("fault", "%d %s %d" % (r.randrange(10**6), r.choice(kinds), r.choice([0, 0, 1, 10, 40, 100, 300, 600, 600, 2000, 4096, 9000]))))
    if prop == "C13" and r.random() < 0.3:
        c.append(("again", str(r.randrange(10**6))))
    return c

def text_of(c):
    return "".join("%s %s\n" % x for x in c)
def parse(t):
    out = []
    for l in t.split("\n"):
        if l and not l.startswith("#"):
            k, _, v = l.partition(" ")
            out.append((k, v))
    return out
def source_lines(c):
    out = []
    for k, v in c:
        if k == "line":
            out.append(v)
        elif k == "bulk":
            a, n = (int(x) for x in v.split())
            out += ["int bulk_%d_%d = %d;" % (a, i, i) for i in range(n)]
    return out
def one(c, k, d=""):
    return next((v for x, v in c if x == k), d)
def every(c, k):
    return [v for x, v in c if x == k]

# ------------------------------------------------------------------ one execution
class Late(Exception):
    pass
def late(*_):
    raise Late()
signal.signal(signal.SIGALRM, late)
ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)            # orphans become our children

class World:
    def __init__(self, c):
        self.dir = tempfile.mkdtemp(prefix="scripts.", dir=os.environ.get("SIM_SCRATCH"))
        self.cwd = os.path.join(self.dir, "w")
        self.b = os.path.join(self.dir, "b")
        os.makedirs(os.path.join(self.cwd, "sub")); os.makedirs(os.path.join(self.b, "tool"))
        s = open(os.path.join(REPO, "polycc.sh.in")).read()
        ins = os.path.join(self.b, "inscop")
        shutil.copyfile(os.path.join(REPO, "inscop"), ins); os.chmod(ins, 0o755)
        s = s.replace("@abs_top_builddir@", self.b).replace("@abs_top_srcdir@", self.b)
        open(os.path.join(self.b, "polycc"), "w").write(s)
        os.symlink(os.path.join(WRAP, "pluto"), os.path.join(self.b, "tool", "pluto"))
        self.src = os.path.join(self.cwd, one(c, "source"))
        self.orig = "\n".join(source_lines(c)) + ("" if one(c, "nonl") else "\n")
        open(self.src, "w").write(self.orig)
        self.args = one(c, "args").split()
        self.n = 0
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
    def run(self, plan, name):
        """plan: list of (occ, key, kind, value).  Returns exit status, trace, fired faults."""
        self.n += 1
        d = os.path.join(self.dir, "ctl%d" % self.n)
        os.makedirs(d)
        open(os.path.join(d, "plan"), "w").write("".join("%d\t%s\t%s\t%d\n" % p for p in plan))
        env = {"PATH": WRAP + ":/usr/bin:/bin", "SIM_DIR": d, "SIM_WRAP": WRAP, "LC_ALL": "C", "HOME": self.cwd, "TMPDIR": self.dir}
        p = subprocess.Popen(["/bin/bash", os.path.join(self.b, "polycc")] + self.args + [name], cwd=self.cwd, env=env,
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout=30)
            signal.alarm(30)
            while True:                            # what goes on after the script itself has ended
                os.waitpid(-1, 0)
        except ChildProcessError:
            pass
        except (subprocess.TimeoutExpired, Late):
            rc = None
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        signal.alarm(0)
        def lines(f):
            try:
                return open(os.path.join(d, f)).read().splitlines()
            except OSError:
                return []
        return rc, sorted(lines("trace")), sorted(lines("fired"))

def get(p):
    try:
        return open(p).read()
    except OSError:
        return None
OUT_JUNK = re.compile(r"^\s*$")
PRE = {"#include <math.h>", "#define ceild(n,d)  (((n)<0) ? -((-(n))/(d)) : ((n)+(d)-1)/(d))"}
def scan_expected(c, parallel):
    """What the output has to consist of: the lines around the scops, in order, and their transformed statements."""
    exp, inside, omp = [], False, False
    for l in source_lines(c):
        if re.match(r"^\s*#pragma\s+scop\b", l) and not inside:
            inside = True
        elif re.match(r"^\s*#pragma\s+endscop\b", l) and inside:
            inside = False
        elif inside:
            exp += [("T", int(k)) for k in re.findall(r"K_(\d+)", l)]
        elif l.strip() == "#include <omp.h>":
            omp = True             # moved to the top
        elif l.strip():
            exp.append(("u", l))
    return exp, omp or parallel
def scan_indented(c, out):
    """The same for an output that has been through clang-format."""
    got = []
    for m in re.finditer(r"int\s+(u\d+)\s*=\s*f\((\d+)\);|int\s+(bulk_\d+_\d+)\s*=\s*(\d+);|\bT_(\d+)|#pragma\s+(?:end)?scop\b", out):
        if m.group(1): got.append(("u", "  int %s = f(%s); " % m.group(1, 2)))
        elif m.group(3): got.append(("u", "int %s = %s;" % m.group(3, 4)))
        elif m.group(5): got.append(("T", int(m.group(5))))
        else: got.append(("scop", m.group(0)))
    return got
def scan_output(c, out):
    if {"-i", "--indent"} & set(one(c, "args").split()):
        return scan_indented(c, out)
    user = set(source_lines(c))
    got = []
    for l in out.split("\n"):
        if l.strip() == "#include <omp.h>":
            continue
        if re.match(r"^\s*#pragma\s+(end)?scop\b", l):
            got.append(("scop", l))
        elif l in user and l.strip():
            got.append(("u", l))
        else:
            got += [("T", int(k)) for k in re.findall(r"\bT_(\d+)", l)]
    return got

def blanks(lines):
    """The blank lines between each two lines of the source that follow each other, scops and moved lines apart."""
    out, prev, run, inside = [], None, [], False
    for l in lines:
        if re.match(r"^\s*#pragma\s+scop\b", l):
            inside = True
        if inside or l.strip() == "#include <omp.h>":
            prev = None
        elif l.strip():
            if prev is not None:
                out.append((prev, run, l))
            prev, run = l, []
        else:
            run.append(l)
        if re.match(r"^\s*#pragma\s+endscop\b", l):
            inside = False
    return out
def lost_blank(c, out):
    """Where the output has other blank lines between two lines than the source; the sequence of the lines has been compared."""
    if {"-i", "--indent"} & set(one(c, "args").split()):
        return None
    user = set(l for l in source_lines(c) if l.strip())
    have, prev, run = {}, None, []
    for l in out.split("\n"):
        if l in user:
            have.setdefault((prev, l), []).append(run)
            prev, run = l, []
        elif l.strip():
            prev = None
        else:
            run.append(l)
    for a, n, b in blanks(source_lines(c)):
        if (a, b) in have and n not in have[a, b]:
            return "between %r and %r there are the blank lines %s in the source, but %s" % (a, b, n, have[a, b])
    return None

def out_name(w, name):
    if "-o" in w.args:
        return os.path.join(w.cwd, w.args[w.args.index("-o") + 1])
    b = os.path.basename(name)
    return os.path.join(w.cwd, (b[:-2] if b.endswith(".c") else b) + ".pluto.c")

def well_formed(c):
    inside, n = False, 0
    for l in source_lines(c):
        if re.match(r"^\s*#pragma\s+scop\b", l):
            if inside: return False
            inside = True; k = 0
        elif re.match(r"^\s*#pragma\s+endscop\b", l):
            if not inside or not k: return False
            inside = False; n += 1
        elif "K_" in l:
            if not inside: return False
            k = 1
    return n > 0 and not inside

def pick(trace, faults):
    """Turns "position kind value" into a step of the trace."""
    plan = []
    for f in faults:
        pos, kind, val = f.split()
        occ, key = trace[int(pos) * len(trace) // 10**6].split("\t", 1)
        cmd = key.split(" ")[0]
        if cmd == "pluto" and kind in ("full", "fail"):
            kind = ("fail", "half", "halfsegv")[int(val) % 3]
        plan.append((int(occ), key, kind, int(val)))
    return plan

def execute(c, dump=False):
    prop = one(c, "prop")
    o = {"verdict": "ok", "cls": "", "stats": {}, "detail": ""}
    S = o["stats"]
    h = hashlib.sha1()
    if not well_formed(c):
        o["verdict"] = "skip"; o["hash"] = "0"
        return o
    name = one(c, "source")
    worlds = []
    def world():
        w = World(c); worlds.append(w); return w
    def bad(cls, det):
        if o["verdict"] != "violation":
            o.update(verdict="violation", cls=cls, detail=det)
    try:
        w = world()
        rc, trace, _ = w.run([], name)
        S["steps"] = len(trace); S["runs"] = 1
        faults = every(c, "fault")
        plan = pick(trace, faults)
        h.update(repr((rc, trace, plan)).encode())
        def judge_source(w, rc, fired, plan, when):
            s, t = get(w.src), get(w.src + "_temp")
            crashed = rc == -9 or any(f.startswith("crash") for f in fired)
            # The commands that put the original back failed themselves.
            stuck = any(f.split("\t")[0] in ("fail", "kill9", "full") and f.split("\t")[2].split(" ")[0] in ("mv", "cp", "rm", "cat", "ln") for f in fired)
            h.update(repr((s, t, rc if not crashed else "crash")).encode())
            if s == w.orig:
                S["intact"] = S.get("intact", 0) + 1
                return
            if not crashed and not stuck:
                bad("source-changed", "%s: exit status %s, faults %s; the source file is %s" % (when, rc, fired, "gone" if s is None else "\n" + s))
            elif rc == 0:
                bad("source-changed", "%s: success reported, faults %s; the source file is %s" % (when, fired, "gone" if s is None else "\n" + s))
            elif t != w.orig:
                bad("source-lost", "%s: faults %s; the original is neither in %s nor in %s_temp:\n%s\n--\n%s" % (when, fired, name, name, s, t))
            else:
                S["recoverable"] = S.get("recoverable", 0) + 1
        def judge_output(w, rc, fired):
            out = get(out_name(w, name))
            if rc != 0:
                S["failures_reported"] = S.get("failures_reported", 0) + 1
                h.update(repr(rc).encode())
                if not fired:
                    bad("fails", "exit status %s without any fault" % rc)
                return
            h.update(repr(out).encode())
            if out is None:
                bad("no-output", "success without output; faults %s" % fired)
                return
            exp, omp = scan_expected(c, "--parallel" in w.args)
            got = scan_output(c, out)
            S["outputs"] = S.get("outputs", 0) + 1
            if exp != got:
                k = next((i for i in range(max(len(exp), len(got))) if i >= len(exp) or i >= len(got) or exp[i] != got[i]), 0)
                bad("output", "success reported, faults %s; item %d should be %s but is %s; output:\n%s" % (
                    fired, k, exp[k] if k < len(exp) else None, got[k] if k < len(got) else None, out))
            elif lost_blank(c, out):
                bad("output", "success reported, faults %s; %s; output:\n%s" % (fired, lost_blank(c, out), out))
            elif omp and not re.search(r"^\s*#include <omp.h>", out, re.M):
                bad("output", "#include <omp.h> is missing; faults %s:\n%s" % (fired, out))
            elif not omp and "#include <omp.h>" in out:
                pass
            left = [] if fired or "--debug" in w.args else sorted(
                f for f in os.listdir(w.cwd) if f not in ("sub", os.path.basename(w.src), os.path.basename(out_name(w, name))))
            if left:
                bad("litter", "left behind: %s" % left)
        # the undisturbed run
        if prop == "C13":
            judge_source(w, rc, [], [], "undisturbed")
        else:
            judge_output(w, rc, [])
        # the run with faults
        if plan and o["verdict"] == "ok":
            v = world()
            rc2, tr2, fired = v.run(plan, name)
            S["runs"] += 1; S["steps"] += len(tr2) if not any(f.startswith(("crash", "int", "term", "hup")) for f in fired) else 0
            for f in fired:
                k = "fault." + f.split("\t")[0]
                S[k] = S.get(k, 0) + 1
            if rc2 is None:
                bad("hangs", "the script does not end; faults %s" % fired)
            elif prop == "C13":
                judge_source(v, rc2, fired, plan, "with faults")
                # and another run in what that one left behind
                if one(c, "again") and o["verdict"] == "ok" and get(v.src) is not None:
                    plan3 = pick(trace, ["%s int_group 0" % one(c, "again")]) if int(one(c, "again")) % 2 else []
                    s0, t0 = get(v.src), get(v.src + "_temp")
                    rc3, tr3, fired3 = v.run(plan3, name)
                    S["runs"] += 1; S["reruns"] = 1
                    if v.orig not in (get(v.src), get(v.src + "_temp")):
                        bad("source-lost", "a second run after %s (then %s) loses the original" % (fired, fired3))
            else:
                judge_output(v, rc2, fired)
    finally:
        for w in worlds:
            w.close()
    o["hash"] = h.hexdigest()[:16]
    return o

def main():
    a = dict(zip(sys.argv[1::2], sys.argv[2::2])) if "--dump" not in sys.argv else None
    argv = [x for x in sys.argv[1:] if x != "--dump"]
    a = dict(zip(argv[::2], argv[1::2]))
    dump = "--dump" in sys.argv
    if "--replay" in a:
        c = parse(open(a["--replay"]).read())
        o = execute(c); o["idx"] = 0; o["case"] = text_of(c)
        print(json.dumps(o)); return
    seed, start, stride, count = (int(a.get(k, d)) for k, d in (("--seed", 1), ("--start", 0), ("--stride", 1), ("--count", 10)))
    for k in range(count):
        idx = start + k * stride
        c = gen(a["--prop"], seed, idx)
        o = execute(c); o["idx"] = idx
        if dump or o["verdict"] == "violation":
            o["case"] = text_of(c)
        print(json.dumps(o), flush=True)
main()
