#!/usr/bin/env python3
"""Measures the checks: small changes to copies of /repo/src, which of them does no check notice?

  tools/mutate.py OUT.jsonl [--files REGEX] [--scale 0.1] [--jobs 8] [--sample N] [--seed S] [--redo FILE]

Works on copies in a scratch folder; /repo is only read. What survives is for a person to judge: it is either equivalent,
outside the properties, or a gap. Not part of any check.
"""
import argparse, importlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402
from checks import CHECKS, CONFIGS, ALWAYS  # noqa: E402

SRC = os.path.join(check.REPO, "src")

# file (prefix) -> properties that may notice, configurations to use
MAP = [
    ("spine/eventsystem/", ["C01", "C02", "C03", "C04", "C06", "C18", "C22"], ["release", "debug"]),
    ("spine/structure/pool", ["C03", "C01", "C06"], ["release", "debug"]),
    ("spine/structure/vector", ["C24", "C02", "C01", "C03", "C06"], ["release", "debug"]),
    ("spine/structure/array", ["C24", "C01", "C10", "C19", "C16", "C06"], ["release", "debug"]),
    ("spine/structure/stack", ["C24"], ["release"]),
    ("spine/structure/ringbuffer", ["C10", "C07", "C08", "C09", "C06"], ["release", "debug"]),
    ("spine/structure/linebuffer", ["C07", "C09", "C10"], ["release", "debug"]),
    ("spine/structure/result", ["C24"], ["release", "debug"]),
    ("spine/structure/time/datetime", ["C25"], ["release", "debug"]),
    ("spine/structure/time/timers", ["C11", "C12"], ["release", "debug"]),
    ("spine/structure/time/schedule", ["C19"], ["release", "debug"]),
    ("spine/structure/units/time", ["C11", "C19", "C01"], ["release"]),
    ("spine/io/", ["C07", "C08", "C09", "C10", "C06", "C18", "C22"], ["release", "debug"]),
    ("spine/controller/sr_latch", ["C12", "C06"], ["release", "debug"]),
    ("spine/controller/", ["C13", "C14", "C06"], ["release", "debug"]),
    ("spine/filter/", ["C16", "C05", "C06"], ["release", "debug"]),
    ("spine/core/logging", ["C17", "C05", "C06"], ["release", "debug"]),
    ("spine/core/exception", ["C05", "C06"], ["release", "debug"]),
    ("spine/core/debugging", ["C05", "C17"], ["debug"]),
    ("spine/structure/units/", ["C26", "C11"], ["release", "precise"]),
    ("spine/core/utils", ["C23", "C01"], ["release", "debug"]),
    ("spine/structure/static_string", ["C23", "C06"], ["release", "debug"]),
    ("spine/platform/implementations/arduino", ["C20"], ["arduino", "arduino-debug"]),
    ("spine/platform/implementations/zephyr", ["C21"], ["zephyr", "zephyr-debug"]),
    ("spine/platform/implementations/mock", ["C11", "C15", "C17", "C18"], ["release"]),
    ("spine/platform/gpio", ["C15", "C06"], ["release"]),
    ("spine/platform/protocols", ["C18", "C20"], ["release", "arduino"]),
    ("spine/platform/", ["C15", "C11", "C20", "C21"], ["release", "arduino", "zephyr"]),
]
SKIP = re.compile(r"^\s*(//|\*|/\*|#|using|namespace|template|public:|private:|static_assert|assert|expect|friend|spn_\w*assert|SPN_\w+|DBG|LOG)")

REPL = [
    (r"(?<![<>=!\-+*/&|])<=(?!=)", ["<"]), (r"(?<![<>=!\-+*/&|\-])>=(?!=)", [">"]),
    (r"(?<=\s)<(?=\s)", ["<=", ">="]), (r"(?<=\s)>(?=\s)", [">=", "<="]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["/"]), (r"(?<=\s)/(?=\s)", ["*"]),
    (r"(?<=\s)%(?=\s)", ["/"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\+\+", ["--"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.\"'])(\d+)(?![\w.\"'])", "int"),
    (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bceil\b", ["floor"]), (r"\bfloor\b", ["ceil"]),
    (r"\bconst auto&", ["const auto"]),
    (r"(?<=[(\s!])!(?=[\w(])", [""]),
    (r"\bstd::move\(", ["("]),
    (r"\bint64_t\b", ["int32_t"]), (r"\buint64_t\b", ["uint32_t"]), (r"\bdouble\b", ["float"]),
    (r"\bsize_t\b", ["uint8_t"]), (r"\bbegin\(\)", ["end()"]), (r"\bfront\(\)", ["back()"]),
    (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]),
]


def strip(line):
    """Blanks strings and comments, keeping columns."""
    out, i, q = [], 0, None
    while i < len(line):
        ch = line[i]
        if q:
            out.append("~")
            if ch == "\\":
                out.append("~")
                i += 1
            elif ch == q:
                q = None
        elif ch in "\"'" and not (ch == "'" and i and line[i - 1].isalnum()):
            q = ch
            out.append("~")
        elif line.startswith("//", i):
            out.append("~" * (len(line) - i))
            break
        else:
            out.append(ch)
        i += 1
    return "".join(out)


def mutants(rel):
    text = open(os.path.join(SRC, rel)).read().split("\n")
    res = []
    comment = False
    for n, line in enumerate(text):
        s = strip(line)
        if "/*" in s:
            comment = True
        if comment:
            if "*/" in s:
                comment = False
            continue
        if SKIP.match(line) or not s.strip():
            continue
        for pat, repl in REPL:
            for m in re.finditer(pat, s):
                if repl == "int":
                    v = int(m.group(1))
                    news = [str(v + 1)] + ([str(v - 1)] if v > 0 else [])
                else:
                    news = repl
                for new in news:
                    if "template" in s or "typename" in s:
                        continue
                    res.append((n, line[:m.start()] + new + line[m.end():]))
        st = s.strip()
        m = re.match(r"^(\s*(?:\} else )?if(?: constexpr)? \()(.*)(\)\s*(?:\{?|.*;))$", s)
        if m and s.count("(") == s.count(")"):
            depth, e = 0, None
            for k in range(len(m.group(1)) - 1, len(s)):
                depth += s[k] == "("
                depth -= s[k] == ")"
                if depth == 0:
                    e = k
                    break
            cond = line[len(m.group(1)):e]
            if ";" not in cond and "constexpr" not in m.group(1):
                res.append((n, line[:len(m.group(1))] + "!(" + cond + ")" + line[e:]))
                rest = line[e + 1:].strip()
                res.append((n, line[:len(m.group(1))] + "false && (" + cond + ")" + line[e:]))
        if re.match(r"^[\w:>.\-\[\]()*+&!,\s<=/%?~]+;(\s*~*)$", st) and not re.match(
                r"^(return|const|auto|using|break|continue|static|explicit|virtual|class|struct|inline|constexpr|delete|throw|"
                r"case|bool|int|float|double|void|size_t|uint\w+|int\w+|operator|friend|template|\}|mutable|Event|Value)", st):
            res.append((n, re.match(r"^\s*", line).group(0) + ";"))
    out, seen = [], set()
    for n, new in res:
        if (n, new) not in seen and new != text[n]:
            seen.add((n, new))
            out.append((rel, n, text[n], new))
    return out


class Builder:
    """Compiles a configuration from a copy of src, only what depends on the file that differs."""

    def __init__(self, cfg, scen):
        self.cfg, self.scen = cfg, scen
        self.c = CONFIGS[cfg]
        self.dir = os.path.join(SCRATCH, "base", cfg)
        os.makedirs(self.dir, exist_ok=True)
        self.units = [os.path.relpath(c, SRC) for c in check.walk(SRC, (".cpp",)) if os.path.relpath(c, SRC) != "main.cpp"]
        self.ext = [os.path.join(HERE, "sim", x) for x in ["sim.cpp"] + self.c["seams"]] + [
            os.path.join(HERE, "scenarios", s + ".cpp") for s in scen]
        self.deps = {}

    def flags(self, src):
        f = check.BASE + ["-I", src] + self.c["flags"]
        for i in self.c.get("include", []):
            f += ["-I", os.path.join(HERE, "sim", i)]
        return f

    def compile(self, src, unit, out, dep=None):
        path = unit if unit.startswith("/") else os.path.join(src, unit)
        cmd = ["g++"] + self.flags(src) + ["-c", path, "-o", out] + (["-MMD", "-MF", dep] if dep else [])
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise check.BuildError(path + r.stderr[-500:])

    def obj(self, u):
        return os.path.join(self.dir, u.replace("/", "_") + ".o")

    def base(self, ex):
        list(ex.map(lambda u: self.compile(SRC, u, self.obj(u), self.obj(u) + ".d"), self.units + self.ext))
        for u in self.units + self.ext:
            t = open(self.obj(u) + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
            self.deps[u] = {os.path.relpath(os.path.realpath(x), os.path.realpath(SRC)) for x in t}

    def build(self, src, rel, work):
        objs = []
        for u in self.units + self.ext:
            if rel in self.deps[u]:
                o = os.path.join(work, u.replace("/", "_") + ".o")
                self.compile(src, u, o)
            else:
                o = self.obj(u)
            objs.append(o)
        b = os.path.join(work, "bin")
        r = subprocess.run(["g++", "-fsanitize=address"] + check.WRAPS + self.c.get("link", []) + objs + ["-o", b],
                           capture_output=True, text=True)
        if r.returncode:
            raise check.BuildError(r.stderr[-500:])
        return b


def spec(rel):
    for p, props, cfgs in MAP:
        if rel.startswith(p):
            return props, cfgs
    return None


def try_mutant(m, scale):
    rel, n, old, new = m
    props, cfgs = spec(rel)
    work = tempfile.mkdtemp(dir=SCRATCH)
    res = {"file": rel, "line": n + 1, "old": old.strip(), "new": new.strip(), "caught": None}
    t0 = time.time()
    try:
        src = os.path.join(work, "src")
        shutil.copytree(SRC, src)
        text = open(os.path.join(src, rel)).read().split("\n")
        text[n] = new
        open(os.path.join(src, rel), "w").write("\n".join(text))
        built = 0
        for cfg in cfgs:
            try:
                os.makedirs(os.path.join(work, cfg))
                b = BUILDERS[(cfg, scenfiles(rel, cfg))].build(src, rel, os.path.join(work, cfg))
                built += 1
            except check.BuildError as e:
                res["build"] = str(e)[-200:]
                continue
            for p in props:
                c = CHECKS[p]
                if cfg not in c["configs"]:
                    continue
                _, _, scens, _ = check.variant(c, cfg)
                r = check.run_batch(b, p, scens, 1, int(c["runs"] * scale), 300, c["only"] + ALWAYS, work, p + cfg,
                                    workers=1, shrink=0)
                if r[0]["violation"]:
                    res["caught"] = p
                    res["cls"] = r[0]["violation"]["cls"]
                    res["index"] = r[0]["violation"]["index"]
                    res["cfg"] = cfg
                    return res
        if not built:
            res["caught"] = "build"
    except Exception as e:  # noqa
        res["error"] = repr(e)[-300:]
    finally:
        res["s"] = round(time.time() - t0, 1)
        shutil.rmtree(work, ignore_errors=True)
    return res


def scenfiles(rel, cfg):
    props, _ = spec(rel)
    out = set()
    for p in props:
        if cfg in CHECKS[p]["configs"]:
            c = CHECKS[p]
            f = check.variant(c, cfg)[1]
            out |= set(f)
    return tuple(sorted(out))


def main():
    global SCRATCH, BUILDERS
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=".")
    ap.add_argument("--scale", type=float, default=0.05)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--redo")
    a = ap.parse_args()
    SCRATCH = tempfile.mkdtemp(prefix="mutate.")
    try:
        ms = []
        if a.redo:
            for l in open(a.redo):
                d = json.loads(l)
                if not d["caught"]:
                    t = open(os.path.join(SRC, d["file"])).read().split("\n")
                    line = t[d["line"] - 1]
                    if line.strip() != d["old"]:
                        continue
                    ind = re.match(r"^\s*", line).group(0)
                    ms.append((d["file"], d["line"] - 1, line, ind + d["new"]))
            ms = [m for m in ms if re.search(a.files, m[0])]
        else:
            for f in check.walk(SRC, (".hpp", ".cpp")):
                rel = os.path.relpath(f, SRC)
                if spec(rel) and re.search(a.files, rel):
                    ms += mutants(rel)
        if a.sample and len(ms) > a.sample:
            ms = random.Random(a.seed).sample(ms, a.sample)
        print(len(ms), "mutants", flush=True)
        BUILDERS = {}
        with ThreadPoolExecutor(a.jobs) as ex:
            for rel in sorted({m[0] for m in ms}):
                for cfg in spec(rel)[1]:
                    k = (cfg, scenfiles(rel, cfg))
                    if k not in BUILDERS:
                        BUILDERS[k] = Builder(*k)
                        BUILDERS[k].dir += "." + check.sha(*k[1])
                        os.makedirs(BUILDERS[k].dir)
                        BUILDERS[k].base(ex)
            print("base built", flush=True)
            lock = threading.Lock()
            done = [0, 0]
            with open(a.out, "w") as f:
                def one(m):
                    r = try_mutant(m, a.scale)
                    with lock:
                        f.write(json.dumps(r) + "\n")
                        f.flush()
                        done[0] += 1
                        done[1] += not r["caught"]
                        if done[0] % 20 == 0:
                            print(done[0], "done,", done[1], "survive", flush=True)
                list(ex.map(one, ms))
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    main()
