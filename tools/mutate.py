#!/usr/bin/env python3
"""Mutation testing of the checks: mutates one place of a header of a scratch copy of /repo at a time
and runs the checks of the properties anchored in that header.

  mutate.py OUTFILE util/x.hh [...]     survivors (and a summary) are appended to OUTFILE
  MUT_WIDE=1  only replace types by narrower ones
  MUT_MORE=1  only: initial values removed, neighbouring statements swapped, and identifiers replaced by their counterparts
  MUT_MORE=init  only: initial values removed
  MUT_FRACTION=0.3  run a random part of the mutants
"""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]

OPS = [
    (r"(?<![<>=!+\-])<=(?!>)", ["<", "=="]), (r"(?<![<>=!\-])>=(?!=)", [">", "=="]),
    (r" < ", [" <= "]), (r" > ", [" >= "]), (r"==", ["!="]), (r"!=", ["=="]),
    (r" \+ ", [" - "]), (r"(?<=[\w)\]]) - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r"\+\+", ["--", ""]), (r"--", ["++", ""]), (r"\+=", ["-=", "="]), (r"-=", ["+=", "="]), (r"\*=", ["/="]), (r"\|=", ["&=", "="]), (r"&=", ["|="]),
    (r"<<=", [">>="]), (r">>=", ["<<="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| ", [" & "]), (r" \^ ", [" & "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"!(?=[\w(])", [""]),
    (r"\b\d+(?:\.\d+)?f?\b(?!\w)", ["NUM"]), (r"\b0x[0-9a-fA-F]+[uU]?\b", ["HEX"]),
    (r"memory_order_(?:acquire|release|acq_rel|seq_cst)", ["memory_order_relaxed"]),
    (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"\bif \(", ["if (true || ", "if (false && "]), (r"\bwhile \(", ["while (false && "]),
    (r"\bstd::move\((?=\w+\))", ["("]), (r"\bconst &", [""]),
    (r"\bmin\b(?=[(<])", ["max"]), (r"\bmax\b(?=[(<])", ["min"]), (r"\bint32_t\b", ["int16_t"]), (r"\buint32_t\b", ["uint16_t"]), (r"\bsize_t\b", ["uint8_t"]), (r"\bunsigned\b(?! char)", ["unsigned char"]),
]
if os.environ.get("MUT_WIDE"):  # only: types which are too narrow for large capacities, counts or values
    OPS = [
        (r"\bsize_t\b", ["uint16_t", "uint32_t"]), (r"\bunsigned(?: int)?\b(?! char| long)", ["uint16_t", "uint8_t"]), (r"\buint32_t\b", ["uint16_t"]),
        (r"(?<![\w<])int\b", ["int16_t", "int8_t"]), (r"\bint32_t\b", ["int16_t"]), (r"\buint64_t\b", ["uint32_t"]), (r"\bint64_t\b", ["int32_t"]),
        (r"\bauto (?=\w+ = )", ["uint8_t ", "uint16_t ", "int "]), (r"\b0u\b", ["uint8_t{0}"]), (r"\bDataSizeT\b", ["uint8_t"]), (r"\bptrdiff_t\b", ["int16_t"]),
    ]
PAIRS = """head tail|first second|first last|begin end|front back|min max|x y|r g|g b|lhs rhs|high low|rising falling|width height|left right|
top bottom|in out|cur prev|src dst|read write|on off|fg bg|attack decay|start end|offset slope|row col|numerator denominator|lower upper|low high|old new|key val|
keys vals|tmp_head tmp_tail|a b|i j|newest oldest|idx offset|size capacity|count size|full empty|floor ceil|sin cos|lround floor|this other|that this|red green|green blue|x1 x2|y1 y2|press release|short long|freq phase""".replace("\n", "").split("|")
SWAPS = {}
for pr in PAIRS:
    u, v = pr.split()
    SWAPS.setdefault(u, set()).add(v)
    SWAPS.setdefault(v, set()).add(u)


def more(lines):
    """MUT_MORE: (line, new text, number of lines replaced)"""
    out = []
    indent = lambda l: len(l) - len(l.lstrip())
    stmt = lambda l: STMT.match(l) or re.match(r"^\s*[\w.\->\[\]]+(\+\+|--);\s*$", l)
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or "static_assert" in s:
            continue
        code = l.split("//")[0].rstrip()
        m = re.match(r"^(\s*(?:const |mutable )?[\w:<>, *]+?\s[\w]+(?:\[\w+\])?)\s*(?:=\s*[^;=]+|\{[^;]*\});$", code)
        if m and not re.search(r"constexpr|using|return|auto|static", code):
            out.append((i, m.group(1) + ";"))
        m = re.match(r"^(\s*)([:,])\s*(\w+)(?:\{.*\}|\(.*\))(\s*\{)?$", code)
        if m:  # entry of a list of member initializers
            if m.group(2) == ",":
                out.append((i, m.group(1) + (m.group(4) or "")))
            elif i + 1 < len(lines) and lines[i + 1].strip().startswith(",") and not m.group(4):
                out.append((i, "", lines[i + 1].replace(",", ":", 1)))
            elif m.group(4):
                out.append((i, "{"))
        if os.environ["MUT_MORE"] != "init" and i + 1 < len(lines) and stmt(code) and stmt(lines[i + 1].split("//")[0].rstrip()) and indent(l) == indent(lines[i + 1]) and l != lines[i + 1]:
            out.append((i, lines[i + 1], l))
        for g in re.finditer(r"[A-Za-z_]\w*", code):
            w = g.group(0)
            if code[:g.start()].count('"') % 2 or os.environ["MUT_MORE"] == "init":
                continue
            parts = [(w, "")] if not w.endswith("_") else [(w[:-1], "_")]
            for base, suffix in parts:
                reps = {x + suffix for x in SWAPS.get(base, ())}
                for u in SWAPS:  # inside of compound names: is_high, tmp_head
                    if len(u) > 2 and re.search(rf"(?:^|_){u}(?:_|$)", base) and base != u:
                        reps |= {re.sub(rf"(^|_){u}(?=_|$)", lambda q: q.group(1) + v, base) + suffix for v in SWAPS[u]}
                for r in reps:
                    out.append((i, code[:g.start()] + r + code[g.end():]))
    seen, res = set(), []
    for m in out:
        if m not in seen:
            seen.add(m)
            res.append(m)
    return res


STMT = re.compile(r"^\s*(?!return|using|static|const|auto|struct|class|template|typedef|enum|case|default|break|continue|public|private|constexpr|if|while|for|else|friend|inline|explicit|virtual|namespace|extern)[\w\[\]&*.:>()-]+.*;\s*$")


def mutants(text):
    lines = text.split("\n")
    if os.environ.get("MUT_MORE"):
        return lines, more(lines)
    out, comment, sa, pp = [], False, False, False
    for i, l in enumerate(lines):
        s = l.strip()
        if comment:
            if "*/" in s:
                comment = False
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if s.startswith("//") or not s:
            continue
        if pp or s.startswith("#"):
            pp = s.endswith("\\")
            continue
        if sa or s.startswith("static_assert"):
            sa = ";" not in s
            continue
        code = l.split("//")[0]
        for rx, reps in OPS:
            for g in re.finditer(rx, code):
                if "= default" in code or "= delete" in code:
                    continue
                if g.group(0).strip() in ("<", ">") and "template" in code:
                    continue
                if '"' in code and code[:g.start()].count('"') % 2:
                    continue
                for r in reps:
                    rs = [r]
                    if r == "NUM":
                        t = g.group(0)
                        if code[g.start() - 1:g.start()] in (".", "'") or re.search(r"[\w.]$", code[:g.start()]):
                            continue
                        f = t.endswith("f")
                        v = t.rstrip("f")
                        if "." in v:
                            x = float(v)
                            rs = [repr(x * 1.01 if x else 0.01) + ("f" if f else "")]
                        else:
                            rs = [str(int(v) + 1)] + ([str(int(v) - 1)] if int(v) else [])
                    elif r == "HEX":
                        v = int(g.group(0).rstrip("uU"), 16)
                        rs = [hex(v ^ 1), hex(v ^ (1 << max(v.bit_length() - 1, 0)))]
                    for x in rs:
                        m = code[:g.start()] + x + code[g.end():]
                        if m.rstrip() != code.rstrip():
                            out.append((i, m))
        if os.environ.get("MUT_WIDE"):
            continue
        if STMT.match(code) and "= default" not in code and "= delete" not in code and not re.match(r"^\s*(?:\w+(?:::\w+)*(?:<[^()]*>)?)\s+\w+(?:\{.*\}|\s*=.*)?;\s*$", code):
            out.append((i, ";" if not code.strip().endswith("{") else code))
        elif re.match(r"^\s*return\b.+;", code):
            if not re.search(r"return\s+(?:false|nullptr|0|(?:std::)?nullopt|\{\}|\w+\{\}|std::string_view\{\});", code):
                out.append((i, re.sub(r"return\b.+;", "return {};", code)))
    seen, res = set(), []
    for m in out:
        if m not in seen:
            seen.add(m)
            res.append(m)
    return lines, res


def run(job):
    path, lines, (i, new, *rest), pids, k = job
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree("/repo/util", d + "/util")
        t = list(lines)
        t[i] = new
        t[i + 1:i + 1 + len(rest)] = rest
        open(f"{d}/{path}", "w").write("\n".join(t))
        shutil.copytree(ROOT + "/build/engine", d + "/build/engine")
        for pid in pids:
            env = dict(os.environ, VERIF_REPO=d, VERIF_OUT=d, VERIF_BUILD=d + "/build", VERIF_JOBS="1", VERIF_CASES="0")
            cases = int(re.search(r"@cases (\d+)", open([f"{ROOT}/harness/{f}" for f in os.listdir(ROOT + "/harness") if f.startswith(pid)][0]).read()).group(1))
            for part in (20, 1):
                env["VERIF_CASES"] = str(max(cases // part, 200))
                try:
                    r = subprocess.run(["python3", ROOT + "/check.py", pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 1
                if "does not compile" in r.stdout:
                    return (k, "nocompile", i, new)
                if rc != 0:
                    return (k, "killed" if rc == 1 else "rc2", i, new)
        return (k, "SURVIVED", i, new)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out = open(sys.argv[1], "a")
    for path in sys.argv[2:]:
        lines, ms = mutants(open("/repo/" + path).read())
        frac = float(os.environ.get("MUT_FRACTION", "1"))
        if frac < 1:
            random.seed(path)
            ms = [m for m in ms if random.random() < frac]
        pids = [p["id"] for p in PROPS if path in p["anchors"]["files"]]
        if "MUT_CHECKS" in os.environ:
            pids = os.environ["MUT_CHECKS"].split()
        count = {}
        with ThreadPoolExecutor(8) as ex:
            for k, res, i, new in ex.map(run, [(path, lines, m, pids, k) for k, m in enumerate(ms)]):
                count[res] = count.get(res, 0) + 1
                if res in ("SURVIVED", "rc2"):
                    out.write(f"{res} {path}:{i+1}\n  - {lines[i].strip()}\n  + {new.strip()}\n")
                    out.flush()
        out.write(f"== {path} {pids} {count}\n")
        out.flush()


if __name__ == "__main__":
    main()
