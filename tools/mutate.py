#!/usr/bin/env python3
"""Mutation testing of the checks (never run by a check).  tools/mutate.py N SEED [FILEREGEX [FROM-TO]] [-jJ]
Takes N random small changes of /repo/include/dd, keeps those which compile and pass the repository's tests, and runs all
properties (one binary with all harnesses, at a fraction of the quick tier) on them.  Survivors are listed in /tmp/mut/survivors.txt."""
import json, os, random, re, shutil, subprocess, sys, glob, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
W = "/tmp/mut"
FRAC = float(os.environ.get("FRAC", "0.3"))
OPS = [
    (r"(?<![<>\-=!])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![\->])>(?![>=])", [">="]), (r">=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r"\+=", ["-="]), (r"-=", ["+="]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\b0U?\b(?!\.)", ["1"]), (r"\b1U?\b(?!\.)", ["0", "2"]), (r"\b2U?\b(?!\.)", ["1", "3"]), (r"\b3U?\b(?!\.)", ["2"]),
    (r"::zero\b", ["::one"]), (r"::one\b", ["::zero"]), (r"\.r\b", [".i"]), (r"\.i\b", [".r"]), (r"\.p\b", [".w"]),
    (r"\bRADIX\b", ["NEDGE"]), (r"\bNEDGE\b", ["RADIX"]), (r"!(?=[a-zA-Z(])", [""]), (r"\+\+", ["--"]), (r"--", ["++"]),
    (r"(?<=[(, ])-(?=[a-zA-Z0-9(])", [""]), (r"<<", [">>"]), (r">>", ["<<"]), (r" & ", [" | "]), (r" \| ", [" & "]),
    (r"\bx\b", ["y"]), (r"\by\b", ["x"]), (r"\be1\b", ["e2"]), (r"\be2\b", ["e1"]), (r"\bmax\b", ["min"]), (r"\bmin\b", ["max"]),
    (r"\brow\b", ["col"]), (r"\bcol\b", ["row"]), (r"\btarget0\b", ["target1"]), (r"\btarget1\b", ["target0"]),
]


def candidates(files, lo, hi):
    out = []
    for f in files:
        text = open(f).read().splitlines()
        for n, l in enumerate(text, 1):
            if lo and not lo <= n <= hi:
                continue
            s = l.strip()
            if not s or s.startswith(("//", "*", "/*", "#", "@", "assert", "template", "static_assert", "[[maybe", "std::cout", "std::cerr")):
                continue
            if re.search(r"\bassert\(|std::(cerr|cout|clog)|throw |runtime_error|constexpr std::size_t CT_|include", l):
                continue
            code = l.split("//")[0]
            ms = []
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    # do not touch template brackets or string literals
                    if code[:m.start()].count('"') % 2:
                        continue
                    for r in reps:
                        ms.append(code[:m.start()] + r + code[m.end():])
            if s.endswith(";") and not re.match(r"(return|const|auto|static|using|case|break|std::size_t|fp|bool|int|struct|class|typename|friend|extern)\b", s) and not re.match(r"[\w:<>]+[&*]? +\w+ *(=|;|\{)", s):
                ms.append("/* " + code + " */;")
            if re.match(r"if \(.*\) \{$", s):
                c = re.sub(r"if \((.*)\) \{$", r"if ((\1) && false) {", code.rstrip())
                ms.append(c)
                ms.append(re.sub(r"if \((.*)\) \{$", r"if ((\1) || true) {", code.rstrip()))
            if s == "continue;" or s == "return;":
                ms.append("/* " + code + " */;")
            for x in ms:
                if x != code:
                    out.append((f, n, code, x))
    return out


def unity():
    o = ['#include "ref.hpp"', '#include "inv.hpp"', '#include "hist.hpp"', '#include "numparse.hpp"']
    ids = []
    body = []
    for p in sorted(glob.glob(V + "/harness/props/C*.cpp")):
        i = os.path.basename(p)[:-4]
        s = open(p).read()
        o += [l for l in s.splitlines() if l.startswith("#include")]
        s = "\n".join("" if l.startswith("#include") else l for l in s.splitlines())
        s = s.replace("pb::Property& pb::property()", "using namespace pb; Property& prop()")
        body.append("namespace ns%s {\n#line 1 \"%s\"\n%s\n}\n" % (i, p, s))
        ids.append(i)
    main = "namespace pb { Property& property() { const std::string id = std::getenv(\"PBT_ID\");\n"
    for i in ids:
        main += "if (id == \"%s\") { return ns%s::prop(); }\n" % (i, i)
    main += "std::abort(); } }\n"
    os.makedirs(W, exist_ok=True)
    seen = []
    for l in o:
        if l not in seen:
            seen.append(l)
    open(W + "/unity.cpp", "w").write("\n".join(seen) + "\n" + "\n".join(body) + main)
    return ids


def sh(cmd, t=600, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def run_all(d, variant, ids, conf, order):
    env = dict(os.environ, PBT_TMP=d, PBT_SCRATCH=d)
    for i in order:
        n = conf[i]["quick"].get("opt" if variant == "opt" else "san", 0)
        if not n:
            continue
        env["PBT_ID"] = i
        rc, o = sh("%s/%s --seed 1 --shard 0 --shards 1 --cases %d --out %s/o.json --shared %s/sh --salt %s --maxsec 100" % (d, variant, max(20, int(n * FRAC)), d, d, variant), 300, env)
        if rc != 0:
            try:
                msg = json.load(open(d + "/o.json"))["msg"] if rc == 42 else o[-200:]
            except Exception:
                msg = o[-200:]
            return i, "%s rc=%s %s" % (variant, rc, msg[:160].replace("\n", " "))
    return None, ""


def setup(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(W + "/src/include", d + "/include")
    os.makedirs(d + "/t")


GT = ["-I/usr/include", "-lgtest", "-lgtest_main", "-lpthread"]


def evaluate(d, ids, conf, rng):
    inc = d + "/include"
    rc, o = sh("clang++ -std=c++17 -O1 -DNDEBUG -w -I%s /tmp/mut/src/test/test_package.cpp /tmp/mut/src/test/test_complex.cpp %s -o %s/tests" % (inc, " ".join(GT), d))
    if rc:
        return "nocompile", ""
    rc, o = sh(d + "/tests", 120, cwd=d + "/t")
    if rc:
        return "tests", ""
    order = list(ids)
    rng.shuffle(order)
    for v, fl in (("opt", ""), ("tiny", "-DPBT_TINY")):
        rc, o = sh("clang++ -std=c++17 -O1 -DNDEBUG -w %s -I%s -I%s/harness %s/unity.cpp -o %s/%s" % (fl, inc, V, W, d, v))
        if rc:
            return "noharness", o[-1500:]
        i, msg = run_all(d, v, ids, conf, order)
        if i:
            return "killed", i + ": " + msg
    return "SURVIVED", ""


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    J = int(next((x[2:] for x in sys.argv[1:] if x.startswith("-j")), "8"))
    N, seed = int(a[0]), int(a[1])
    rx = a[2] if len(a) > 2 else "."
    lo, hi = (map(int, a[3].split("-"))) if len(a) > 3 else (0, 0)
    files = [f for f in sorted(glob.glob(R + "/include/dd/*.hpp")) if re.search(rx, f)]
    c = candidates(files, lo, hi)
    rng = random.Random(seed)
    rng.shuffle(c)
    if not os.path.isdir(W + "/src/include"):
        shutil.copytree(R + "/include", W + "/src/include")
        shutil.copytree(R + "/test", W + "/src/test")
    ids = unity()
    conf = json.load(open(V + "/props.json"))
    print(len(c), "candidates", flush=True)
    if N == 0:
        d = W + "/w0"
        setup(d)
        print(evaluate(d, ids, conf, rng))
        return
    q = queue.Queue()
    for x in c[:N]:
        q.put(x)
    lock = threading.Lock()
    stat = {}

    def worker(k):
        d = "%s/w%d-%d" % (W, seed, k)
        while True:
            try:
                f, n, old, new = q.get_nowait()
            except queue.Empty:
                shutil.rmtree(d, ignore_errors=True)
                return
            setup(d)
            t = d + "/include/dd/" + os.path.basename(f)
            L = open(t).read().split("\n")
            L[n - 1] = new
            open(t, "w").write("\n".join(L))
            r, msg = evaluate(d, ids, conf, random.Random(n))
            with lock:
                stat[r] = stat.get(r, 0) + 1
                if r in ("killed", "SURVIVED", "noharness"):
                    line = "%s %s:%d\n   - %s\n   + %s\n   %s\n" % (r, os.path.basename(f), n, old.strip(), new.strip(), msg)
                    open(W + "/log.txt", "a").write(line)
                    if r != "killed":
                        open(W + "/survivors.txt", "a").write(line)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(J)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(stat, flush=True)


main()
