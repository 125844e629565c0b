#!/usr/bin/env python3
"""Tries small mechanical changes of the code under test against the checks, in scratch copies.

mutate.py list <file>...                 the changes it would make
mutate.py run <scratch> <workers> <one-in> <file>...   result lines on stdout: what survived, and what caught the rest
mutate.py again <scratch> <workers> <one-in> <log>     the survivors of an earlier run, with more cases
"""
import json, os, re, shutil, subprocess, sys, threading, queue
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "rust-src/src/gridstore/"
CHECKS = {
    G + "gridstore_format.rs": "C12 C01 C02 C03 C04 C05 C06 C07 C09 C08 C26 C21 C20 C29",
    G + "common.rs": "C10 C11 C23 C04 C05 C06 C13 C14 C15 C16 C24 C18 C30 C31 C29",
    G + "spatial.rs": "C05 C09 C04 C13 C16 C15 C28",
    G + "builder.rs": "C01 C02 C03 C07 C08 C21 C26 C24 C04 C29 C27",
    G + "store.rs": "C01 C03 C04 C05 C06 C07 C09 C20 C21 C24 C13 C25 C16 C29 C27 C28",
    G + "coalesce.rs": "C13 C14 C15 C16 C19 C25 C18 C28 C27",
    G + "stackable.rs": "C17 C18 C16 C13 C14",
    "native/src/gridstore.rs": "C22 C32", "native/src/fuzzy_phrase.rs": "C22 C32", "native/src/lib.rs": "C22",
    "test_utils/src/lib.rs": "C24", "test_utils/src/dump.rs": "C24", "test_utils/src/load.rs": "C24",
}
PAIRS = [
    (r"(?<![<>=!\-])<(?![<=])(?=\s)", ["<=", ">"]), (r"<=", ["<", ">="]), (r"(?<![<>=\-])>(?![>=])(?=\s)", [">=", "<"]),
    (r"(?<!=)>=", [">", "<="]), (r"==", ["!="]), (r"!=", ["=="]),
    (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/", "+"]), (r"(?<= )/(?= )", ["*"]), (r"(?<= )%(?= )", ["/"]),
    (r"(?<= )<<(?= )", [">>"]), (r"(?<= )>>(?= )", ["<<"]), (r"(?<= )&(?= )", ["|"]), (r"(?<= )\|(?= )", ["&"]), (r"(?<= )\^(?= )", ["&"]),
    (r"(?<= )\+=(?= )", ["-="]), (r"(?<= )-=(?= )", ["+="]), (r"(?<= )\|=(?= )", ["&=", "="]), (r"(?<= )&=(?= )", ["|=", "="]),
    (r"&&", ["||"]), (r"\|\|(?= )(?=[^{]*\{|.*$)", ["&&"]), (r"(?<=[\s(])!(?=[a-z(])", [""]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]),
    (r"\bmin_by", ["max_by"]), (r"\bmax_by", ["min_by"]),
    (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]), (r"\.rev\(\)", [""]), (r"\bis_empty\(\)", ["len() == 1"]),
    (r"\.unwrap_or\(0\)", [".unwrap_or(1)"]), (r"(?<![\w.])(\d+)(?![\w.])", "int"), (r"(?<![\w.])\d+\.\d*(?!\w)", "float"),
    (r"\.\.=", [".."]), (r"\bOrdering::Less\b", ["Ordering::Greater"]), (r"\bOrdering::Greater\b", ["Ordering::Less"]),
    (r"\b0x([0-9a-fA-F]+)\b", "hex"), (r"\bu8::max_value\(\)|\bu16::max_value\(\)|\bu32::max_value\(\)|\bu128::max_value\(\)", ["0"]),
    (r"\.then\(", ["; let _ = ("]), (r"\.skip\((\w+)\)", [""]), (r"\.take\((\w+)\)", [""]), (r"\.filter\(", [".filter(|_| true).filter(|_| false || true); let _ = ("]),
    (r"\bas u8\b", ["as i8 as u8"]), (r"\bas u32\b", ["as u16 as u32"]), (r"\bas u16\b", ["as u8 as u16"]), (r"\bas f64\b", ["as f32 as f64"]),
    (r"\bas u128\b", ["as u64 as u128"]), (r"\bas usize\b", ["as u16 as usize"]), (r"\bas i64\b", ["as i16 as i64"]), (r"\bas u64\b", ["as u32 as u64"]),
    (r"\.chunks\(", [".chunks(1 + "]), (r"\bLittleEndian\b", ["BigEndian"]), (r"\bBigEndian\b", ["LittleEndian"]), (r"\bx\b(?= [-+<>=]|,|\))", ["y"]), (r"\by\b(?= [-+<>=]|,|\))", ["x"]),
    (r"\.0\b", [".1"]), (r"\.1\b", [".0"]), (r"\?;", [".ok();"]), (r"\bstart\b", ["end"]), (r"\bend\b", ["start"]), (r"\bfloor\(\)", ["ceil()"]), (r"\bceil\(\)", ["floor()"]), (r"\bround\(\)", ["floor()"]), (r"\.abs\(\)", [""]),
]

def code_lines(path):
    """(number, text) of the lines that are code and not tests"""
    lines = open(path).read().split("\n")
    out, skip = [], None
    i = 0
    while i < len(lines):
        l = lines[i]
        if re.match(r"\s*#\[(cfg\(test\)|test|cfg\(carmen_verif\))\]", l):
            # the item that follows: to its ';' at depth 0 or closing brace
            depth, j = 0, i + 1
            while j < len(lines):
                depth += lines[j].count("{") - lines[j].count("}")
                if depth <= 0 and re.search(r"[;}]\s*$", lines[j]):
                    break
                j += 1
            i = j + 1
            continue
        if not re.match(r"\s*(//|#|use |pub use |extern |mod |pub mod |debug_assert|\})", l) and l.strip():
            out.append((i, l))
        i += 1
    return lines, out

def mutants(root, rel):
    lines, code = code_lines(os.path.join(root, rel))
    res = []
    for n, l in code:
        body = re.sub(r"//.*$", "", l)
        body = re.sub(r'"[^"]*"', lambda m: '"' + "_" * (len(m.group(0)) - 2) + '"', body)
        seen = set()
        for pat, reps in PAIRS:
            for m in re.finditer(pat, body):
                old = m.group(0)
                if reps == "int":
                    if re.search(r"(\[|; ?)$", body[:m.start()]) and "[" in body[:m.start()] and "; " in body[:m.start()][-3:]:
                        pass
                    v = int(old)
                    rs = [str(v + 1)] + ([str(v - 1)] if v else [])
                elif reps == "float":
                    rs = [repr(float(old) + 0.5), repr(float(old) * 0.9)] if float(old) else ["0.5"]
                elif reps == "hex":
                    v = int(old, 16)
                    rs = [hex(v + 1), hex(max(v - 1, 0))]
                else:
                    rs = reps
                for r in rs:
                    new = l[:m.start()] + r + l[m.end():]
                    if new not in seen and new != l:
                        seen.add(new)
                        res.append((rel, n, l, new))
        # statements left out
        if re.match(r"\s+(\w|\*|\.)[^{}]*;\s*$", body) and not re.match(r"\s*(let|return|break|continue|\.|type|const|static|pub|fn|\))", body.lstrip(" ")):
            res.append((rel, n, l, re.match(r"\s*", l).group(0) + ";"))
        m = re.match(r"(\s*)(\} else )?if (?!let)(.*) \{\s*$", l)
        if m:
            for v in ("true", "false"):
                res.append((rel, n, l, "%s%sif %s { " % (m.group(1), m.group(2) or "", "%s || (%s)" % (v, m.group(3)) if v == "true" else "false && (%s)" % m.group(3))))
        m = re.match(r"(\s*)(return .*;)\s*$", l)
        if m:
            res.append((rel, n, l, m.group(1) + ";"))
    return res

def prepare(base, i):
    d = os.path.join(base, "w%d" % i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/repo"); os.makedirs(d + "/verif")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s/repo; cd %s && tar c --exclude=./target --exclude=./.git --exclude=./seeded --exclude=./evidence . | tar x -C %s/verif" % (d, here, d), shell=True)
    subprocess.check_call(r"""cd %s/verif && sed -i 's#"/repo#"%s/repo#g' harness/Cargo.toml bindings/Cargo.toml && sed -i 's#/repo/index.js#%s/repo/index.js#' harness/src/props/bindings.rs
      sed -i 's/opt-level = 2/opt-level = 1/; s/incremental = false/incremental = true/; s/^debug = 1/debug = 0/' harness/Cargo.toml bindings/Cargo.toml; mkdir -p evidence""" % (d, d, d), shell=True)
    return d

def cargo(d, what):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=d + "/t-" + what, RUSTFLAGS="-Awarnings" + (" --cfg carmen_verif -Cdebug-assertions=on" if what == "harness" else ""))
    args = ["cargo", "build", "--offline", "-j", "2"] + (["--features", "extras", "-p", "test_utils", "-p", "carmen-verif"] if what == "harness" else [])
    return subprocess.run(args, cwd=d + "/verif/" + what, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0

def checks(d, i, rel, one_in, all_of_them, only=None):
    env = dict(os.environ, VERIF_DIR=d + "/verif", VERIF_SEED="1", VERIF_TIER="quick", VERIF_ADDON=d + "/t-bindings/debug/libnode_carmen_core.so",
               VERIF_INDEX_JS=d + "/repo/index.js", TMPDIR=d, VERIF_ONE_IN=str(one_in))
    caught, odd = [], []
    for c in only or CHECKS[rel].split():
        try:
            rc = subprocess.run(["taskset", "-c", str(i % os.cpu_count()), d + "/t-harness/debug/carmen-verif", "check", c], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300).returncode
        except subprocess.TimeoutExpired:
            rc = 99
        if rc == 1:
            caught.append(c)
            if not all_of_them:
                break
        elif rc:
            odd.append("%s=%d" % (c, rc))
    return caught, odd

def run(base, workers, one_in, todo):
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    def work(i):
        d = prepare(base, i)
        if not cargo(d, "harness") or not cargo(d, "bindings"):
            with lock:
                print("worker %d: does not build" % i, flush=True)
            return
        while True:
            try:
                rel, n, old, new = q.get_nowait()
            except queue.Empty:
                return
            p = os.path.join(d, "repo", rel)
            text = open(p).read()
            lines = text.split("\n")
            if lines[n] != old:
                continue
            lines[n] = new
            open(p, "w").write("\n".join(lines))
            ok = cargo(d, "bindings") if rel.startswith("native") else cargo(d, "harness")
            if ok:
                caught, odd = checks(d, i, rel, one_in, "ALL" in os.environ)
                verdict = "CAUGHT" if caught else "SURVIVED"
            else:
                caught, odd, verdict = [], [], "NOBUILD"
            open(p, "w").write(text)
            with lock:
                print(json.dumps({"v": verdict, "by": caught, "odd": odd, "file": rel, "line": n + 1, "old": old.strip(), "new": new.strip(), "raw": [old, new]}), flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]

if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            ms = mutants("/repo", f)
            for m in ms:
                print("%s:%d  %s  ->  %s" % (m[0], m[1] + 1, m[2].strip(), m[3].strip()))
    elif sys.argv[1] == "run":
        todo = [m for f in sys.argv[5:] for m in mutants("/repo", f)]
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), todo)
    elif sys.argv[1] == "again":
        todo = []
        for l in open(sys.argv[5]):
            r = json.loads(l) if l.startswith("{") else {"v": ""}
            if r["v"] == "SURVIVED":
                todo.append((r["file"], r["line"] - 1, r["raw"][0], r["raw"][1]))
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), todo)
