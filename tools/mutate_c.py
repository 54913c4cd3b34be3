"""Development aid: token-level mutations of the C++ and Rust sources; each is given to the checks (exit 2 = does not build).
usage: mutate_c.py OUT.jsonl WORKERS N_PER_FILE SEED FILE:CHECKS ...      Works on copies under /tmp/mutc; nothing registered uses this."""
import json, os, queue, random, re, shutil, subprocess, sys, threading
SW = {"<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"], ">=": [">", "<="], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "+=": ["-="], "-=": ["+="], "++": ["--"], "true": ["false"], "false": ["true"], "break": ["continue"], "continue": ["break"], "min": ["max"], "max": ["min"]}
def mutants(src, rust):
    cut = src.find("#[cfg(test)]")
    body = src[:cut] if cut >= 0 else src
    out = []; pos = 0
    for line in body.split("\n"):
        s = line.strip()
        code = line.split("//")[0]
        if s and not s.startswith(("//", "#", "use ", "*", "/*", "///", "static", "assert", "debug_assert", "panic", "println", "eprintln", "std::c", "namespace", "typedef", "template", "impl", "fn ", "pub fn", "struct", "enum")):
            pats = r"(?<= )(<=|>=|==|!=|&&|\|\||\+=|-=|<|>|\+|-)(?= )|\+\+|\b(true|false|break|continue|min|max)\b|(?<![\w.\"])\d+(?![\w.\"])"
            for m in re.finditer(pats, code):
                if code[:m.start()].count('"') % 2: continue
                t = m.group(0)
                if t.isdigit(): news = [str(int(t) + 1)] + ([str(int(t) - 1)] if int(t) else [])
                else: news = SW.get(t, [])
                for n in news: out.append((pos + m.start(), pos + m.end(), n, s))
            m = re.match(r"\s*(?:\} else )?if \((.*)\) \{$", code) or re.match(r"\s*(?:\} else )?if (?!let)(.*) \{$", code)
            if m and "let " not in m.group(1):
                for n in ("true", "false", "!(%s)" % m.group(1)): out.append((pos + m.start(1), pos + m.end(1), n, s))
            if s.endswith(";") and not s.startswith(("return", "let", "const", "break", "continue", "auto", "}")) and code.count("(") == code.count(")") and not re.match(r"(?:std::)?[\w:<>*&]+ \w+( = .*|\[.*|\(.*)?;$", s):
                out.append((pos + len(line) - len(line.lstrip()), pos + len(code.rstrip()), ";" if not rust else "", s))
        pos += len(line) + 1
    return [("%d: %s  [%s -> %s]" % (src.count("\n", 0, a) + 1, s[:100], src[a:b][:50], n[:50]), src[:a] + n + src[b:]) for a, b, n, s in out]
def main():
    out, workers, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    q = queue.Queue(); k = 0
    for a in sys.argv[5:]:
        f, cs = a.split(":"); src = open("/repo/" + f).read(); ms = mutants(src, f.endswith(".rs")); random.Random("%d %s" % (seed, f)).shuffle(ms)
        print(f, len(ms))
        for w, t in ms[:per]: q.put((f, cs.split("+"), w, t)); k += 1
    print(k, "mutants", flush=True); lock = threading.Lock(); fo = open(out, "a")
    def run(j):
        w, v = "/tmp/mutc/w%d" % j, "/tmp/mutc/v%d" % j; shutil.rmtree(w, ignore_errors=True); shutil.rmtree(v, ignore_errors=True); os.makedirs("/tmp/mutc", exist_ok=True)
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git", "build", "Machines", "target")); shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence")); os.makedirs(v + "/evidence")
        while True:
            try: f, cs, what, t = q.get_nowait()
            except queue.Empty: break
            orig = open("/repo/" + f).read(); open(w + "/" + f, "w").write(t); r = dict(file=f, what=what, result="SURVIVED", rc={})
            for c in cs:
                try: p = subprocess.run(["./check", c], cwd=v, env=dict(os.environ, VERIF_REPO=w, VERIF_JOBS=str(max(1, 8 // workers)), VERIF_TIER="quick", VERIF_SEED="1"), capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired: r["result"] = "timeout " + c; break
                r["rc"][c] = p.returncode
                if p.returncode == 1: r["result"] = "caught " + c; break
                if p.returncode: r["result"] = "nobuild " + c; r["out"] = (p.stdout + p.stderr)[-300:]; break
            open(w + "/" + f, "w").write(orig)
            with lock: fo.write(json.dumps(r) + "\n"); fo.flush()
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(v, ignore_errors=True)
    ts = [threading.Thread(target=run, args=(j,)) for j in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
