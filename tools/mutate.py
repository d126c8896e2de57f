#!/usr/bin/env python3
"""Mutation campaign over /repo/src (development aid; no registered check uses it).
  mutate.py gen  OUT.json [QUOTA_SCALE] [SEED]      list mutants
  mutate.py run  OUT.json LOG.jsonl SLOTS           run them (each slot has its own copy of /repo and /verif under /tmp/w/mut)"""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
REPO = "/repo"
MAP = {  # file -> (quota, checks in the order they are tried)
 "include/pdaaal/internal/PdaSaturation.h": (60, ["C02", "C01", "C03", "C04", "C05"]),
 "include/pdaaal/Solver.h": (25, ["C01", "C03", "C04", "C05", "C02"]),
 "include/pdaaal/PAutomatonProduct.h": (30, ["C18", "C01", "C03", "C04", "C05", "C16"]),
 "include/pdaaal/internal/PAutomatonAlgorithms.h": (15, ["C05", "C06", "C04"]),
 "include/pdaaal/internal/PAutomaton.h": (50, ["C06", "C18", "C02", "C03", "C04", "C05", "C16"]),
 "include/pdaaal/PAutomaton.h": (10, ["C06", "C16", "C18"]),
 "include/pdaaal/SolverInstance.h": (8, ["C16", "C20", "C01"]),
 "include/pdaaal/NFA.h": (25, ["C07", "C08", "C06"]),
 "include/pdaaal/AutomatonPath.h": (12, ["C13"]),
 "include/pdaaal/cegar/Refinement.h": (25, ["C14", "C15"]),
 "include/pdaaal/cegar/AbstractionMapping.h": (15, ["C14", "C15"]),
 "include/pdaaal/cegar/CegarPdaFactory.h": (30, ["C15"]),
 "include/pdaaal/cegar/AbstractionPDA.h": (10, ["C15"]),
 "include/pdaaal/cegar/AbstractionPAutomaton.h": (4, ["C15"]),
 "include/pdaaal/cegar/AbstractionSolverInstance.h": (6, ["C15"]),
 "include/pdaaal/parsing/NfaParserGrammar.h": (14, ["C08"]),
 "include/pdaaal/parsing/NfaParser.cpp": (4, ["C08"]),
 "include/pdaaal/Weight.h": (20, ["C10"]),
 "include/pdaaal/PDA.h": (20, ["C12", "C20", "C16"]),
 "include/pdaaal/PDAFactory.h": (12, ["C20"]),
 "include/pdaaal/internal/PDA.h": (20, ["C12", "C09"]),
 "include/pdaaal/internal/PDA.cpp": (20, ["C12", "C09"]),
 "include/pdaaal/internal/Reducer.cpp": (20, ["C09"]),
 "include/pdaaal/internal/Reducer.h": (25, ["C09"]),
 "include/pdaaal/utils/workset.h": (10, ["C11", "C05"]),
 "include/pdaaal/utils/fut_set.h": (12, ["C11"]),
 "include/pdaaal/utils/vector_set.h": (15, ["C11"]),
 "include/pdaaal/utils/more_algorithms.h": (10, ["C11"]),
 "include/pdaaal/utils/ptrie_interface.h": (20, ["C20"]),
 "include/pdaaal/utils/flags.h": (6, ["C17", "C16"]),
 "include/pdaaal/utils/SaxHandlerHelpers.h": (12, ["C17", "C16"]),
 "pdaaal-bin/parsing/PAutomatonParser.h": (10, ["C08"]),
 "pdaaal-bin/parsing/SaxHandlerDispatch.h": (8, ["C17", "C16"]),
 "pdaaal-bin/parsing/SolverInstanceJsonParser.h": (14, ["C16", "C17", "C19"]),
 "pdaaal-bin/parsing/PAutomatonJsonParser.h": (22, ["C16", "C17"]),
 "pdaaal-bin/parsing/PdaJsonParser.h": (30, ["C16", "C17"]),
 "pdaaal-bin/parsing/Parsing.h": (6, ["C19"]),
 "pdaaal-bin/parsing/Parsing.cpp": (6, ["C19"]),
 "pdaaal-bin/main.cpp": (6, ["C19"]),
 "pdaaal-bin/utils/json_stream.h": (6, ["C19"]),
 "pdaaal-bin/Verifier.h": (14, ["C19"]),
}
OPS = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"&&(?! ?\w+[,)>])", "||"), (r"\|\|", "&&"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\bbreak;", ";"), (r"\bcontinue;", ";"),
       (r"\.first\b", ".second"), (r"\.second\b", ".first"), (r"\bstd::min\b", "std::max"), (r"\bstd::max\b", "std::min"), (r"(?<=[(& |])!(?=[\w(])", ""),
       (r"\b_from\b", "_to"), (r"\b_to\b", "_from"), (r"\bfrom\b", "to"), (r"\bto\b", "from"), (r"push_back", "emplace_back_never"), (r"\+\+(\w+)", r"\1"), (r"\b0\b", "1"), (r"\b1\b", "0")]
OPS = [o for o in OPS if o[1] != "emplace_back_never"]
def mutants(path):
    txt = open(path, newline="").read(); lines = txt.split("\n"); out = []
    skipblock = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): skipblock = True
        if skipblock:
            if "*/" in s: skipblock = False
            continue
        if not s or s.startswith(("//", "#", "*", "assert", "static_assert", "template", "using", "typedef", "namespace", "std::cerr", "std::cout", "out <<", "s <<", "requires", "errors()", "throw")): continue
        code = l.split("//")[0]
        if "static_assert" in code or "operator<<" in code or " << " in code: continue
        for k, (pat, rep) in enumerate(OPS):
            for m in re.finditer(pat, code):
                if "template" in code and rep in ("true", "false"): continue
                new = code[:m.start()] + m.expand(rep) + code[m.end():] + l[len(code):]
                if new != l: out.append((i, l, new, "op:" + pat))
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\) ?\{?\s*)$", code.rstrip("\r"))
        if m and "constexpr" not in code and m.group(2).count("(") == m.group(2).count(")"):
            tail = "\r" if l.endswith("\r") else ""
            for v in ("true", "false"): out.append((i, l, m.group(1) + v + m.group(3) + tail, "if " + v))
        if re.match(r"^\s*[\w.\->\[\]():*<>_ ]+(\(.*\)|\s*(=|\+=|\|=|-=)\s*[^=].*|\+\+|--);\s*$", code.rstrip("\r")) and not re.match(r"^\s*(return|using|auto|const|size_t|bool|uint32_t|std::|typename|constexpr|int|for|while|if|explicit|virtual|friend|else)\b", code):
            out.append((i, l, re.match(r"^\s*", l).group(0) + ";" + ("\r" if l.endswith("\r") else ""), "delete"))
    return out
def gen(out, scale, seed):
    rnd = random.Random(seed); res = []
    for f, (q, checks) in MAP.items():
        ms = mutants(REPO + "/src/" + f); rnd.shuffle(ms)
        seen = set(); take = []
        for m in ms:
            if (m[0], m[3]) in seen: continue
            seen.add((m[0], m[3])); take.append(m)
            if len(take) >= max(1, int(q * scale)): break
        print(f, len(ms), "->", len(take))
        for i, old, new, kind in take: res.append({"file": f, "line": i + 1, "old": old, "new": new, "kind": kind, "checks": checks})
    rnd.shuffle(res)
    for n, r in enumerate(res): r["id"] = n
    json.dump(res, open(out, "w"), indent=0); print(len(res))
def run(lst, log, slots):
    ms = json.load(open(lst)); done = set()
    if os.path.exists(log): done = {json.loads(l)["id"] for l in open(log)}
    q = queue.Queue()
    for m in ms:
        if m["id"] not in done: q.put(m)
    lock = threading.Lock()
    def slot(k):
        base = "/tmp/w/mut/slot%d" % k
        if os.path.exists(base): shutil.rmtree(base)
        os.makedirs(base)
        subprocess.run(["cp", "-a", "/verif", base + "/verif"], check=True)
        shutil.rmtree(base + "/verif/build", ignore_errors=True)
        os.makedirs(base + "/repo"); subprocess.run(["cp", "-a", REPO + "/src", base + "/repo/src"], check=True)
        env = dict(os.environ, VERIF_REPO=base + "/repo", TMPDIR=base)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            p = base + "/repo/src/" + m["file"]; orig = open(p, newline="").read(); L = orig.split("\n")
            assert L[m["line"] - 1] == m["old"]; L[m["line"] - 1] = m["new"]
            open(p, "w", newline="").write("\n".join(L))
            t0 = time.time(); res = {}; status = "survived"
            for c in m["checks"]:
                try:
                    r = subprocess.run(["python3", base + "/verif/vf.py", c, "--tier", "quick", "--workers", str(max(2, 8 // slots))], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    rc, o = r.returncode, r.stdout
                except subprocess.TimeoutExpired: rc, o = 124, ""
                res[c] = rc
                if rc == 1: status = "killed"; break
                if "BUILD-ERROR" in o: status = "invalid"; break
            open(p, "w", newline="").write(orig)
            shutil.rmtree(base + "/verif/build", ignore_errors=True)
            with lock:
                open(log, "a").write(json.dumps(dict(m, status=status, res=res, t=round(time.time() - t0, 1))) + "\n")
    ts = [threading.Thread(target=slot, args=(k,)) for k in range(slots)]
    [t.start() for t in ts]; [t.join() for t in ts]
if sys.argv[1] == "gen": gen(sys.argv[2], float(sys.argv[3]) if len(sys.argv) > 3 else 1, int(sys.argv[4]) if len(sys.argv) > 4 else 1)
else: run(sys.argv[2], sys.argv[3], int(sys.argv[4]))
