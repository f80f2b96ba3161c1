#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: rebuild from /repo, run the symbolic engine on the property's harnesses, replay
every counterexample natively, write evidence/PROPERTY.json. Exit 0: held on everything explored; exit 1: VIOLATION."""
import fcntl, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, RUST_BACKTRACE="0", RUST_MIN_STACK="67108864")

# the expr! macro has its own harness program: the macro crate is built as an ordinary library
SCRIPT, BIN = ("macroh/build.sh", "mh") if sys.argv[1] == "C19" else ("build.sh", "vh")

def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")

def build():
    os.makedirs(f"{V}/build", exist_ok=True)
    with open(f"{V}/build/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out, err = run(["bash", f"{V}/{SCRIPT}"], 600)
    if rc != 0:
        print("check: build failed\n" + out[-2000:] + err[-4000:])
        sys.exit(2)

def native(h, tier, inputs, verbose=False):
    """(verdict, text): ok | violation | assume | error"""
    rc, out, err = run([f"{V}/build/{BIN}", h, str(tier), ",".join(inputs)] + (["v"] if verbose else []), 60)
    if rc == 0: return "ok", out
    if rc == 4: return "assume", out
    if rc == 3: return "violation", out + err
    if rc == 2: return "error", out + err
    if rc == "timeout": return "violation", out + "no answer after 60 s (non-termination)\n"
    m = re.search(r"panicked at [^\n]*\n[^\n]*", err)
    return "violation", out + (m.group(0) if m else f"died with {rc}: {err[-300:]}") + "\n"

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    build()
    cfg = json.load(open(f"{V}/props.json"))[prop]
    t = 1 if tier == "thorough" else 0
    budget = cfg.get("budget", [240, 700])[t]
    os.makedirs(f"{V}/replay", exist_ok=True); os.makedirs(f"{V}/evidence", exist_ok=True)
    out = f"{V}/build/{prop}.{tier}.json"
    pre = prop.lower() + "_"
    rc, so, se = run([f"{V}/build/engine/release/symx", f"{V}/build/{BIN}.ll", pre + "*", "--tier", str(t), "--time", str(budget),
                      "--jobs", str(os.cpu_count() or 4), "--out", out, "--maxf", "25"] + cfg.get("args", []), 880 - (time.time() - t0))
    if rc != 0:
        print(f"check: engine ended with {rc}\n{so[-1000:]}{se[-3000:]}")
        sys.exit(2)
    r = json.load(open(out))
    known = [k for k in json.load(open(f"{V}/known_findings.json"))["findings"] if k["property"] == prop and k["status"] == "known"]
    violations, hits, refuted, seen = [], {}, [], set()
    t_rep = time.time()
    for h, x in r["harnesses"].items():
        for f in x["findings"]:
            if len(violations) >= 12 or time.time() - t_rep > 120: break
            verdict, text = native(h, t, f["inputs"], True)
            if verdict != "violation":
                refuted.append({"harness": h, "label": f["label"], "inputs": f["inputs"], "native": verdict, "notes": f["notes"], "text": text[:600]})
                continue
            k = next((k for k in known if re.fullmatch(k["harness"], h) and re.search(k["match"], text, re.S)), None)
            if k:
                hits.setdefault(k["id"], (k, h, f, text)); continue
            key = (h, f["label"].split(" in ")[0], text.splitlines()[0] if text else "")
            if key in seen: continue
            seen.add(key)
            violations.append((h, f, text))
    # translator validation: engine in concrete mode against the native build on models of explored paths
    traces, mismatch = 0, []
    t_val = time.time()
    for h, x in r["harnesses"].items():
        for w in x["witnesses"]:
            if time.time() - t_val > 40: break
            v, text = native(h, t, w, True)
            if v == "violation": continue
            rc, so, _ = run([f"{V}/build/engine/release/symx", f"{V}/build/{BIN}.ll", h, "--tier", str(t), "--concrete", ",".join(w)], 60)
            a = [l for l in text.splitlines() if l.startswith("NOTE")]; b = [l for l in so.splitlines() if l.startswith("NOTE")]
            traces += 1
            if a != b or (v == "ok") != (" Done steps" in so): mismatch.append({"harness": h, "inputs": w, "native": [v] + a, "engine": so.splitlines()[-6:]})
    H = r["harnesses"]
    S = lambda k: sum(x[k] for x in H.values())
    vac = [h for h, x in H.items() if x["asserts"] == 0]
    inc = {h: {**x["incomplete"], **({"states not explored before the time budget": x["dropped_states"]} if x["dropped_states"] else {}), **({"undecided branches": x["unknown_branches"]} if x["unknown_branches"] else {})} for h, x in H.items() if x["incomplete"] or x["dropped_states"] or x["unknown_branches"]}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {
              "states": S("paths"), "transitions": S("decisions"), "traces_validated_against_impl": traces,
              "samples": [s for x in H.values() for s in x["samples"][:2]][:16],
              "explanation": "bounded symbolic execution of the LLVM IR compiled from /repo's current source; states = symbolic paths, transitions = branch/choice/concretisation decisions",
              "harnesses": {h: {k: x[k] for k in ("paths", "done", "assumed", "distinct_paths", "asserts", "asserts_symbolic", "decisions", "instructions", "cpu_s")} for h, x in H.items()},
              "assertions_checked": S("asserts"), "assertions_decided_by_solver_query": S("asserts_symbolic"),
              "bounds": cfg["bounds"], "outside": cfg.get("outside", ""),
              "exhausted_within_bounds": not inc and not vac, "not_exhausted": inc, "vacuous_harnesses": vac,
              "functions_encoded": r["functions"],
              "solver": {k: r[k] for k in ("solver", "queries", "cached", "sat", "unsat", "unknown", "lia", "solver_s", "max_query_s")},
              "translator_mismatches": mismatch, "refuted_natively": refuted[:20], "refuted_natively_count": len(refuted),
          },
          "assumptions": cfg.get("assumptions", []) + ["the IR semantics and the exact value oracle in /verif/engine", "panic=abort, overflow-checks=on, opt-level 1 build of the crate with rustc stable"],
          "wall_s": round(time.time() - t0, 1), "violations": 0}
    details = []
    for k, h, f, text in hits.values():
        print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']} (here {h} inputs {','.join(f['inputs'])})")
    ev["known_findings"] = sorted(hits)
    for i, (h, f, text) in enumerate(violations):
        p = f"{V}/replay/{prop}_{i}.txt"
        with open(p, "w") as o:
            o.write(f"property {prop}\nharness {h}\n{f['kind']}: {f['label']}\ninputs {','.join(f['inputs'])}\nreplay: {V}/build/{BIN} {h} {t} {','.join(f['inputs'])} v\n\n{text}")
        print(f"VIOLATION property={prop} replay={p}")
        print("  " + h + ": " + f["label"] + " inputs " + ",".join(f["inputs"]) + "\n    " + "\n    ".join(text.strip().splitlines()[-6:]))
        details.append({"harness": h, "kind": f["kind"], "label": f["label"], "inputs": f["inputs"], "replay": p, "native": text[-800:]})
    if mismatch: print(f"note: {len(mismatch)} engine/native trace mismatches (see evidence)")
    if refuted: print(f"note: {len(refuted)} solver counterexamples did not reproduce natively and are not reported (see evidence)")
    if inc: print("note: not exhausted within bounds: " + json.dumps(inc)[:600])
    ev["violations"] = len(violations); ev["coverage"]["violation_details"] = details
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop} {tier}: {S('paths')} paths, {S('asserts')} assertions, {r['queries']} queries, {r['solver_s']:.1f}s solver, wall {ev['wall_s']}s, {traces} traces validated, {len(violations)} violations, {len(hits)} known")
    sys.exit(1 if violations else 0)
main()
