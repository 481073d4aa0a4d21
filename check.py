#!/usr/bin/env python3
"""Decide one property of trust-graph: contracts on the functions of /repo, discharged by Verus.

  check.py ID [--tier quick|thorough]

1. the extractor turns /repo's current sources into one Verus crate with the contracts of contracts/
2. Verus discharges every obligation; functions the extractor or Verus cannot read are demoted (bounded stand-in)
3. the harness runs the executable form of the property against the real crates (witness search)
Exit 0: held.  Exit 1 + VIOLATION line: broken.
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
# adaptor structure of the loops each contract's invariants were written for
SHAPES = json.load(open(os.path.join(V, "contracts", "shapes.json")))
# texts (hashes) of the extraction the committed contracts were discharged on
BASELINE = os.path.join(V, "contracts", "baseline.json")
# contracts that are sufficient but not necessary (any hash that respects equality will do): failing them decides nothing
SOFT = {"trust_graph::public_key_hashable::PublicKeyHashable::hash", "trust_graph::public_key_hashable::PublicKeyHashable::hash_slice"}
# operations Verus accepts with a specification too weak for what they do: one that the contracts were not discharged with leaves a failing function undecided
WEAK_CALLS = {"cmp": r"\.cmp\(", "partial_cmp": r"\.partial_cmp\(", "shl": r"<<=?\s*\(?\d", "shr": r">>=?\s*\(?\d", "str-len": r"as_str\(\)\s*\.len\("}
WEAK = os.path.join(V, "contracts", "weak.json")
BASE_WEAK = json.load(open(WEAK)) if os.path.exists(WEAK) else {}
TOOLCHAIN = "nightly-2023-12-06"


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), time.time() - t
    except subprocess.TimeoutExpired as x:
        return -1, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace") + "\ntimeout", time.time() - t


class Proof:
    """one extraction and its Verus run"""

    def __init__(self, work, tier):
        self.work = work
        self.tier = tier
        self.ok = False
        self.why = ""
        self.demoted = []
        self.fails = []  # {fn, props, kind, text, decided}
        self.units = {}
        self.solver_ms = 0
        self.runs = 0
        self.notes = []

    def build(self):
        ex = os.path.join(V, "extractor")
        rc, o, e, _ = sh(["cargo", "+stable", "build", "--offline", "--locked"], 400, cwd=ex)
        self.bin = os.path.join(ex, "target/debug/vx-extract")
        if rc != 0:
            self.why = "extractor does not build: " + e[-400:]
            return False
        return True

    def extract(self, probe=None):
        self.vrs = os.path.join(self.work, "v.rs" if not probe else "probe_%s.rs" % probe)
        mp = os.path.join(self.work, "v.json")
        cmd = [self.bin, "--repo", REPO, "--contracts", os.path.join(V, "contracts"), "--out", self.vrs, "--map", mp]
        for k in self.demoted:
            cmd += ["--demote", k]
        if probe:
            cmd += ["--probe", probe]
        rc, o, e, _ = sh(cmd, 120)
        if rc != 0:
            self.why = "extraction failed: " + (e or o)[-400:]
            return False
        self.map = json.load(open(mp))
        self.lines = open(self.vrs).read().split("\n")
        self.fns = self.map["functions"]
        return True

    def verus(self, extra=()):
        self.runs += 1
        cmd = ["verus", self.vrs, "--crate-name", "vxv", "--output-json", "--time-expanded", "--error-format=json",
               "--multiple-errors", "6", "--num-threads", "8"] + list(extra)
        rc, o, e, dt = sh(cmd, 300, cwd=self.work)
        diags = []
        for l in e.split("\n"):
            if l.startswith("{"):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        try:
            out = json.loads(o)
        except ValueError:
            out = None
        return rc, out, diags, e

    def fn_at(self, line):
        best = None
        for f in self.fns:
            if f["start"] <= line < f["end"] and (best is None or f["end"] - f["start"] < best["end"] - best["start"]):
                best = f
        return best

    def lib_at(self, line):
        for n, (a, b) in self.map["libs"].items():
            if a <= line <= b:
                for i in range(min(line, len(self.lines)) - 1, a - 1, -1):
                    m = re.search(r"\bproof fn (\w+)", self.lines[i])
                    if m:
                        j = i
                        txt = []
                        while j < b and not (j > i and re.match(r"(pub |#\[|///|\})", self.lines[j])):
                            txt.append(self.lines[j])
                            j += 1
                        return n + "::" + m.group(1), sorted(set(re.findall(r"C\d\d", " ".join(re.findall(r"/\*(.*?)\*/", " ".join(txt))))))
                return n, []
        return None, []

    def spans(self, d):
        r = []
        for s in d.get("spans", []):
            if os.path.basename(s["file_name"]) == os.path.basename(self.vrs):
                r.append((s["line_start"], s["is_primary"], s.get("label") or ""))
        return r

    def run(self):
        if not self.build():
            return
        for rnd in range(12):
            if not self.extract():
                return
            rc, out, diags, raw = self.verus()
            errs = [d for d in diags if d["level"] == "error" and not d["message"].startswith("aborting")]
            vr = (out or {}).get("verification-results") or {}
            hard = [d for d in errs if not self.is_vc(d)]
            if out is None or vr.get("encountered-vir-error") or hard or "verified" not in vr:
                ks = set()
                for d in hard or errs:
                    for (l, prim, _) in self.spans(d):
                        f = self.fn_at(l)
                        if f and f["kind"] in ("proved", "trait") and f["key"] not in self.demoted:
                            ks.add(f["key"])
                            self.notes.append("outside the verifier's reach: %s: %s" % (f["key"], d["message"][:160]))
                if not ks:
                    self.why = "Verus cannot read the extraction: " + "; ".join(d["message"][:160] for d in (hard or errs)[:3]) + ("" if errs else raw[-300:])
                    return
                self.demoted += sorted(ks)
                continue
            self.collect(out, errs)
            if self.fails:
                self.retry()
                self.filter_unchanged()
            self.ok = True
            return
        self.why = "no extraction accepted after 12 rounds"

    def retry(self):
        """an obligation discharged under another solver seed is discharged: only what fails twice has failed"""
        first, self.fails = self.fails, []
        keep = (self.units, self.solver_ms, self.verified, self.errors)
        rc, out, diags, raw = self.verus(["--rlimit", "25", "--smt-option", "smt.random_seed=11"])
        errs = [d for d in diags if d["level"] == "error" and not d["message"].startswith("aborting")]
        if "verified" not in ((out or {}).get("verification-results") or {}) or any(not self.is_vc(d) for d in errs):
            self.fails = first
            return
        self.collect(out, errs)
        again = {f["fn"] for f in self.fails}
        merged = [f for f in first if f["fn"] in again]
        dec = {f["fn"] for f in merged if f["decided"]}
        merged += [f for f in self.fails if f["fn"] in {x["fn"] for x in first} and f["fn"] not in dec and f["decided"]]
        if self.verified < keep[2]:
            self.units, self.solver_ms, self.verified, self.errors = keep
        self.fails = merged

    def texts(self):
        """function texts, their heads (signature and contract) and everything else of the extraction"""
        h = lambda t: hashlib.sha256(t.encode()).hexdigest()[:20]
        norm = lambda ls: "\n".join(l.strip() for l in ls if l.strip() and not re.match(r"\s*(pub )?use |\s*//", l))
        fns, inside = {}, set()
        for f in self.fns:
            ls = self.lines[f["start"] - 1:f["end"] - 1]
            inside.update(range(f["start"], f["end"]))
            full = h(norm(ls))
            fns[f["key"]] = [full, h(norm(f["head"].split("\n"))) if f.get("head") and f["kind"] != "trait" else full]
        rest = h(norm([l for i, l in enumerate(self.lines, 1) if i not in inside]))
        return {"fns": fns, "rest": rest}

    def filter_unchanged(self):
        """a failing obligation whose function, callee contracts, types and lemmas are all textually those the
        contracts were discharged on is the same formula: its failure says something about the solver, not the code"""
        try:
            base = json.load(open(BASELINE))
        except (OSError, ValueError):
            return
        now = self.texts()
        heads = all(base["fns"][k][1] == v[1] for k, v in now["fns"].items() if k in base["fns"])
        if now["rest"] != base["rest"] or not heads:
            return
        for f in self.fails:
            b = base["fns"].get(f["fn"])
            if (b and b[0] == now["fns"].get(f["fn"], [None])[0]) or f["clause"] == "lemma":
                f["decided"] = False
                f.setdefault("undecided", []).append("same formula as on the tree the contracts were discharged on")

    VC = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
          "possible arithmetic", "possible division", "Resource limit", "resource limit", "loop invariant", "decreases not satisfied",
          "recommendation not met", "could not prove termination", "possible bit", "function body check", "possible overflow", "spinoff", "unable to prove", "constructed value may fail", "not satisfied", "index out of bounds", "split ")

    def is_vc(self, d):
        return any(x in d["message"] for x in self.VC) and not d.get("code")

    def collect(self, out, errs):
        tm = out["times-ms"]
        self.solver_ms = tm["smt"].get("total", 0)
        for m in tm["smt"]["smt-run-module-times"]:
            for f in m.get("function-breakdown", []):
                self.units[f["function"]] = (f.get("success", True), f.get("time", 0))
        self.verified = out["verification-results"]["verified"]
        self.errors = out["verification-results"]["errors"]
        weak = {f["key"].split("::")[-1] for f in self.fns if f["kind"] in ("uncontracted", "demoted") or f["lost"]}
        weak = {re.sub(r"<.*", "", w) for w in weak} - {"from", "try_from", "fmt", "to_string", "into", "new", "clone"}
        for d in errs:
            sp = self.spans(d)
            msg = d["message"]
            body = clause = None
            for (l, prim, lab) in sp:
                if "failed this postcondition" in lab:
                    clause = l
                else:
                    f = self.fn_at(l)
                    if f and f["kind"] == "proved" and "failed precondition" not in lab:
                        body = f
            if body is None:
                for (l, prim, lab) in sp:
                    f = self.fn_at(l)
                    if f and f["kind"] == "proved":
                        body = f
            rec = {"message": msg, "rendered": d.get("rendered", "")[:3000]}
            gen = next((f for f in (self.fn_at(l) for (l, p, _) in sp) if f and f["kind"] == "derived"), None)
            if body is None and gen:
                rec.update(fn=gen["key"], props=gen["props"], decided="esource limit" not in msg, undecided=[], clause="derived")
                self.fails.append(rec)
                continue
            if body is None:
                n, tags = None, []
                for (l, prim, lab) in sp:
                    n, tags = self.lib_at(l)
                    if n:
                        break
                rec.update(fn=n or "?", props=tags, decided="Resource limit" not in msg and "resource limit" not in msg, clause="lemma")
                self.fails.append(rec)
                continue
            text = "\n".join(self.lines[body["start"] - 1:body["end"]])
            calls = set(re.findall(r"\b(\w+)\s*\(", text))
            undecided = []
            if calls & weak:
                undecided.append("calls functions without a contract: " + ", ".join(sorted(calls & weak)))
            if "esource limit" in msg:
                undecided.append("resource limit")
            if body.get("shapes", []) != SHAPES.get(body["key"], []):
                undecided.append("loops rewritten: the invariants belong to another loop structure")
            if body["key"] in SOFT:
                undecided.append("a sufficient contract, not a necessary one")
            if body["lost"] or body["unsupported"]:
                undecided.append("anchors lost")
            w = sorted(k for k, rx in WEAK_CALLS.items() if len(re.findall(rx, text)) > BASE_WEAK.get(body["key"], {}).get(k, 0))
            if w:
                undecided.append("uses operations whose specification is too weak to decide by: " + ", ".join(w))
            props = body["props"]
            ctext = ""
            if clause:
                ctext = self.lines[clause - 1].strip()
                tags = re.findall(r"C\d\d", " ".join(re.findall(r"/\*(.*?)\*/", ctext)))
                if tags:
                    props = tags
            elif "precondition" in msg or "arithmetic" in msg or "index" in msg or "division" in msg:
                prim = [l for (l, p, _) in sp if p]
                ctext = self.lines[prim[0] - 1].strip() if prim else ""
                panic = re.search(r"vx_unwrap|vx_unreachable|vx_panic|vx_expect|\[|split_at|\+|-|\*", ctext)
                if panic and "C16" in props:
                    props = ["C16"] + [p for p in props if p in ()]
            else:
                prim = [l for (l, p, _) in sp if p]
                ctext = self.lines[prim[0] - 1].strip() if prim else ""
            rec.update(fn=body["key"], props=sorted(set(props)), decided=not undecided, undecided=undecided, clause=ctext)
            self.fails.append(rec)

    def probe(self, kinds):
        """vacuity: with `assert(false)` planted, every contracted function must fail"""
        res = {}
        for k in kinds:
            if not self.extract(k):
                res[k] = {"error": self.why}
                continue
            rc, out, diags, raw = self.verus(["--multiple-errors", "1"] if False else [])
            hit = set()
            for d in diags:
                if d["level"] == "error":
                    for (l, p, lab) in self.spans(d):
                        f = self.fn_at(l)
                        if f:
                            hit.add(f["key"])
            want = [f["key"] for f in self.fns if f["kind"] == "proved" and f.get("probed")]
            res[k] = {"probed": len(want), "vacuous": [w for w in want if w not in hit]}
        self.extract()
        return res


def harness(pid, tier, seed, work):
    """executable form of the property against the real code"""
    mod = os.path.join(V, "harness")
    cfg = os.path.join(mod, "props.json")
    if not os.path.exists(cfg):
        return {"ran": False, "why": "no harness"}
    which = json.load(open(cfg)).get(pid)
    if not which:
        return {"ran": False, "why": "no harness for this property"}
    crate = os.path.join(mod, which)
    tgt = os.path.join(mod, "target")
    env = {"CARGO_TARGET_DIR": tgt, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "-Awarnings"}
    # the lock file is /repo's own, so the harness runs with the dependencies the project runs with
    shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(crate, "Cargo.lock"))
    rc, o, e, bt = sh(["cargo", "+" + TOOLCHAIN, "build", "--offline", "--quiet"], 600, env=env, cwd=crate)
    if rc != 0:
        return {"ran": False, "why": "harness does not build against this tree: " + e[-600:], "build_s": bt}
    left = max(60, (420 if tier == "quick" else 780) - bt)
    rep = os.path.join(work, "witness.json")
    budget = 12 if tier == "quick" else 240
    rc, o, e, rt = sh([os.path.join(tgt, "debug", which), pid, tier, str(seed), rep, str(budget)], left, env={"RUST_BACKTRACE": "0"}, cwd=work)
    r = {"ran": True, "rc": rc, "build_s": round(bt, 1), "run_s": round(rt, 1)}
    for l in o.split("\n"):
        if l.startswith("STATS "):
            r["stats"] = json.loads(l[6:])
    if rc == 1 and os.path.exists(rep):
        r["witness"] = json.load(open(rep))
    elif rc != 0:
        # a crash of the real code outside catch_unwind (stack overflow, abort), or a timeout
        r["crash"] = (e or o)[-1500:]
        if os.path.exists(rep + ".cur"):
            r["current"] = open(rep + ".cur").read()[:2000]
    return r


def scan_trusted(pr):
    n_ext = sum(1 for l in pr.lines if "external_body" in l)
    assume = [i for i, l in enumerate(pr.lines) if re.search(r"\b(assume|admit)\s*\(", l) and "vstd::pervasive::unreached()" not in l]
    ax = [m.group(1) for l in pr.lines for m in [re.search(r"(?:axiom|proof) fn (axiom_\w+)", l)] if m]
    return n_ext, len(assume), ax


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--write-baseline", action="store_true", help="after a change of contracts: record shapes.json and baseline.json")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = os.path.join(V, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)

    if a.write_baseline:
        pr = Proof(work, tier)
        pr.run()
        assert pr.ok and not pr.fails and not pr.demoted, (pr.why, pr.fails, pr.demoted)
        json.dump(pr.texts(), open(BASELINE, "w"), indent=0, sort_keys=True)
        json.dump({f["key"]: f["shapes"] for f in pr.fns if f.get("shapes")}, open(os.path.join(V, "contracts", "shapes.json"), "w"), indent=0, sort_keys=True)
        weak = {}
        for f in pr.fns:
            t = "\n".join(pr.lines[f["start"] - 1:f["end"]])
            n = {k: len(re.findall(rx, t)) for k, rx in WEAK_CALLS.items()}
            if any(n.values()):
                weak.setdefault(f["key"], {}).update({k: v for k, v in n.items() if v})
        json.dump(weak, open(WEAK, "w"), indent=0, sort_keys=True)
        print("baseline of %d functions" % len(pr.fns))
        return 0
    hres = {}

    def hrun():
        try:
            hres.update(harness(pid, tier, seed, work))
        except Exception as x:
            hres.update(ran=False, why="harness driver: %r" % (x,))

    th = threading.Thread(target=hrun)
    th.start()
    pr = Proof(work, tier)
    pr.run()
    mine, other, undecided = [], [], []
    own = []
    if pr.ok:
        for f in pr.fails:
            if pid in f["props"]:
                (mine if f["decided"] else undecided).append(f)
            elif not f["props"]:
                undecided.append(f)
            else:
                other.append(f)
        own = [f for f in pr.fns if pid in f["props"]]
    proved = [f for f in own if f["kind"] == "proved" and not f["lost"]]
    weak = [f for f in own if f["kind"] != "proved" or f["lost"]]
    weak = [f for f in weak if f["kind"] not in ("trait", "derived")]
    missing = pr.map.get("missing", []) if pr.ok else []
    vac = {}
    if pr.ok and tier == "thorough":
        vac = pr.probe(["start", "end"])
    if pr.ok and not proved:
        undecided.append({"fn": "-", "message": "no function of this property is under contract in this tree", "props": [pid], "decided": False})

    th.join()
    h = hres

    known = []
    kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get("findings", []) if k.get("property") == pid]

    # ---- outcome
    viol = None
    if h.get("witness") is not None:
        w = h["witness"]
        hit = [k for k in known if k.get("signature") == w.get("signature")]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"]))
        else:
            viol = ("input", w)
    elif h.get("crash") is not None and h["rc"] in (-6, -11, -4, -7, 134, 139, 101):
        viol = ("input", {"crash": h["crash"], "input": h.get("current")})
    if viol is None and mine:
        viol = ("obligation", mine)
    for k in known:
        if not k.get("signature"):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    # ---- evidence
    clauses = 0
    for f in proved:
        for l in pr.lines[f["start"] - 1:f["end"]]:
            for m in re.findall(r"/\*((?:C\d\d ?)+)\*/", l):
                clauses += pid in m
    n_ext, n_assume, axs = scan_trusted(pr) if pr.ok else (0, 0, [])
    failed_fns = {f["fn"] for f in mine + undecided}
    libs = [u for u in pr.units if re.match(r"vxv::(vx|spec|graph|db|ext|svc)::", u)]
    obligations = len(proved) + len(libs)
    discharged = len([f for f in proved if f["key"] not in failed_fns]) + len([u for u in libs if pr.units[u][0]])
    full = pr.ok and not mine and not undecided and not weak and proved
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "verus (Z3 4.12 back end) on the crate extracted from %s: %d functions and lemmas verified, %d errors, %d run(s)" % (REPO, getattr(pr, "verified", 0), getattr(pr, "errors", 0), pr.runs),
        "trusted_base": [
            "extractor (syn-based translation; rules in DESIGN.md)", "Verus, vstd and Z3",
            "%d external_body declarations (contracts of dependencies in contracts/ext.rs, std shims in contracts/vx.rs, generated derives)" % n_ext,
            "axioms: " + ", ".join(sorted(set(axs))),
        ],
        "functions_under_contract": sorted(f["key"] for f in proved),
        "postconditions_of_this_property": clauses,
        "supporting_lemmas": len(libs),
        "solver_ms": pr.solver_ms,
        "assume_statements": n_assume,
        "not_under_contract_in_this_tree": sorted("%s (%s)" % (f["key"], "; ".join(f["lost"] + f["unsupported"]) or f["trusted"] or f["kind"]) for f in weak),
        "contracts_without_code": missing,
        "demoted": pr.notes,
        "proof_status": "discharged" if full else ("failed" if mine else "partly decided"),
        "bounded_witness_search": {k: v for k, v in h.items() if k not in ("witness",)},
    }
    if not pr.ok:
        cov["proof_status"] = "not decided: " + pr.why
    if undecided:
        cov["undecided"] = [{"fn": f["fn"], "message": f["message"], "why": f.get("undecided")} for f in undecided][:20]
    if vac:
        cov["vacuity_probes"] = vac
    st = h.get("stats") or {}
    for k in ("evaluations", "distinct_nontrivial", "rule", "samples"):
        if k in st:
            cov[k] = st[k]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
        "assumptions": [
            "dependency contracts (crypto primitives are functions of their inputs; bs58, libp2p-identity, sqlite connector as specified in contracts/ext.rs)",
            "allocation never fails; usize is 64 bit; Debug formatting and logging have no effect",
            "bounded: whatever bounded_witness_search covers is a sampled/bounded check and never counted as proved",
        ],
        "wall_s": round(time.time() - t0, 1), "violations": 1 if viol else 0,
    }
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    if not viol:
        tail = "" if full else " (%s; bounded check of the real code: %s)" % (cov["proof_status"], "clean" if h.get("ran") else h.get("why", "")[:200])
        print("OK property=%s functions=%d lemmas=%d wall=%.0fs%s" % (pid, len(proved), len(libs), time.time() - t0, tail))
        return 0
    rdir = os.path.join(V, "work", "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, "%s.json" % pid)
    json.dump({"property": pid, "kind": viol[0], "witness": viol[1] if viol[0] == "input" else None,
               "failed_obligations": mine, "undecided_obligations": undecided[:10],
               "replay": "with /repo in the failing state: bash harness/replay.sh %s (rebuilds the harness and re-runs the case named in witness)" % pid}, open(rp, "w"), indent=1)
    for f in mine[:6]:
        print("failed obligation: %s: %s: %s" % (f["fn"], f["message"], f["clause"]))
    if viol[0] == "input":
        print("failing input: " + json.dumps(viol[1])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
    return 1


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as x:  # a defect of the driver is no verdict on the code
        import traceback
        traceback.print_exc()
        sys.exit(3)
