#!/usr/bin/env python3
"""Run the check of one property: run.py <ID> [--tier quick|thorough]

Every run compiles the drivers against /repo's current headers (to LLVM IR, or type-check only),
analyses the result, writes evidence/<ID>.json and prints VIOLATION / KNOWN-FINDING lines.
Nothing produced from /repo's code is executed.
"""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("WG_REPO", "/repo")
sys.path.insert(0, HERE)
import config          # noqa: E402
import witness         # noqa: E402
import lints           # noqa: E402

INC = ["-I" + REPO + "/include", "-I" + REPO + "/3rd-party/Tick", "-isystem", "/usr/include/eigen3",
       "-I" + VERIF + "/drivers"]
IRFLAGS = ["-std=c++17", "-w", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only",
           "-fno-discard-value-names", "-DEIGEN_DONT_VECTORIZE", "-fno-vectorize", "-fno-slp-vectorize",
           "-fno-exceptions", "-fno-rtti", "-ferror-limit=0", "-ftemplate-backtrace-limit=0",
           "-fno-caret-diagnostics", "-fno-color-diagnostics"]
JOBS = int(os.environ.get("WG_JOBS", "8"))


# a quick check has to answer within 900 s: what is not analysed by then is reported as undecided
T0 = time.time()
BUDGET = dict(quick=(680, 800), thorough=(3000, 3300))
LIMIT = [T0 + 680, T0 + 800]


class TimeBudget(Exception):
    pass


def sh(cmd, timeout=600):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(1, min(timeout, LIMIT[1] - time.time())))
    except subprocess.TimeoutExpired:
        raise TimeBudget("time budget of the check exhausted")
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")


def ensure_analyser():
    b = os.path.join(VERIF, "build")
    os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = os.path.join(b, "irflow")
        srcs = [os.path.join(VERIF, "tools", f) for f in ("irflow.cpp", "domain.hpp", "intrinsics.hpp", "main.hpp")]
        if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in srcs):
            subprocess.check_call(["bash", os.path.join(VERIF, "tools", "build.sh")], stdout=sys.stderr)
    return exe


def errors_of(err, driver):
    """compile errors -> list of (driver line, message, place of the error)"""
    out = []
    cur = None
    base = os.path.basename(driver)
    for ln in err.splitlines():
        m = re.match(r"(.*?):(\d+):(\d+): (fatal error|error|note): (.*)", ln)
        if not m:
            m2 = re.match(r"In file included from (.*?):(\d+)", ln)
            continue
        f, l, _, kind, msg = m.groups()
        if "error" in kind:
            cur = {"file": f, "line": int(l), "msg": msg, "driver": int(l) if os.path.basename(f) == base else None}
            out.append(cur)
        elif cur is not None and os.path.basename(f) == base:
            if "requested here" in msg or cur["driver"] is None:
                cur["driver"] = int(l)
    return out


def run_driver(exe, work, job, seed, tier):
    """job: dict(file, defs, entries) -> dict(result)"""
    src = os.path.join(VERIF, "drivers", job["file"])
    name = job["file"].replace(".cpp", "") + "".join("_" + d.replace("=", "") for d in job.get("defs", []))
    bc = os.path.join(work, name + ".bc")
    js = os.path.join(work, name + ".json")
    key = None
    if os.environ.get("WG_CACHE"):      # development aid only
        h = hashlib.sha256(json.dumps([job, seed, tier], sort_keys=True).encode())
        h.update(open(exe, "rb").read())
        for root, _, fs in sorted(os.walk(REPO + "/include")):
            for f in sorted(fs):
                h.update(open(os.path.join(root, f), "rb").read())
        h.update(open(src, "rb").read())
        for f in sorted(os.listdir(os.path.join(VERIF, "drivers"))):
            if f.endswith(".hpp"):
                h.update(open(os.path.join(VERIF, "drivers", f), "rb").read())
        cdir = os.path.join(VERIF, "build", "cache")
        os.makedirs(cdir, exist_ok=True)
        key = os.path.join(cdir, h.hexdigest())
        if os.path.exists(key):
            return json.load(open(key))
    t0 = time.time()
    flags = IRFLAGS + ([] if job.get("debug") else ["-DNDEBUG"]) + ["-D" + d for d in job.get("defs", [])]
    if tier == "thorough":
        flags.append("-DWG_THOROUGH=1")
    rc, o, e = sh(["clang++"] + flags + INC + ["-c", "-emit-llvm", src, "-o", bc])
    res = {"job": name, "file": job["file"], "compile_s": round(time.time() - t0, 1)}
    if rc != 0:
        res["compile_errors"] = errors_of(e, src) or [{"file": src, "line": 0, "msg": e[:500], "driver": None}]
    else:
        t1 = time.time()
        n = int(job.get("shards", 4 if job.get("variants") else 1))
        with ThreadPoolExecutor(n) as ex:
            outs = list(ex.map(lambda i: sh([exe, "--deadline", str(int(LIMIT[0])), "--seed", str(seed), "--json", "%s.%d" % (js, i), "--shard", str(i), "--shards", str(n)] +
                                            (["--variants"] if job.get("variants") else []) +
                                            (["--near-tol", str(job["neartol"])] if job.get("neartol") else []) + [bc], timeout=9999), range(n)))
        bad = [(rc, o, e) for rc, o, e in outs if rc != 0]
        if bad:
            rc, o, e = bad[0]
            res["tool_error"] = (e or o)[-800:] + " rc=%d" % rc
        else:
            rep = None
            for i in range(n):
                r = json.load(open("%s.%d" % (js, i)))
                if rep is None:
                    rep = r
                else:
                    for k in ("entries", "functions", "lines"):
                        rep[k] += r[k]
                    rep["steps"] += r["steps"]
            res["report"] = rep
        res["analysis_s"] = round(time.time() - t1, 1)
    for f in [bc] + ["%s.%d" % (js, i) for i in range(16)]:
        if os.path.exists(f):
            os.remove(f)
    if key and "tool_error" not in res:
        json.dump(res, open(key, "w"))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    pid = a.pid
    LIMIT[:] = [T0 + x for x in BUDGET[tier]]
    cfg = config.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="wg_%s_" % pid)
    viol, undecided, cov = [], [], {}
    stats = dict(obligations=0, discharged=0)
    try:
        jobs = [j for j in cfg.get("drivers", []) if tier == "thorough" or not j.get("thorough")]
        if tier == "thorough":
            jobs = [dict(j, variants=True, shards=8) if j.get("tvariants") else j for j in jobs]
        fnset, lineset, entries, parts, steps, samples, guards = set(), set(), 0, 0, 0, [], set()
        nvar = nvaru = 0
        if jobs:
            exe = ensure_analyser()
        probes = cfg.get("witness")
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [(j, s, ex.submit(run_driver, exe, work, {k: v for k, v in j.items() if k in ("file", "defs", "debug", "variants", "shards", "neartol")}, s, tier))
                    for j in jobs for s in ([seed] if tier == "quick" else [seed, seed + 7, seed + 1000])]
            wf = ex.submit(witness.run, probes, work, tier, INC, REPO, sh) if probes else None
            lf = [ex.submit(getattr(lints, l), work, tier, INC, REPO, VERIF, sh) for l in cfg.get("lints", [])]
            for j, s, f in futs:
                try:
                    r = f.result()
                except TimeBudget as x:
                    undecided.append("%s %s: %s" % (j["file"], " ".join(j.get("defs", [])), x))
                    continue
                kinds = j["kinds"]
                ent_re = re.compile(j.get("entries", ".*"))
                if "compile_errors" in r:
                    errs = r["compile_errors"]
                    gone = [e for e in errs if e["driver"] == e["line"] and os.path.basename(e["file"]) == j["file"] and
                            (j.get("internal") or re.search(r"no (member|type|template|type named|member named|template named).*(wave::internal|'wi')", e["msg"]))]
                    if gone and (len(gone) == len(errs) or not j.get("internal")):
                        undecided.append("%s no longer type-checks against the internal interface it names: %s" % (r["job"], errs[0]["msg"]))
                        continue
                    seen = set()
                    for e in errs:
                        k = (e["driver"], e["msg"])
                        if k in seen:
                            continue
                        seen.add(k)
                        viol.append({"what": "well-formed use of the library does not compile: " + e["msg"],
                                     "where": "%s:%s (used at drivers/%s:%s)" % (e["file"], e["line"], j["file"], e["driver"]),
                                     "driver": j["file"], "entry": "", "label": "compile", "kind": "compile"})
                    stats["obligations"] += len(seen)
                    continue
                if "tool_error" in r:
                    undecided.append("analyser: " + r["job"] + ": " + r["tool_error"])
                    continue
                rep = r["report"]
                fnset.update(rep["functions"])
                lineset.update(rep["lines"])
                for en in rep["entries"]:
                    if not ent_re.search(en["entry"]):
                        continue
                    entries += 1
                    parts += en["partitions"]
                    steps += en["steps"]
                    guards.update(en["guards"])
                    nvar += en["variants"]
                    nvaru += en["variants_undecided"]
                    nob = 0
                    for ob in en["obligations"]:
                        if ob["kind"] not in kinds:
                            continue
                        if j.get("labels") and not re.search(j["labels"], ob["label"]):
                            continue
                        nob += 1
                        stats["obligations"] += 1
                        if ob["status"] == "ok":
                            stats["discharged"] += 1
                            if len(samples) < 6 and stats["obligations"] % 37 == 1:
                                samples.append("%s: %s %s" % (en["entry"], ob["kind"], ob["label"]))
                        elif ob["status"] == "fail":
                            viol.append({"what": "%s: %s" % (ob["label"], ob["detail"]), "where": ob["where"], "driver": j["file"],
                                         "entry": en["entry"], "label": ob["label"], "kind": ob["kind"]})
                        else:
                            undecided.append("%s %s: %s" % (en["entry"], ob["label"], ob["detail"]))
                    evs = [e for e in en["events"] if e["kind"] in kinds or (e["kind"] not in ("purity", "alloc") and not j.get("noevents"))]
                    if en["events"] or True:
                        # absence of events is itself one obligation per entry
                        stats["obligations"] += 1
                        if not evs and not en["undecided"]:
                            stats["discharged"] += 1
                    for e in evs:
                        viol.append({"what": "%s: %s" % (e["kind"], e["what"]), "where": e["where"], "stack": e["stack"],
                                     "driver": j["file"], "entry": en["entry"], "label": e["what"], "kind": e["kind"]})
                    if not evs:
                        for u in en["undecided"]:
                            undecided.append("%s: %s" % (en["entry"], u))
            if wf:
                try:
                    wv, wu, wst = wf.result()
                except TimeBudget as x:
                    wv, wu, wst = [], ["type-level questions: %s" % x], dict(obligations=0, discharged=0)
                viol += wv
                undecided += wu
                stats["obligations"] += wst["obligations"]
                stats["discharged"] += wst["discharged"]
                samples += wst.get("samples", [])[:6]
                cov["type_level"] = {k: v for k, v in wst.items() if k not in ("samples",)}
            for l, f in zip(cfg.get("lints", []), lf):
                try:
                    lv, lu, lst = f.result()
                except TimeBudget as x:
                    lv, lu, lst = [], ["%s: %s" % (l, x)], dict(obligations=0, discharged=0)
                viol += lv
                undecided += lu
                stats["obligations"] += lst.pop("obligations")
                stats["discharged"] += lst.pop("discharged")
                samples += lst.pop("samples", [])[:4]
                cov["lint_" + l] = lst
        if jobs:
            cov.update({"entries": entries, "path_partitions": parts, "special_operand_variants": nvar, "special_operand_variants_not_fully_explored": nvaru, "ir_instructions_interpreted": steps,
                        "functions_analysed": len(fnset), "library_lines_covered": len(lineset),
                        "guards_partitioned": sorted(guards)[:40]})
        if tier == "quick" and stats["obligations"] < cfg.get("floor", 1) and not viol:
            undecided.append("floor: %d obligations generated, expected at least %d" % (stats["obligations"], cfg["floor"]))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
             if k["property"] == pid and not k.get("fixed")]
    hit, new = {}, []
    for v in viol:
        for k in known:
            if all(re.search(rx, str(v.get(f, ""))) for f, rx in k["match"].items()):
                hit[k["id"]] = k
                break
        else:
            new.append(v)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rp = os.path.join("evidence", pid + ".violations.json")
    rpath = os.path.join(VERIF, rp)
    if os.path.exists(rpath):
        os.remove(rpath)
    level = cfg["level"]
    cov.update({"obligations": stats["obligations"], "discharged": stats["discharged"],
                "known_findings": len(hit), "undecided": sorted(set(undecided))[:60], "undecided_count": len(set(undecided)),
                "samples": samples[:10], "rule": cfg["rule"],
                "explanation": cfg["explanation"],
                "checker_cmd": "python3 checks/run.py %s --tier %s" % (pid, tier),
                "trusted_base": cfg.get("trusted", config.TRUSTED)})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", config.ASSUME), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for u in sorted(set(undecided))[: (200 if a.v else 5)]:
        print("undecided: " + u)
    if new:
        json.dump({"property": pid, "violations": new}, open(rpath, "w"), indent=1)
        for v in new[: (200 if a.v else 12)]:
            print("  %s %s [%s] at %s%s" % (v["driver"], v["entry"], v["kind"], v["where"], ": " + v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s %s: %d obligations, %d discharged, %d undecided, %d known, %.1fs" %
          (pid, tier, stats["obligations"], stats["discharged"], len(set(undecided)), len(hit), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
