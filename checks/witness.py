"""Type-level witnesses: accept/reject probes decided by the compiler's type checker alone.

Each probe is one function on one line with its own frame tags, so every diagnostic can be attributed
to exactly one probe.  'bad' probes must not type-check, 'ok' probes must.  Nothing is linked or run.
"""
import os, re
from concurrent.futures import ThreadPoolExecutor

FLAGS = ["-std=c++17", "-fsyntax-only", "-w", "-DNDEBUG", "-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics",
         "-fno-color-diagnostics", "-ftemplate-depth=400"]
NTU = 8
# tests run on g++ as configured; the same probes are decided with the clang front end


class Probe:
    __slots__ = ("kind", "label", "args", "body", "tail", "group", "internal")

    def __init__(self, kind, label, args, body, tail="", group="", internal=False):
        self.kind, self.label, self.args, self.body, self.tail, self.group, self.internal = kind, label, args, body, tail, group, internal


HEAD = """#include "probe.hpp"
"""


def text(i, p, confirm=False):
    body = p.body + (p.tail if confirm else "")
    return "namespace p%d { struct A; struct B; struct C; struct D; struct E; struct F; struct Z; [[maybe_unused]] void f(%s) { %s } }" % (i, p.args, body)


def compile_chunk(idx, chunk, work, INC, sh, confirm=False, extra=()):
    """chunk: list of (i, probe) -> dict i -> [diagnostic]"""
    fn = os.path.join(work, "probe_%s%d.cpp" % ("c" if confirm else "", idx))
    lines = HEAD.splitlines()
    where = {}
    with open(fn, "w") as f:
        for l in lines:
            f.write(l + "\n")
        n = len(lines)
        for i, p in chunk:
            n += 1
            where[n] = i
            f.write(text(i, p, confirm) + "\n")
    rc, o, e = sh(["clang++"] + FLAGS + list(extra) + INC + [fn], 800)
    errs = {}
    stray = []
    cur = None
    base = os.path.basename(fn)

    def close(c):
        if c is None:
            return None
        i = where.get(c["line"])
        if i is None:       # clang prints the instantiation stack once: fall back on the probe's own tags
            m = re.search(r"\bp(\d+)::", c["msg"] + " " + c.get("names", ""))
            i = int(m.group(1)) if m else c.get("after")
        if i is None:
            stray.append(c)
        else:
            errs.setdefault(i, []).append(c)
        return i
    for ln in e.splitlines():
        m = re.match(r"(.*?):(\d+):(\d+): (fatal error|error|note): (.*)", ln)
        if not m:
            continue
        fl, l, _, kind, msg = m.groups()
        if "error" in kind:
            prev = close(cur)
            cur = {"at": "%s:%s" % (fl, l), "msg": msg, "line": int(l) if os.path.basename(fl) == base else None, "via": [], "names": "", "after": prev}
        elif cur is not None and cur["line"] is None:
            if os.path.basename(fl) == base:
                cur["line"] = int(l)
            elif not cur["names"] and re.search(r"\bp\d+::", msg):
                cur["names"] = msg
            elif "requested here" in msg and len(cur["via"]) < 6:
                cur["via"].append("%s:%s" % (fl, l))
    close(cur)
    if rc not in (0, 1):
        stray.append({"at": fn, "msg": "compiler ended with %d" % rc, "line": None})
    os.remove(fn)
    return errs, stray


def locate(ps, work, INC, REPO, sh):
    """the expression class an accepted program builds, as file:line"""
    todo = [(i, Probe("bad", "", p.args, p.body + " undefined_template<decltype(e)> wg_show;")) for i, p in ps if "auto e = " in p.body][:200]
    if not todo:
        return {}
    er, _ = compile_chunk(99, todo, work, INC, sh)
    out, defs = {}, {}
    for i, es in er.items():
        m = next((re.search(r"undefined_template<wave::(\w+)", e["msg"]) for e in es if "undefined_template" in e["msg"]), None)
        if not m:
            continue
        n = m.group(1)
        if n not in defs:
            rc, o, _ = sh(["grep", "-rnE", r"(struct|class) %s( |$)|EXPRESSION\(%s" % (n, n), REPO + "/include/wave/geometry/src"])
            ls = [l for l in o.splitlines() if not l.split(":", 2)[2].rstrip().endswith(";") or "EXPRESSION(" in l]
            defs[n] = ":".join(ls[0].split(":")[:2]) if ls else None
        if defs[n]:
            out[i] = defs[n]
    return out


def run(gen, work, tier, INC, REPO, sh):
    import probes
    ps = getattr(probes, gen)(tier)
    viol, und = [], []
    n = NTU
    # interleave so chunks cost the same
    chunks = [[(i, p) for i, p in enumerate(ps) if i % n == k] for k in range(n)]
    chunks = [c for c in chunks if c]
    errs, stray = {}, []
    with ThreadPoolExecutor(n) as ex:
        for er, st in ex.map(lambda a: compile_chunk(a[0], a[1], work, INC, sh), enumerate(chunks)):
            errs.update(er)
            stray += st
    if stray:
        return ([{"what": "the library's headers do not type-check by themselves: %s" % s["msg"], "where": s["at"], "driver": "type-level",
                  "entry": "", "label": "headers", "kind": "witness"} for s in stray[:5]], und,
                dict(obligations=len(ps), discharged=0, probes=len(ps)))
    unexpected = [(i, p) for i, p in enumerate(ps) if p.kind == "bad" and i not in errs]
    if unexpected:
        # the program is only wrong if it is still accepted when its value is used
        later = {}
        if any(p.tail for _, p in unexpected):
            later, _ = compile_chunk(0, unexpected, work, INC, sh, confirm=True)
        place = locate(unexpected, work, INC, REPO, sh)
        for i, p in unexpected:
            if i in later:
                und.append("probe rejected only when evaluated: " + p.label)
                continue
            viol.append({"what": "ill-formed program is accepted: %s   { %s | %s }" % (p.label, p.args, p.body), "where": place.get(i, REPO + "/include/wave/geometry/src/geometry/frames/Framed.hpp"),
                         "driver": "type-level", "entry": p.group, "label": p.label, "kind": "witness"})
    for i, p in enumerate(ps):
        if p.kind == "ok" and i in errs:
            e = errs[i][0]
            if p.internal and e["msg"].startswith(("no member named", "no type named", "no template named", "use of undeclared")):
                und.append("probe names an internal interface that is gone: " + p.label)
                continue
            viol.append({"what": "well-formed program is rejected: %s: %s   { %s | %s }" % (p.label, e["msg"], p.args, p.body), "where": e["at"],
                         "driver": "type-level", "entry": p.group, "label": p.label, "kind": "witness"})
    groups = {}
    for p in ps:
        g = groups.setdefault(p.group, [0, 0])
        g[p.kind == "bad"] += 1
    st = dict(obligations=len(ps), discharged=len(ps) - len(viol) - len(und), probes=len(ps), accepted_required=sum(p.kind == "ok" for p in ps),
              rejected_required=sum(p.kind == "bad" for p in ps), groups={g: "%d accept / %d reject" % tuple(v) for g, v in groups.items()},
              samples=["%s %s" % (p.kind, p.label) for p in ps[:: max(1, len(ps) // 8)]])
    return viol, und, st


if __name__ == "__main__":   # development: witness.py GEN [tier]
    import sys, subprocess, tempfile, time
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    R = os.environ.get("WG_REPO", "/repo")

    def _sh(cmd, t=600):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout.decode(), p.stderr.decode()
    t0 = time.time()
    with tempfile.TemporaryDirectory() as w:
        v, u, s = run(sys.argv[1], w, sys.argv[2] if len(sys.argv) > 2 else "quick",
                      ["-I" + R + "/include", "-I" + R + "/3rd-party/Tick", "-isystem", "/usr/include/eigen3", "-I" + here + "/../drivers"], R, _sh)
    for x in v:
        print(x["what"], "AT", x["where"])
    for x in u:
        print("UND", x)
    print({k: x for k, x in s.items()}, "viol", len(v), "%.1fs" % (time.time() - t0))
