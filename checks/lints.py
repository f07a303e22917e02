"""Lints over the preprocessed headers, their syntax trees and their compiled symbols."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor

USES = {  # a use of each public header through its documented interface alone
    "core.hpp": "",
    "geometry.hpp": "wave::Translationd f_N(const wave::RotationMd &a, const wave::Translationd &b) { return wave::Translationd{a * b}; }\n"
                    "auto g_N(const wave::RotationQd &a, const wave::RotationMd &b) { return (a * inverse(b)).evalWithJacobians(a, b); }\n"
                    "auto h_N() { return wave::RigidTransformMd::Random(); }\n",
    "dynamic.hpp": "wave::Translationd d_N(const wave::Proxy<wave::Translationd> &a, const wave::Translationd &b) { return wave::Translationd{a + b}; }\n",
    "estimation.hpp": "auto e_N(const Eigen::Vector3d &v) { return wave::DiagonalNoise<wave::Translationd>::FromStdDev(v); }\n",
    "debug.hpp": "",
}
GEOM = {"geometry.hpp", "estimation.hpp", "debug.hpp"}
NAMESPACES = {"wave", "Eigen"}   # Eigen: operators and traits of the structured matrices


def _headers(repo):
    root = os.path.join(repo, "include", "wave", "geometry")
    return sorted(f for f in os.listdir(root) if f.endswith(".hpp"))


def headers(work, tier, INC, REPO, VERIF, sh):
    viol, und = [], []
    st = dict(obligations=0, discharged=0, samples=[])
    pub = _headers(REPO)
    inc = [i for i in INC]

    def src(name, text):
        p = os.path.join(work, name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def errs(e):
        for line in e.splitlines():
            m = re.match(r"(\S+?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)", line)
            if m:
                return "%s:%s" % (m.group(1), m.group(2)), m.group(3)[:300]
        return "", e[:300]

    def note(ok, sample=None):
        st["obligations"] += 1
        if ok:
            st["discharged"] += 1
            if sample and len(st["samples"]) < 8:
                st["samples"].append(sample)

    # 1. each header alone, twice, and after / before each other
    jobs = []
    for cc in ("clang++", "g++"):
        for a in pub:
            jobs.append((cc, (a,), "alone"))
            if cc == "g++" and tier != "thorough":
                continue
            jobs.append((cc, (a, a), "included twice"))
            for b in pub:
                if a != b:
                    jobs.append((cc, (a, b), "in this order"))

    def one(ix):
        cc, hs, how = jobs[ix]
        text = "".join("#include <wave/geometry/%s>\n" % h for h in hs)
        seen = set()
        for h in hs:
            if h not in seen:
                if h != "dynamic.hpp" or set(hs) & GEOM:   # dynamic.hpp itself only brings core.hpp
                    text += USES.get(h, "").replace("_N", "_%d" % len(seen))
            seen.add(h)
        p = src("h%d.cpp" % ix, text)
        rc, o, e = sh([cc, "-std=c++17", "-w", "-fsyntax-only"] + inc + [p])
        return rc, e

    with ThreadPoolExecutor(int(os.environ.get("WG_JOBS", "8"))) as ex:
        for (cc, hs, how), (rc, e) in zip(jobs, ex.map(one, range(len(jobs)))):
            note(rc == 0, "%s: %s %s" % (cc, ", ".join(hs), how))
            if rc != 0:
                w, m = errs(e)
                viol.append({"what": "%s does not compile with %s %s: %s" % (" then ".join(hs), cc, how, m), "where": w,
                             "driver": "", "entry": "headers", "label": "compile", "kind": "compile"})
    if viol:
        return viol, und, st

    # 2. nothing with strong linkage: the headers can be in any number of translation units
    allsrc = src("all.cpp", "".join("#include <wave/geometry/%s>\n" % h for h in pub))
    rc, o, e = sh(["clang++", "-std=c++17", "-w", "-O0", "-g", "-S", "-emit-llvm"] + inc + [allsrc, "-o", os.path.join(work, "all.ll")])
    if rc != 0:
        und.append("headers: " + e[:300])
        return viol, und, st
    strong = []
    ll = open(os.path.join(work, "all.ll")).read()
    subp = {m.group(1): m.group(2) for m in re.finditer(r'^(!\d+) = .*?DISubprogram\(name: "([^"]*)"', ll, re.M)}
    for line in ll.splitlines():
        m = re.match(r"define (.*?)@\"?([^\s\"(]+)\"?\(", line)
        if m and not re.search(r"\b(linkonce|linkonce_odr|weak|weak_odr|available_externally|internal|private)\b", m.group(1)):
            strong.append(m.group(2))
        m = re.match(r"@\"?([^\s\"=]+)\"? = (.*?)(?:global|constant) ", line)
        if m and not re.search(r"\b(linkonce|linkonce_odr|weak|weak_odr|available_externally|internal|private|external|appending)\b", m.group(2)):
            strong.append(m.group(1))
    for s in strong:
        d = subprocess.run(["c++filt", s], capture_output=True, text=True).stdout.strip() or s
        viol.append({"what": "%s is defined in a header without being inline or a template: two translation units that include it do not link" % d,
                     "where": _find_decl(REPO, d), "driver": "", "entry": "headers", "label": "strong definition", "kind": "odr"})
    note(not strong, "no strong definition in a translation unit that includes every public header")

    # 3. macros left behind by the library's own files
    rc, o, e = sh(["clang++", "-std=c++17", "-w", "-E", "-dD"] + inc + [allsrc])
    cur, live = "", {}
    for line in o.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', line)
        if m:
            cur = m.group(1)
            continue
        m = re.match(r"#define (\w+)", line)
        if m:
            live[m.group(1)] = cur
            continue
        m = re.match(r"#undef (\w+)", line)
        if m:
            live.pop(m.group(1), None)
    own = {k: f for k, f in live.items() if f.startswith(os.path.join(REPO, "include"))}
    for k, f in sorted(own.items()):
        ok = k.startswith("WAVE_")
        note(ok, "macro %s" % k)
        if not ok:
            viol.append({"what": "macro %s leaks from a header into every program that includes it" % k, "where": f,
                         "driver": "", "entry": "headers", "label": "macro", "kind": "macro"})

    # 4. declarations outside the library's namespaces, using-directives at namespace scope
    q = ("set output diag\nset bind-root false\n"
         "match namedDecl(hasParent(translationUnitDecl()), isExpansionInFileMatching(\"include/wave/geometry\"), unless(namespaceDecl())).bind(\"decl\")\n"
         "match usingDirectiveDecl(isExpansionInFileMatching(\"include/wave/geometry\"), hasParent(decl(anyOf(translationUnitDecl(), namespaceDecl())))).bind(\"using\")\n"
         "match namespaceDecl(hasParent(translationUnitDecl()), isExpansionInFileMatching(\"include/wave/geometry\"), unless(hasAnyName(%s))).bind(\"ns\")\n"
         % ", ".join('"%s"' % n for n in sorted(NAMESPACES)))
    qf = src("q.txt", q)
    rc, o, e = sh(["clang-query", "-f", qf, allsrc, "--", "-std=c++17", "-w"] + inc)
    found = re.findall(r"^(\S+):(\d+):\d+: note: \"(decl|using|ns)\" binds here\n(.*)$", o, re.M)
    counts = re.findall(r"^(\d+) match(?:es)?\.", o, re.M)
    if len(counts) != 3:
        und.append("headers: clang-query gave no answer: " + (e or o)[:300])
    else:
        what = {"decl": "declared in the global namespace", "using": "using-directive at namespace scope", "ns": "unexpected namespace"}
        for f, l, k, text in found:
            viol.append({"what": "%s: %s" % (what[k], text.strip()), "where": "%s:%s" % (f, l), "driver": "", "entry": "headers", "label": k, "kind": "namespace"})
        for k, c in zip(("no declaration in the global namespace", "no using-directive at namespace scope", "no other namespace"), counts):
            note(c == "0", k)
    for f in os.listdir(work):
        if f.endswith((".cpp", ".ll", ".txt")):
            try:
                os.remove(os.path.join(work, f))
            except OSError:
                pass
    return viol, und, st


def _find_decl(repo, name):
    base = re.sub(r"\(.*", "", name).split("::")[-1]
    for root, _, fs in os.walk(os.path.join(repo, "include")):
        for f in sorted(fs):
            for n, line in enumerate(open(os.path.join(root, f), errors="replace"), 1):
                if re.search(r"\b%s\b" % re.escape(base), line) and not line.lstrip().startswith(("*", "//")):
                    return "%s:%d" % (os.path.join(root, f), n)
    return ""
