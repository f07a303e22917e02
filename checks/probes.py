from witness import Probe
from itertools import product
import re

TAGS = "ABCDEF"


def partitions(n):
    """set partitions of n slots as restricted growth strings"""
    def rec(prefix, m):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for k in range(m + 1):
            yield from rec(prefix + [k], max(m, k + 1))
    yield from rec([0], 1) if n else iter([()])


LEAF = {"rotM": ("w::RotationMd", 2), "rotQ": ("w::RotationQd", 2), "rotA": ("w::RotationAd", 2),
        "tfM": ("w::RigidTransformMd", 2), "tfQ": ("w::RigidTransformQd", 2), "tr": ("w::Translationd", 3),
        "rr": ("w::RelativeRotationd", 3), "tw": ("w::Twistd", 3), "pt": ("w::Pointd", 2)}


def framed(kind, fr):
    return "w::Framed<%s, %s>" % (LEAF[kind][0], ", ".join(fr))


# oracle: frames of the operands -> frames of the result, or None when the operation is meaningless.
# Written from docs/frame_semantics.md: R_AB takes vectors in B to vectors in A; A_v_BC goes from B to C
# and is expressed in A; a point A_p_B is the vector A_p_AB.
def compose(a, b):
    return (a[0], b[1]) if a[1] == b[0] else None


def rotate(a, v):
    return (a[0], v[1], v[2]) if a[1] == v[0] else None


def transform(a, v):
    return (a[0], a[0], v[2]) if a[1] == v[0] else None


def vadd(u, v):
    if u[0] != v[0]:
        return None
    if u[2] == v[1]:
        return (u[0], u[1], v[2])
    if u[1] == v[2]:
        return (u[0], v[1], u[2])
    return None


def vsub(u, v):
    if u[0] != v[0]:
        return None
    if u[2] == v[2]:
        return (u[0], u[1], v[1])
    if u[1] == v[1]:
        return (u[0], v[2], u[2])
    return None


def asvec(p):
    return (p[0], p[0], p[1])


def padd(p, v):     # A_p_AB + A_v_BC = A_p_AC;  result has to start at A to be a point
    r = vadd(asvec(p), v)
    return "skip" if r and r[0] != r[1] else (r[0], r[2]) if r else None


def vaddp(v, p):
    r = vadd(v, asvec(p))
    return "skip" if r and r[0] != r[1] else (r[0], r[2]) if r else None


def psub(p, q):
    return vsub(asvec(p), asvec(q))


def psubv(p, v):
    r = vsub(asvec(p), v)
    return "skip" if r and r[0] != r[1] else (r[0], r[2]) if r else None


def boxminus(a, b):     # log(a * inverse(b)), a difference seen in the common left frame
    return (a[0], a[0], a[1]) if a[0] == b[0] and a[1] == b[1] else None


def boxplus(a, v):      # exp(A_v_AB) * R_AB
    return (a[0], a[1]) if a[0] == v[0] == v[1] and a[1] == v[2] else None


BIN = [("rotation * rotation", ("rotM", "rotM"), "x * y", compose),
       ("rotation * rotation (Q,M)", ("rotQ", "rotM"), "x * y", compose),
       ("rotation * rotation (A,Q)", ("rotA", "rotQ"), "x * y", compose),
       ("transform * transform", ("tfM", "tfM"), "x * y", compose),
       ("transform * transform (Q,M)", ("tfQ", "tfM"), "x * y", compose),
       ("rotation * translation", ("rotM", "tr"), "x * y", rotate),
       ("rotation * translation (Q)", ("rotQ", "tr"), "x * y", rotate),
       ("transform * translation", ("tfM", "tr"), "x * y", transform),
       ("transform * translation (Q)", ("tfQ", "tr"), "x * y", transform),
       ("translation + translation", ("tr", "tr"), "x + y", vadd),
       ("translation - translation", ("tr", "tr"), "x - y", vsub),
       ("relative rotation + relative rotation", ("rr", "rr"), "x + y", vadd),
       ("relative rotation - relative rotation", ("rr", "rr"), "x - y", vsub),
       ("twist + twist", ("tw", "tw"), "x + y", vadd),
       ("twist - twist", ("tw", "tw"), "x - y", vsub),
       ("point + translation", ("pt", "tr"), "x + y", padd),
       ("translation + point", ("tr", "pt"), "x + y", vaddp),
       ("point - point", ("pt", "pt"), "x - y", psub),
       ("point - translation", ("pt", "tr"), "x - y", psubv),
       ("rotation - rotation", ("rotM", "rotM"), "x - y", boxminus),
       ("rotation - rotation (Q,A)", ("rotQ", "rotA"), "x - y", boxminus),
       ("transform - transform", ("tfM", "tfM"), "x - y", boxminus),
       ("transform - transform (Q,M)", ("tfQ", "tfM"), "x - y", boxminus),
       ("rotation + relative rotation", ("rotM", "rr"), "x + y", boxplus),
       ("rotation + relative rotation (Q)", ("rotQ", "rr"), "x + y", boxplus),
       ("transform + twist", ("tfM", "tw"), "x + y", boxplus),
       ("transform + twist (Q)", ("tfQ", "tw"), "x + y", boxplus)]
UN = [("inverse of rotation", "rotM", "inverse(x)", lambda f: (f[1], f[0])),
      ("inverse of rotation (Q)", "rotQ", "inverse(x)", lambda f: (f[1], f[0])),
      ("inverse of rotation (A)", "rotA", "inverse(x)", lambda f: (f[1], f[0])),
      ("inverse of transform", "tfM", "inverse(x)", lambda f: (f[1], f[0])),
      ("inverse of transform (Q)", "tfQ", "inverse(x)", lambda f: (f[1], f[0])),
      ("exp of relative rotation", "rr", "exp(x)", lambda f: (f[0], f[0])),
      ("exp of twist", "tw", "exp(x)", lambda f: (f[0], f[0])),
      ("log of rotation", "rotM", "log(x)", lambda f: (f[0], f[0], f[1])),
      ("log of rotation (Q)", "rotQ", "log(x)", lambda f: (f[0], f[0], f[1])),
      ("log of transform", "tfM", "log(x)", lambda f: (f[0], f[0], f[1])),
      ("log of transform (Q)", "tfQ", "log(x)", lambda f: (f[0], f[0], f[1])),
      ("minus translation", "tr", "-x", lambda f: (f[0], f[2], f[1])),
      ("minus relative rotation", "rr", "-x", lambda f: (f[0], f[2], f[1])),
      ("minus twist", "tw", "-x", lambda f: (f[0], f[2], f[1])),
      ("scalar * translation", "tr", "2.0 * x", lambda f: f),
      ("translation * scalar", "tr", "x * 2.0", lambda f: f),
      ("translation / scalar", "tr", "x / 2.0", lambda f: f),
      ("scalar * twist", "tw", "w::Scalar<double>{2.0} * x", lambda f: f),
      ("relative rotation / scalar", "rr", "x / w::Scalar<double>{2.0}", lambda f: f),
      ("rotation part of transform", "tfM", "x.rotation()", lambda f: f),
      ("rotation part of transform (Q)", "tfQ", "x.rotation()", lambda f: f),
      ("translation part of transform", "tfM", "x.translation()", lambda f: (f[0], f[0], f[1])),
      ("translation part of transform (Q)", "tfQ", "x.translation()", lambda f: (f[0], f[0], f[1])),
      ("rotation part of rotation", "rotM", "x.rotation()", lambda f: f),
      ("frame_cast of a rotation", "rotM", "w::frame_cast<Z, %s>(x)", lambda f: ("Z", f[0])),
      ("frame_cast of a translation", "tr", "w::frame_cast<Z, %s, D>(x)", lambda f: ("Z", f[0], "D")),
      ]


def wrongs(res, tags):
    """every frame list that differs from res in exactly one slot"""
    for i in range(len(res)):
        for t in tags:
            if t != res[i]:
                yield res[:i] + (t,) + res[i + 1:]


def frames(tier):
    out = []
    for name, (ka, kb), expr, rule in BIN:
        na, nb = LEAF[ka][1], LEAF[kb][1]
        nacc = 0
        for part in partitions(na + nb):
            fr = tuple(TAGS[k] for k in part)
            fa, fb = fr[:na], fr[na:]
            res = rule(fa, fb)
            if res == "skip":
                continue
            args = "%s x, %s y" % (framed(ka, fa), framed(kb, fb))
            lab = "%s with %s" % (name, ", ".join("".join(f) for f in (fa, fb)))
            if res is None:
                out.append(Probe("bad", lab, args, "auto e = %s; (void)e;" % expr, " (void)w::eval(e);", name))
                continue
            nacc += 1
            out.append(Probe("ok", lab + " gives " + "".join(res), args,
                             "auto e = %s; static_assert(frames_are<OUT(e), %s>::value, \"result frames\");" % (expr, ", ".join(res)), group=name))
        # temporaries and nested operands obey the same rule
        seen = 0
        for part in partitions(na + nb):
            fr = tuple(TAGS[k] for k in part)
            fa, fb = fr[:na], fr[na:]
            res = rule(fa, fb)
            if res == "skip":
                continue
            if res is None and seen % 7:
                seen += 1
                continue
            seen += res is None
            args = "%s x, %s y" % (framed(ka, fa), framed(kb, fb))
            lab = "%s of temporaries with %s" % (name, ", ".join("".join(f) for f in (fa, fb)))
            e2 = re.sub(r"\b([xy])\b", r"std::move(\1)", expr)
            if res is None:
                out.append(Probe("bad", lab, args, "auto e = %s; (void)e;" % e2, " (void)w::eval(e);", name))
            else:
                out.append(Probe("ok", lab + " gives " + "".join(res), args,
                                 "auto e = %s; static_assert(frames_are<OUT(e), %s>::value, \"result frames\");" % (e2, ", ".join(res)), group=name))
        # one operand without frames never combines with a framed one (distinct frames)
        fa, fb = tuple(TAGS[:na]), tuple(TAGS[:nb])
        out.append(Probe("bad", name + ": unframed left operand", "%s x, %s y" % (LEAF[ka][0], framed(kb, fb)), "auto e = %s; (void)e;" % expr, " (void)w::eval(e);", name))
        out.append(Probe("bad", name + ": unframed right operand", "%s x, %s y" % (framed(ka, fa), LEAF[kb][0]), "auto e = %s; (void)e;" % expr, " (void)w::eval(e);", name))
        out.append(Probe("ok", name + ": both unframed", "%s x, %s y" % (LEAF[ka][0], LEAF[kb][0]), "auto e = %s; static_assert(!is_framed<OUT(e)>::value, \"\");" % expr, group=name))
    for name, k, expr, rule in UN:
        n = LEAF[k][1]
        for part in partitions(n):
            fr = tuple(TAGS[j] for j in part)
            e = expr % fr[0] if "%s" in expr else expr
            res = rule(fr)
            out.append(Probe("ok", "%s with %s gives %s" % (name, "".join(fr), "".join(res)), "%s x" % framed(k, fr),
                             "auto e = %s; static_assert(frames_are<OUT(e), %s>::value, \"result frames\");" % (e, ", ".join(res)), group=name))
        e = re.sub(r"\bx\b", "std::move(x)", expr % "A" if "%s" in expr else expr)
        out.append(Probe("ok", "%s of a temporary" % name, "%s x" % framed(k, tuple(TAGS[:n])),
                         "auto e = %s; static_assert(frames_are<OUT(e), %s>::value, \"result frames\");" % (e, ", ".join(rule(tuple(TAGS[:n])))), group=name))
    return out


KINDS = {"rot": ("w::RotationMd", "is_rot"), "rotQ": ("w::RotationQd", "is_rot"), "rotA": ("w::RotationAd", "is_rot"),
         "tf": ("w::RigidTransformMd", "is_se3"), "tfQ": ("w::RigidTransformQd", "is_se3"),
         "tr": ("w::Translationd", "is_trans"), "rr": ("w::RelativeRotationd", "is_rrot"), "tw": ("w::Twistd", "is_twist"),
         "pt": ("w::Pointd", "is_point"), "sc": ("w::Scalar<double>", "is_scalar"), "num": ("double", "is_scalar")}
CAT = {"rotQ": "rot", "rotA": "rot", "tfQ": "tf"}


def cat(k):
    return CAT.get(k, k)


VEC = ("tr", "rr", "tw")


def space(op, a, b):
    """kind of a op b, or None when it is not a geometric operation"""
    if a == "num" and b == "num":
        return "skip"
    if op == "dot":
        return "sc" if a == b and a in VEC else "skip" if a in ("sc", "num") and b in ("sc", "num") else None
    if op == "*":
        if a == b and a in ("rot", "tf"):
            return a
        if a in ("rot", "tf") and b == "tr":
            return "tr"
        if a in ("sc", "num") and b in ("sc", "num"):
            return "sc"
        if a in ("sc", "num") and b in VEC:
            return b
        if b in ("sc", "num") and a in VEC:
            return a
        return None
    if op == "/":
        if b in ("sc", "num") and a in VEC:
            return a
        if a in ("sc", "num") and b in ("sc", "num"):
            return "sc"
        return None
    if op == "+":
        if a == b and a in VEC:
            return a
        if a in ("sc", "num") and b in ("sc", "num"):
            return "sc"
        if (a, b) in (("pt", "tr"), ("tr", "pt")):
            return "pt"
        if (a, b) in (("rot", "rr"), ("tf", "tw")):
            return a
        return None
    if op == "-":
        if a == b and a in VEC:
            return a
        if a in ("sc", "num") and b in ("sc", "num"):
            return "sc"
        return {("pt", "pt"): "tr", ("pt", "tr"): "pt", ("rot", "rot"): "rr", ("tf", "tf"): "tw"}.get((a, b))


def spaces(tier):
    out = []
    # every value category: the overloads for temporaries are separate functions
    for op in ("+", "-", "*", "/", "dot"):
        for a, b in product(KINDS, KINDS):
            r = space(op, cat(a), cat(b))
            if r == "skip":
                continue
            args = "%s x, %s y" % (KINDS[a][0], KINDS[b][0])
            for cx, cy in (("x", "y"), ("std::move(x)", "y"), ("x", "std::move(y)"), ("std::move(x)", "std::move(y)")):
                lab = "%s %s %s" % (a + ("&&" if cx != "x" else ""), op, b + ("&&" if cy != "y" else ""))
                ex = "dot(%s, %s)" % (cx, cy) if op == "dot" else "%s %s %s" % (cx, op, cy)
                if r is None:
                    out.append(Probe("bad", lab, args, "auto e = %s; (void)e;" % ex, " (void)w::eval(e);", "operator" + op))
                else:
                    out.append(Probe("ok", lab + " is a " + r, args, "auto e = %s; static_assert(%s<bare<OUT(e)>::type>::value, \"kind\");" % (ex, KINDS[r][1]), group="operator" + op))
    for f, table in (("inverse(x)", {"rot": "rot", "tf": "tf"}), ("log(x)", {"rot": "rr", "tf": "tw"}), ("exp(x)", {"rr": "rot", "tw": "tf"}),
                     ("-x", {"tr": "tr", "rr": "rr", "tw": "tw", "sc": "sc"}), ("x.norm()", {"tr": "sc", "rr": "sc", "tw": "sc"}),
                     ("x.squaredNorm()", {"tr": "sc", "rr": "sc", "tw": "sc"}), ("x.normalized()", {"tr": "tr", "rr": "rr", "tw": "tw"}),
                     ("acos(x)", {"sc": "sc"}), ("x.rotation()", {"rot": "rot", "tf": "rot", "tw": "rr"}), ("x.translation()", {"tf": "tr", "tw": "tr", "rot": "skip"})):
        for a in KINDS:
            if a == "num":
                continue
            r = table.get(cat(a))
            if r == "skip" or (a == "sc" and r is None and f != "inverse(x)"):
                continue
            args = "%s x" % KINDS[a][0]
            if r is None:
                out.append(Probe("bad", "%s, x a %s" % (f, a), args, "auto e = %s; (void)e;" % f, " (void)w::eval(e);", f))
            else:
                out.append(Probe("ok", "%s, x a %s, is a %s" % (f, a, r), args, "auto e = %s; static_assert(%s<bare<OUT(e)>::type>::value, \"kind\");" % (f, KINDS[r][1]), group=f))
    # objects of different kinds do not convert into each other; different representations of one kind do
    for a, b in product(KINDS, KINDS):
        if "num" in (a, b):
            continue
        same = cat(a) == cat(b)
        A, B = KINDS[a][0], KINDS[b][0]
        if same and a != b:
            # conversion to another representation is on request
            out.append(Probe("ok", "%s{%s}" % (a, b), "%s x" % B, "%s t{x}; (void)t;" % A, group="conversion"))
            if (a, b) != ("rotA", "rotQ"):
                out.append(Probe("ok", "%s assigned a %s" % (a, b), "%s t, %s x" % (A, B), "t = x;", group="conversion"))
        if not same:
            out.append(Probe("bad", "%s{%s}" % (a, b), "%s x" % B, "%s t{x}; (void)t;" % A, group="conversion"))
            out.append(Probe("bad", "%s = %s" % (a, b), "%s x" % B, "%s t = x; (void)t;" % A, group="conversion"))
            out.append(Probe("bad", "%s assigned a %s" % (a, b), "%s t, %s x" % (A, B), "t = x;", group="conversion"))
    # comparison is only offered between objects of one kind
    for a, b in product(KINDS, KINDS):
        if "num" in (a, b):
            continue
        k = "ok" if cat(a) == cat(b) else "bad"
        out.append(Probe(k, "%s.isApprox(%s)" % (a, b), "%s x, %s y" % (KINDS[a][0], KINDS[b][0]), "(void)x.isApprox(y);", group="isApprox"))
    return out


# construction, conversion and assignment between framed and unframed objects
CONV = {"rotM": ("rotM", "rotQ", "rotA"), "rotQ": ("rotQ", "rotM", "rotA"), "rotA": ("rotA", "rotM"), "tfM": ("tfM", "tfQ"), "tfQ": ("tfQ", "tfM"),
        "tr": ("tr",), "rr": ("rr",), "tw": ("tw",), "pt": ("pt",)}
FORMS = [("direct initialisation", "%(T)s t{%(e)s}; (void)t;"), ("copy initialisation", "%(T)s t = %(e)s; (void)t;"),
         ("assignment", "t = %(e)s;"), ("argument passing", "struct G { static void g(const %(T)s &) {} }; G::g(%(e)s);")]


def assign(tier):
    out = []
    for kt, srcs in CONV.items():
        n = LEAF[kt][1]
        for ks in srcs:
            for part in partitions(2 * n):
                fr = tuple(TAGS[k] for k in part)
                ft, fs = fr[:n], fr[n:]
                if tier == "quick" and ft != fs and (n == 3 or ks != kt) and sum(x != y for x, y in zip(ft, fs)) > 1 and len(set(part)) != n:
                    continue
                for fi, (form, tmpl) in enumerate(FORMS):
                    if tier == "quick" and ft != fs and fi % 2 and sum(part) % 4:
                        continue
                    T = framed(kt, ft)
                    for esrc, e in (("a variable", "x"), ("a temporary", "std::move(x)")):
                        if ks != kt and esrc == "a temporary":
                            continue
                        lab = "%s of %s<%s> from %s of %s<%s>" % (form, kt, "".join(ft), esrc, ks, "".join(fs))
                        args = "%s t, %s x" % (T, framed(ks, fs)) if form == "assignment" else "%s x" % framed(ks, fs)
                        out.append(Probe("ok" if ft == fs else "bad", lab, args, tmpl % dict(T=T, e=e), group=form))
        # expressions carry frames to the target as well
        fr = tuple(TAGS[:n])
        op = {"rotM": ("x * y", ["A", "B"]), "rotQ": ("x * y", ["A", "B"]), "tfM": ("x * y", 0), "tfQ": ("x * y", 0), "tr": ("x + y", 0), "rr": ("x + y", 0), "tw": ("x + y", 0), "pt": None, "rotA": ("x * y", 0)}[kt]
        if op:
            if n == 2:
                a, b, r = ("A", "B"), ("B", "C"), ("A", "C")
            else:
                a, b, r = ("A", "B", "C"), ("A", "C", "D"), ("A", "B", "D")
            for form, tmpl in FORMS:
                for t in [r] + list(wrongs(r, "ABCDZ")):
                    T = framed(kt, t)
                    args = ("%s t, " % T if form == "assignment" else "") + "%s x, %s y" % (framed(kt, a), framed(kt, b))
                    out.append(Probe("ok" if t == r else "bad", "%s of %s<%s> from the expression %s giving %s" % (form, kt, "".join(t), op[0], "".join(r)), args,
                                     tmpl % dict(T=T, e="(" + op[0] + ")"), group=form + " from expression"))
            if n == 2:
                for form, tmpl in FORMS:
                    for t in [("B", "A"), ("A", "B"), ("A", "A"), ("Z", "A"), ("B", "Z")]:
                        T = framed(kt, t)
                        args = ("%s t, " % T if form == "assignment" else "") + "%s x" % framed(kt, a)
                        out.append(Probe("ok" if t == ("B", "A") else "bad", "%s of %s<%s> from inverse(%s<AB>)" % (form, kt, "".join(t), kt), args,
                                         tmpl % dict(T=T, e="inverse(x)"), group=form + " from expression"))
        # framed and unframed objects do not convert into each other, in either direction
        for form, tmpl in FORMS:
            T, U = framed(kt, fr), LEAF[kt][0]
            a1 = "%s t, %s x" % (T, U) if form == "assignment" else "%s x" % U
            out.append(Probe("bad", "%s of framed %s from unframed" % (form, kt), a1, tmpl % dict(T=T, e="x"), group="framed from unframed"))
            a1 = "%s t, %s x" % (U, T) if form == "assignment" else "%s x" % T
            out.append(Probe("bad", "%s of unframed %s from framed" % (form, kt), a1, tmpl % dict(T=U, e="x"), group="unframed from framed"))
        # a framed object is made from raw numbers only by naming its frames
        raw = {"rotM": "M3", "rotQ": "Eigen::Quaterniond", "rotA": "Eigen::AngleAxisd", "tfM": "M4", "tr": "V3", "rr": "V3", "tw": "V6", "pt": "V3"}.get(kt)
        if raw:
            T = framed(kt, fr)
            out.append(Probe("ok", "framed %s{raw}" % kt, "%s x" % raw, "%s t{x}; (void)t;" % T, group="raw"))
            out.append(Probe("bad", "framed %s = raw (implicit)" % kt, "%s x" % raw, "%s t = x; (void)t;" % T, group="raw"))
            out.append(Probe("bad", "framed %s assigned raw" % kt, "%s t, %s x" % (T, raw), "t = x;", group="raw"))
        # frame_cast is the only way to relabel
        T = framed(kt, fr)
        Z = ("Z",) + fr[1:]
        for form, tmpl in FORMS:
            args = ("%s t, " % T if form == "assignment" else "") + "%s x" % framed(kt, Z)
            out.append(Probe("bad", "%s of %s without frame_cast" % (form, kt), args, tmpl % dict(T=T, e="x"), group="frame_cast"))
            out.append(Probe("ok", "%s of %s with frame_cast" % (form, kt), args, tmpl % dict(T=T, e="w::frame_cast<%s>(x)" % ", ".join(fr)), group="frame_cast"))
            out.append(Probe("bad", "%s of %s with frame_cast to other frames" % (form, kt), args, tmpl % dict(T=T, e="w::frame_cast<%s>(x)" % ", ".join(fr[:-1] + ("Z",))), group="frame_cast"))
            args = ("%s t, " % T if form == "assignment" else "") + "%s x" % LEAF[kt][0]
            out.append(Probe("ok", "%s of %s from unframed with frame_cast" % (form, kt), args, tmpl % dict(T=T, e="w::frame_cast<%s>(x)" % ", ".join(fr)), group="frame_cast"))
    return out
