"""What each property's check analyses.  A job is one driver compiled to LLVM IR and analysed."""

TRUSTED = [
    "clang 18 front end (type checking, overload resolution, lowering to LLVM IR at -O1 without passes)",
    "tools/irflow.cpp, domain.hpp, intrinsics.hpp: transfer functions of the value-flow analysis",
    "drivers/*.cpp: the laws each entry states about its operands",
]
ASSUME = [
    "real arithmetic: floating-point rounding is outside every claim (degenerate regions have their own property)",
    "operands are in generic position unless the entry says otherwise; partitions cover the data-dependent branches reached",
    "equality of two value numbers is decided by random interpretation over a prime field: a wrong 'equal' has probability < 1e-9 per obligation; a reported difference is exact",
    "the instantiations listed by the drivers stand for the templates; Eigen and Boost are analysed as compiled, not assumed",
]

VALUE_RULE = ("value-flow analysis over the LLVM IR of every instantiation reached from the driver: each stored double is a value number "
              "(interpretation over a field homomorphism with first-order derivatives); two expressions are equal iff their value numbers are")


# drivers whose entries are analysed again with each operand made special in turn: exactly degenerate (zero vector, no rotation,
# no translation), approaching that (power series), approaching a half turn, or equal to a constant the code compares it with
VARIANTS = {"d_vec.cpp", "d_rot.cpp", "d_se3.cpp", "d_explog.cpp", "d_conv.cpp", "d_modes.cpp", "d_mat.cpp", "d_est.cpp",
            "d_id.cpp", "d_float.cpp", "d_targets.cpp", "d_dyn.cpp", "d_compound.cpp"}


def J(file, part=None, kinds=("eq",), **kw):
    d = dict(file=file, defs=["PART=%s" % part] if part is not None else [], kinds=list(kinds))
    if file in VARIANTS and "PURE" not in d["defs"] and not {"PURE"} & set(kw.get("defs", [])):
        d["variants"] = True
    if file == "d_modes.cpp":
        d["shards"] = 8
    if file == "d_float.cpp":
        d["neartol"] = 1e-6
    d.update(kw)
    if "eq" in d["kinds"] and "int" not in d["kinds"]:
        d["kinds"].append("int")
    return d


def parts(file, ps, kinds=("eq",), **kw):
    return [J(file, p, kinds, **kw) for p in ps]


PROPS = {}


def prop(pid, **kw):
    kw.setdefault("level", "other")
    kw.setdefault("rule", VALUE_RULE)
    kw.setdefault("explanation", "")
    PROPS[pid] = kw


prop("P04", drivers=parts("d_rot.cpp", (1, 2, 3)) + parts("d_se3.cpp", (1, 2, 3)), floor=250,
     explanation="composition, inversion and action on vectors, every pair of representations, framed and unframed, evaluated, constructed and assigned")
prop("P05", drivers=parts("d_explog.cpp", (1, 2)), floor=60,
     explanation="exp and log of rotations and rigid transforms in every representation")
prop("P06", drivers=parts("d_explog.cpp", (3,), ("eq", "jac")), floor=40,
     explanation="box-plus / box-minus on rotations, transforms and vectors")
prop("P07", drivers=parts("d_vec.cpp", (1, 2, 3)), floor=80,
     explanation="sums, differences, products, norms of vectors, points and scalars")
prop("P08", drivers=parts("d_rot.cpp", (1, 2, 3), ("jac",)) + parts("d_se3.cpp", (1, 2, 3), ("jac",)) +
     parts("d_explog.cpp", (1, 2, 3), ("jac",)) + parts("d_vec.cpp", (1, 2, 3), ("jac",)) +
     parts("d_modes.cpp", (1, 2, 3, 7, 8, 9), ("jac",)) + parts("d_targets.cpp", (1, 2, 3), ("jac",)), floor=800,
     explanation="the Jacobian returned is the derivative of the value returned, under the left perturbation of each operand")
prop("P11", drivers=parts("d_near.cpp", (1, 2, 3), ("eq", "near", "finite", "jac")), floor=100,
     explanation="small-angle, zero and half-turn behaviour: finite values and derivatives, branches agree to the stated order",
     rule=VALUE_RULE + "; neighbourhoods are analysed with truncated power series around the degenerate point")
TYPE_RULE = ("each probe is one program; the type checker must accept every 'ok' probe (and its static_asserts on the result type) and reject every 'bad' probe; "
             "the probes enumerate every set partition of the operands' frame slots / every pair of kinds")
prop("P01", witness="frames", floor=2000, rule=TYPE_RULE, explanation="every operator, every equal/distinct assignment of frames")
prop("P02", witness="assign", floor=2000, rule=TYPE_RULE, explanation="every form of initialisation and assignment, every equal/distinct assignment of frames")
prop("P03", witness="spaces", floor=800, rule=TYPE_RULE, explanation="every pair of kinds under every operator, conversion and comparison")
prop("P09", drivers=parts("d_modes.cpp", (1, 2, 3), ("eq", "jac")) + parts("d_modes.cpp", (4, 5, 6), ("eq", "jac"), internal=True) +
     parts("d_modes.cpp", (7, 8, 9), ("eq", "jac")) + parts("d_compound.cpp", (5, 8), ("eq", "jac")) + parts("d_dyn.cpp", (1, 4, 6, 7), ("eq", "jac")), floor=1200,
     explanation="the same expressions differentiated by every evaluator; each result is compared with the one derivative of the value")
prop("P20", drivers=parts("d_targets.cpp", (1, 2, 3, 4, 5, 6), ("eq", "jac")) + parts("d_modes.cpp", (7, 8, 9), ("eq", "jac")) +
     parts("d_compound.cpp", (1, 8), ("eq", "jac")), floor=350,
     explanation="shared leaves, targets the expression does not contain, equal-valued but distinct targets")
prop("P18", drivers=parts("d_compound.cpp", (1, 2, 3, 4, 5, 6, 7, 8), ("eq", "jac", "lifetime")), floor=60,
     explanation="compound expressions of two and three elements: values, Jacobian rows, box operators, copy, construction, assignment, block access")
prop("P12", drivers=parts("d_life.cpp", (1, 2, 3, 4, 5, 6), ("eq", "jac", "lifetime")) + parts("d_dyn.cpp", (2, 3), ("eq", "lifetime")) +
     parts("d_modes.cpp", (1, 2, 3), ("lifetime",), variants=False, shards=2) + [J("d_rot.cpp", 1, ("lifetime",), variants=False)], floor=250,
     explanation="every operator with temporaries returned from a function, evaluated, copied, moved; named operands changed afterwards")
prop("P15", drivers=parts("d_dyn.cpp", (1, 2, 3, 4, 5, 6, 7), ("eq", "jac", "lifetime")) + parts("d_num.cpp", (4, 5), ("eq", "lifetime")), floor=60,
     explanation="dynamic expressions, proxies, rebinding, mixed with static expressions")
prop("P10", drivers=parts("d_conv.cpp", (1, 2, 3, 4), ("eq", "jac", "lifetime")), floor=350,
     explanation="constructors, conversions, copies, moves, part accessors, leaves over user memory")
prop("P23", drivers=parts("d_conv.cpp", (5,), ("eq", "lifetime")), floor=90,
     explanation="a = f(a) for every operator")
prop("P16", drivers=parts("d_id.cpp", (1, 2, 3, 4), ("eq", "jac", "lifetime")), floor=250,
     explanation="Identity and Zero leaves of every representation under every operator, framed and unframed, values and Jacobians")
prop("P17", drivers=parts("d_mat.cpp", (1, 2, 3), ("eq", "lifetime")) + parts("d_compound.cpp", (6,), ("eq",)), floor=200,
     explanation="cross, identity, block, diagonal-block and mapped matrices against dense matrices under every operation they offer")
prop("P19", drivers=parts("d_est.cpp", (1, 2, 3), ("eq", "jac", "lifetime")), floor=70,
     explanation="diagonal and full noise, factors over vectors, scalars, rotations, framed and compound measurements")

PURE = [J("d_modes.cpp", p, ("purity", "alloc", "eq"), defs=["PART=%d" % p, "PURE"]) for p in (1, 2, 3)]
prop("P13", drivers=[dict(j, kinds=["purity", "eq"]) for j in PURE], floor=500,
     rule="effect analysis: every store on every analysed path of eval / jacobian / evalWithJacobians goes to memory the call itself created; " + VALUE_RULE,
     explanation="every operator evaluated and differentiated in every public mode, twice and through a copy")
prop("P14", drivers=[dict(j, kinds=["alloc"]) for j in PURE], floor=250,
     rule="effect analysis: no path of eval / jacobian / evalWithJacobians reaches an allocation function",
     explanation="every operator evaluated and differentiated in every public mode")
prop("P21", drivers=parts("d_num.cpp", (1, 2, 3, 4, 5), ("eq", "lifetime")), floor=60,
     explanation="numerical Jacobians of vector, scalar and compound expressions wrt every kind of leaf")
prop("P22", lints=["headers"], floor=60,
     rule="each public header alone, twice and in every ordered pair type-checks; no strong symbol; macros, namespaces and using-directives of the library's files enumerated from the preprocessor and the syntax tree",
     explanation="public headers, their symbols, macros and namespaces",
     trusted=["clang 18 and gcc 13 front ends", "clang-query", "checks/lints.py"], assumptions=["the compilers and standard library headers installed here"])
prop("P24", drivers=[J("d_rand.cpp", None, ("eq",))], floor=60,
     explanation="Random() of every leaf type; density of the map from the draws")
# every other driver read in single precision (drivers/single.hpp); special operands in the thorough tier only
SINGLE = {"d_rot.cpp": (1, 2, 3), "d_se3.cpp": (1, 2, 3), "d_vec.cpp": (1, 2, 3), "d_explog.cpp": (1, 2, 3), "d_conv.cpp": (1, 2, 3, 4, 5),
          "d_modes.cpp": (1, 2, 3, 4, 5, 6, 7, 8, 9), "d_mat.cpp": (1, 2, 3), "d_id.cpp": (1, 2, 3, 4), "d_targets.cpp": (1, 2, 3, 4, 5, 6),
          "d_compound.cpp": (1, 2, 3, 4, 5, 6, 7, 8), "d_dyn.cpp": (1, 2, 3, 4, 5, 6, 7), "d_num.cpp": (1, 2, 3, 4, 5), "d_cmp.cpp": (1, 2, 3),
          "d_near.cpp": (1, 2, 3), "d_rand.cpp": (None,), "d_est.cpp": (1,), "d_life.cpp": (1, 2, 3, 4, 5, 6)}
prop("P25", drivers=parts("d_float.cpp", (1, 2, 3), ("eq", "jac", "lifetime")) +
     [J(f, p, ("eq", "jac", "lifetime", "near", "finite"), defs=(["PART=%d" % p] if p else []) + ["WG_FLOAT"], neartol=1e-6, shards=1,
        variants=False, tvariants=f in VARIANTS) for f, ps in SINGLE.items() for p in ps], floor=4000,
     explanation="every kind of leaf and operator with float coefficients")
prop("P26", drivers=parts("d_cmp.cpp", (1, 2, 3), ("eq", "lifetime")), floor=100,
     explanation="isApprox and isZero of every kind of leaf and of expressions, against the documented formula on every path")
