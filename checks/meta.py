#!/usr/bin/env python3
"""Texts of the properties; writes properties.jsonl and MANIFEST.json (python3 checks/meta.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
S = "include/wave/geometry/src/"
PROP = []


def P(id, title, statement, over, qtext, why, files, mech, observe, technique="", note="", state=(), na=None):
    PROP.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                     anchors=dict(files=[S + f if f.endswith("pp") and not f.startswith("include") else f for f in files],
                                  mechanism=[dict(name=n, where=S + w if not w.startswith("include") else w) for n, w in mech],
                                  state=[dict(name=n, meaning=m) for n, m in state], observe_at=observe, hook_needed=None),
                     technique=technique, note=note, na=na))


TYPE = "type-level witnesses: exhaustively enumerated accept/reject programs decided by the compiler's type checker"
FLOW = "value-flow analysis (abstract interpretation of the compiled LLVM IR, value numbering with first-order derivatives)"
FLOWNOTE = ("Sound for the analysed instantiations up to real arithmetic: equality of value numbers is decided by random interpretation over a prime field "
            "(one-sided, error < 1e-9). Rounding is not modelled. Trusts clang's lowering and the transfer functions in tools/.")
TYPENOTE = "Complete over the enumerated frame/kind assignments of each operation (every set partition of the frame slots); trusts clang's type checker."

P("P01", "Operations on framed quantities obey the frame relation and label the result",
  "An operation on quantities labelled with coordinate frames compiles exactly when the frame relation of that operation is satisfied (adjacent frames match for composition, rotation and transformation; sums and differences share the expressing frame and chain head to tail; box operators compare objects with the same frames). The evaluated result carries precisely the frames that relation dictates, for lvalue and temporary operands and for every representation.",
  ["programs"], "every assignment of equal/distinct frames to the operands' frame slots, every operator, every representation of the operands",
  "Tests can only contain programs that compile; none of the rejected programs is tested, and only a few frame assignments of the accepted ones are.",
  ["geometry/frames/frame_traits.hpp", "geometry/frames/Framed.hpp", "geometry/op/Compose.hpp", "geometry/op/Rotate.hpp", "geometry/op/Transform.hpp", "geometry/op/Sum.hpp", "geometry/op/Subtract.hpp", "geometry/op/BoxPlus.hpp", "geometry/op/BoxMinus.hpp", "geometry/op/Inverse.hpp", "geometry/op/LogMap.hpp", "geometry/op/ExpMap.hpp", "geometry/op/Minus.hpp", "geometry/op/Scale.hpp", "geometry/base/TransformBase.hpp", "docs/frame_semantics.md"],
  [("static_assert on adjacent frames", "geometry/op/Compose.hpp:Compose"), ("static_assert on vector frames", "geometry/op/Sum.hpp:Sum"), ("OutputFunctor", "geometry/frames/frame_traits.hpp:WrapWithFrames")],
  ["the type of eval(expression)", "compiler diagnostics"], TYPE, TYPENOTE)
P("P02", "A framed object only ever receives values of its own frames",
  "Constructing, converting, passing or assigning a framed object from another object or expression compiles only if both have identical frames in every slot; framed and unframed objects do not convert into each other, and raw numbers become framed only through an explicit constructor. The explicit frame cast is the only way to relabel a quantity, and it yields exactly the frames it names.",
  ["programs"], "every assignment of frames to source and target, every kind of object, every form of initialisation and assignment",
  "The interesting programs are those that must not compile; no unit test can contain one.",
  ["geometry/frames/Framed.hpp", "geometry/frames/frame_cast.hpp", "geometry/frames/frame_traits.hpp", "core/storage/LeafStorage.hpp"],
  [("assert_same_frames", "geometry/frames/frame_traits.hpp:assert_same_frames"), ("operator= constrained on same_frames", "geometry/frames/Framed.hpp:Framed::operator="), ("FrameCast", "geometry/frames/frame_cast.hpp:frame_cast")],
  ["compiler diagnostics"], TYPE, TYPENOTE)
P("P03", "Only geometrically meaningful combinations of kinds compile",
  "Points, translations, relative rotations, twists, rotations, rigid transforms and scalars combine only as the geometry allows (vector + vector of the same kind, point + translation, point - point, group elements compose, act and differ; nothing else), and each permitted operation yields an object of the right kind. Objects of different kinds never convert into, get assigned to or get compared with one another, whereas different representations of one kind do.",
  ["programs"], "every pair of kinds and representations under every operator and conversion",
  "Tests exercise only permitted combinations; that the remaining several hundred are rejected is a statement about programs that do not compile.",
  ["geometry/base/VectorBase.hpp", "geometry/base/AffineBase.hpp", "geometry/base/TransformBase.hpp", "geometry/base/RotationBase.hpp", "geometry/base/RigidTransformBase.hpp", "geometry/base/ScalarBase.hpp", "geometry/op/Sum.hpp", "geometry/op/Subtract.hpp", "core/traits/type_traits.hpp"],
  [("static_assert on difference types", "geometry/op/Sum.hpp:Sum"), ("base templates of an expression", "core/traits/type_traits.hpp:base_tmpl_t")],
  ["compiler diagnostics", "the type of eval(expression)"], TYPE, TYPENOTE)
P("P04", "Rotations and transforms form a group acting on vectors, in any representation",
  "Composition, inversion and the action on vectors compute the group operation (matrix product, group inverse, R v and R v + t) and so satisfy associativity, a a^-1 = identity and (ab)^-1 = b^-1 a^-1, whatever mix of matrix, quaternion, angle-axis or compact representation the operands use. Evaluating, constructing a leaf from the expression and assigning it to a leaf of another representation give the same group element, with or without frames.",
  ["inputs", "programs"], "all operand values, all pairs of representations, nested expressions",
  "Tests sample random elements with a tolerance for a few mixes of representations; the laws quantify over all values and all mixes.",
  ["geometry/base/RotationBase.hpp", "geometry/base/RigidTransformBase.hpp", "geometry/leaf/MatrixRotation.hpp", "geometry/leaf/QuaternionRotation.hpp", "geometry/leaf/AngleAxisRotation.hpp", "geometry/leaf/MatrixRigidTransform.hpp", "geometry/leaf/CompactRigidTransform.hpp", "core/functions/Evaluator.hpp", "core/functions/AddConversions.hpp"],
  [("evalImpl(Compose/Inverse/Rotate)", "geometry/leaf/MatrixRotation.hpp:evalImpl"), ("evalImpl(Compose) of rigid transforms", "geometry/base/RigidTransformBase.hpp:evalImpl"), ("conversions inserted before evaluation", "core/functions/AddConversions.hpp:AddConversions")],
  ["eval()", "leaf construction", "leaf assignment"], FLOW, FLOWNOTE)
P("P05", "Exponential and logarithm are the group's exp and log and invert each other",
  "exp of a rotation vector or twist is the rotation or rigid transform it generates, log returns a rotation vector of angle at most pi (or the twist) that generates its argument, and so log(exp(x)) = x for angles below pi and exp(log(g)) = g, in every representation. Evaluating nested expressions such as log(a b) or exp(-x) gives the same elements as doing it step by step.",
  ["inputs", "programs"], "all rotation vectors, twists, rotations and rigid transforms in generic position; all representations",
  "Tests compare a few random samples numerically.",
  ["geometry/leaf/RelativeRotation.hpp", "geometry/leaf/Twist.hpp", "geometry/op/ExpMap.hpp", "geometry/op/LogMap.hpp", "geometry/leaf/MatrixRotation.hpp", "geometry/leaf/AngleAxisRotation.hpp", "geometry/base/RigidTransformBase.hpp"],
  [("evalImpl(ExpMap)", "geometry/leaf/RelativeRotation.hpp:evalImpl"), ("evalImpl(ExpMap) of a twist", "geometry/leaf/Twist.hpp:evalImpl"), ("evalImpl(LogMap)", "geometry/leaf/MatrixRotation.hpp:evalImpl"), ("evalImpl(LogMap) of a rigid transform", "geometry/base/RigidTransformBase.hpp:evalImpl")],
  ["eval()"], FLOW, FLOWNOTE)
P("P06", "Box-plus and box-minus are inverse manifold operations with exact derivatives",
  "For rotations and rigid transforms a - b is the tangent vector log(a b^-1) and a + v is exp(v) a, so (a - b) generates the motion from b to a: b + (a - b) = a and (a + v) - a = v. Their Jacobians with respect to every operand are the exact derivatives, for every mix of representations.",
  ["inputs", "programs"], "all values in generic position, all pairs of representations",
  "Tests check a handful of samples of each identity numerically.",
  ["geometry/op/BoxPlus.hpp", "geometry/op/BoxMinus.hpp", "geometry/base/TransformBase.hpp", "docs/manifold_operations.md"],
  [("BoxMinus as a unary expression of Compose and Inverse", "geometry/op/BoxMinus.hpp:BoxMinus"), ("BoxPlus as ComposeFlipped with ExpMap", "geometry/op/BoxPlus.hpp:BoxPlus")],
  ["eval()", "evalWithJacobians()"], FLOW, FLOWNOTE)
P("P07", "Vectors, points and scalars obey their algebra",
  "Sums, differences, negation, scaling and division by scalar expressions or plain numbers, products and quotients of scalars, dot products, norms, normalisation and arc cosine of translations, relative rotations, twists, points and scalars evaluate to the corresponding componentwise or scalar formula. This holds for arbitrarily nested expressions, for either operand order, and with or without frames.",
  ["inputs", "programs"], "all operand values; all vector kinds; nested combinations of the operators",
  "Tests sample random vectors for individual operators.",
  ["geometry/base/VectorBase.hpp", "geometry/base/AffineBase.hpp", "geometry/base/ScalarBase.hpp", "geometry/op/Sum.hpp", "geometry/op/Subtract.hpp", "geometry/op/Minus.hpp", "geometry/op/Scale.hpp", "geometry/op/Product.hpp", "geometry/op/Divide.hpp", "util/macros.hpp"],
  [("evalImpl(Sum/Subtract/Minus/Scale/Norm/Dot)", "geometry/base/VectorBase.hpp:evalImpl"), ("operators with plain numbers", "util/macros.hpp:WAVE_OVERLOAD_OPERATORS_FOR_SCALAR")],
  ["eval()", "leaf construction", "conversion to the scalar type"], FLOW, FLOWNOTE)
P("P08", "Every Jacobian is the exact derivative under a left perturbation",
  "The Jacobian an expression reports with respect to one of its operands is the derivative of the expression's value when that operand is perturbed in its tangent space (additively for vectors, points and scalars, by left multiplication with the exponential for rotations and rigid transforms), with the output measured the same way. This holds for every operator, every mix of representations and nested expressions in which operands may occur several times.",
  ["inputs", "programs"], "all operand values in generic position, all operators, compositions of operators",
  "Tests compare with finite differences at random points with loose tolerances, for single operators mainly.",
  ["core/functions/TypedJacobianEvaluator.hpp", "core/functions/ReverseJacobianEvaluator.hpp", "geometry/op/Compose.hpp", "geometry/op/Rotate.hpp", "geometry/op/Inverse.hpp", "geometry/op/LogMap.hpp", "geometry/leaf/RelativeRotation.hpp", "geometry/leaf/Twist.hpp", "geometry/base/RigidTransformBase.hpp", "geometry/base/VectorBase.hpp", "geometry/base/ScalarBase.hpp", "core/op/MemberAccess.hpp", "docs/autodiff.md"],
  [("jacobianImpl / leftJacobianImpl / rightJacobianImpl", "geometry/op/Compose.hpp:leftJacobianImpl"), ("chain rule", "core/functions/TypedJacobianEvaluator.hpp:TypedJacobianEvaluator"), ("Jacobians of member access", "geometry/base/TransformBase.hpp:TranslationGetter")],
  ["jacobian()", "evalWithJacobians()"], FLOW, FLOWNOTE)
P("P11", "Degenerate configurations give finite, consistent values and derivatives",
  "At and near zero rotation, the identity and half turns, exp, log, box-plus, box-minus and their Jacobians are finite, equal the limit of the general formula, and stay within the accuracy of the small-angle approximation where the implementation switches formulas. No analysed operation divides by zero or takes the root or arc cosine outside its domain on valid operands at these configurations.",
  ["inputs"], "all directions of approach and all values of the remaining operands around the degenerate configuration",
  "Random sampling never hits these measure-zero configurations, and the tests do not construct them.",
  ["geometry/leaf/RelativeRotation.hpp", "geometry/leaf/Twist.hpp", "geometry/op/LogMap.hpp", "geometry/leaf/MatrixRotation.hpp", "geometry/base/RigidTransformBase.hpp"],
  [("small-angle branches", "geometry/leaf/RelativeRotation.hpp:evalImpl"), ("small-angle branch of Jacobians", "geometry/op/LogMap.hpp:jacobianImpl"), ("half-turn branch", "geometry/leaf/MatrixRotation.hpp:evalImpl")],
  ["eval()", "evalWithJacobians()"], FLOW + "; truncated power-series domain around the degenerate points",
  FLOWNOTE + " Neighbourhoods are covered through truncated power series: agreement of the branches is decided to the series' order at the switching threshold.")

P("P09", "All ways of differentiating an expression agree",
  "Forward differentiation of named leaves, reverse differentiation of all leaves, and the dynamic forward and reverse evaluators return the same value and the same Jacobians for the same expression, in the order the leaves occur (reverse) or are named (forward). The result does not depend on which evaluator the library selects for the expression's leaf types.",
  ["inputs", "programs"], "all operand values; expressions over every operator with distinct leaves in every mix of representations",
  "Tests compare modes through finite differences on samples of a few expressions.",
  ["core/functions/TypedJacobianEvaluator.hpp", "core/functions/ReverseJacobianEvaluator.hpp", "core/functions/JacobianEvaluator.hpp", "core/functions/DynamicJacobianEvaluator.hpp", "core/functions/DynamicReverseJacobianEvaluator.hpp", "util/math/MatrixMap.hpp", "docs/autodiff.md"],
  [("typed forward", "core/functions/TypedJacobianEvaluator.hpp:TypedJacobianEvaluator"), ("typed reverse", "core/functions/ReverseJacobianEvaluator.hpp:ReverseJacobianEvaluator"), ("untyped forward", "core/functions/JacobianEvaluator.hpp:JacobianEvaluator"), ("dynamic reverse", "core/functions/DynamicReverseJacobianEvaluator.hpp:DynamicReverseJacobianEvaluator")],
  ["evalWithJacobians()", "evalWithJacobians(leaves...)", "jacobian(leaf)"], FLOW, FLOWNOTE)
P("P18", "Compound vectors evaluate and differentiate element by element",
  "A compound of expressions evaluates to the compound of the values of its elements, and the Jacobian with respect to a leaf stacks the elements' Jacobians in element order, with zero rows for the elements that do not depend on the leaf. Differences and sums of compounds act element by element, and constructing, copying or assigning a compound transfers every element.",
  ["inputs", "programs"], "all operand values; compounds of two and three elements of scalars and vectors, with leaves shared among elements or not",
  "One test evaluates one compound of two scalars.",
  ["core/storage/NaryStorage.hpp", "core/storage/CompoundLeafStorage.hpp", "core/storage/BlockMatrix.hpp", "core/functions/Evaluator.hpp", "core/functions/JacobianEvaluator.hpp", "geometry/base/CompoundBase.hpp", "util/meta/type_list.hpp"],
  [("n-ary Jacobian", "core/functions/JacobianEvaluator.hpp:combineChildJacobians"), ("n-ary evaluation", "core/functions/Evaluator.hpp:expandToChildEvalTuple"), ("block access", "core/storage/BlockMatrix.hpp:BlockMatrix"), ("elementwise box operators", "geometry/base/CompoundBase.hpp:boxMinusImplExpand")],
  ["eval()", "evalWithJacobians()", "BlockMatrix blocks"], FLOW, FLOWNOTE)
P("P20", "Derivatives are taken with respect to the object named, and zero otherwise",
  "When a leaf occurs several times in an expression its Jacobian is the sum over all occurrences, and equal-typed leaves are told apart by identity, not by value. The Jacobian with respect to an object the expression does not contain is the zero matrix of the proper size.",
  ["inputs", "programs"], "all operand values; expressions with repeated leaves, equal-valued distinct leaves, and targets of types that do not occur",
  "Tests use repeated leaves in one or two expressions and never name an absent target of another type.",
  ["core/functions/IsSame.hpp", "core/functions/IsSameType.hpp", "core/functions/JacobianEvaluator.hpp", "core/functions/TypedJacobianEvaluator.hpp", "core/traits/type_traits.hpp"],
  [("leaf identity", "core/functions/IsSame.hpp:isSame"), ("sum over both sides", "core/functions/JacobianEvaluator.hpp:JacobianEvaluator"), ("choice of evaluator", "core/functions/TypedJacobianEvaluator.hpp:evaluateWithJacobiansAuto")],
  ["jacobian(target)", "evalWithJacobians(targets...)"], FLOW,
  FLOWNOTE + " Precondition stated by the library: in an expression whose leaves all have different types, a target of one of these types is that leaf.")

P("P12", "Expressions own temporaries, refer to named operands, and values are independent",
  "An expression keeps every temporary it was built from (leaves, numbers and sub-expressions) alive for its own lifetime, including after it is returned from a function, copied or moved, and refers to named operands, so evaluating it again after a named operand changed uses the operand's current value. Evaluated results and Jacobians are independent values: nothing that happens to the operands or the expression afterwards changes them, and no evaluation reads an object outside its lifetime.",
  ["inputs", "programs", "histories"], "every operator with named, temporary and moved operands; expressions returned from functions; later changes to the operands",
  "A dangling read usually yields the right number on a test's stack; tests evaluate an expression in the statement that builds it.",
  ["core/storage/UnaryStorage.hpp", "core/storage/BinaryStorage.hpp", "core/storage/NaryStorage.hpp", "core/traits/type_traits.hpp", "core/functions/PrepareExpr.hpp", "core/functions/Evaluator.hpp", "util/macros.hpp", "geometry/base/VectorBase.hpp"],
  [("storage by value or reference", "core/traits/type_traits.hpp:cr_sel"), ("operator overloads for lvalues and rvalues", "util/macros.hpp:WAVE_OVERLOAD_FUNCTION_FOR_RVALUES"), ("evaluator tree", "core/functions/Evaluator.hpp:prepareEvaluatorTo")],
  ["eval() after the operands changed or went out of scope", "loads in the compiled evaluators"], FLOW + "; storage lifetimes tracked per object",
  FLOWNOTE + " Lifetimes follow the scopes, heap releases and moved-from states of the compiled program.")
P("P15", "Dynamic expressions and proxies behave like the static expressions they hold",
  "A Dynamic wrapping an expression or leaf and a Proxy referring to one yield the value and Jacobians of the wrapped expression, may be combined with static expressions and with each other in further operations, and share the leaves they name with the rest of the expression. Values and Jacobians follow the current values of the leaves named, and Jacobians may be taken with respect to leaves of any dimension. Assigning to a Proxy rebinds that Proxy: from then on it, and expressions built from it afterwards, use the new target, while copies of it and expressions already built keep the target they were built with; a Proxy made from a temporary keeps it alive.",
  ["inputs", "programs", "histories"], "all operand values; static, dynamic and mixed expressions; sequences of rebinding and of changes to leaves",
  "Two tests use dynamic expressions, each with one shape and one sampled value.",
  ["dynamic/Dynamic.hpp", "dynamic/DynamicBase.hpp", "dynamic/Proxy.hpp", "dynamic/RefProxy.hpp", "core/functions/DynamicJacobianEvaluator.hpp", "core/functions/DynamicReverseJacobianEvaluator.hpp", "core/functions/Evaluator.hpp"],
  [("virtual evaluation", "dynamic/Dynamic.hpp:Dynamic"), ("rebinding", "dynamic/Proxy.hpp:Proxy"), ("dynamic Jacobians", "core/functions/DynamicJacobianEvaluator.hpp:DynamicForwardJacobianEvaluator")],
  ["eval()", "evalWithJacobians()", "jacobian(leaf)"], FLOW, FLOWNOTE)

P("P10", "Constructors, conversions and mapped storage preserve the value",
  "A leaf constructed from Eigen matrices, quaternions, angle-axis objects, vectors or numbers, from another leaf or by conversion between representations denotes exactly the element it was given, and copying, moving and assigning preserve it and leave the source unchanged. Leaves over user memory (Eigen::Map) read and write that memory: expressions see its current contents, and assigning a leaf or expression stores the result there. Setters and part accessors change exactly the part they name.",
  ["inputs", "programs"], "all values; every leaf type, constructor and pair of representations; plain, mapped and framed leaves",
  "Tests construct leaves from a few samples and never check the branches of the conversions.",
  ["core/storage/LeafStorage.hpp", "core/storage/CompoundLeafStorage.hpp", "geometry/leaf/MatrixRotation.hpp", "geometry/leaf/QuaternionRotation.hpp", "geometry/leaf/AngleAxisRotation.hpp", "geometry/leaf/MatrixRigidTransform.hpp", "geometry/leaf/CompactRigidTransform.hpp", "geometry/leaf/Twist.hpp", "geometry/leaf/RelativeRotation.hpp", "geometry/leaf/Scalar.hpp", "geometry/frames/Framed.hpp", "core/op/Convert.hpp", "docs/storage.md"],
  [("constructors and assignment", "core/storage/LeafStorage.hpp:LeafStorage"), ("evalImpl(Convert)", "geometry/leaf/QuaternionRotation.hpp:evalImpl"), ("part accessors", "geometry/leaf/Twist.hpp:Twist::rotation")],
  ["value()", "the mapped memory"], FLOW, FLOWNOTE)
P("P23", "Assigning an expression to one of its operands stores the expression's value",
  "Assigning an expression to a leaf that occurs in it (a = a * b, a = inverse(a), p = R * p + p, part of a transform from the transform) stores the value the expression had before the assignment, for every representation and for mapped and framed leaves.",
  ["inputs", "programs"], "all operand values; every operator with its result assigned to an operand",
  "No test assigns an expression to one of its operands.",
  ["core/storage/LeafStorage.hpp", "core/storage/CompoundLeafStorage.hpp", "core/functions/Evaluator.hpp", "core/functions/PrepareOutput.hpp", "geometry/frames/Framed.hpp", "geometry/base/RigidTransformBase.hpp", "geometry/leaf/Scalar.hpp"],
  [("assignment from an expression", "core/storage/LeafStorage.hpp:operator="), ("evaluateTo", "core/functions/Evaluator.hpp:evaluateTo")],
  ["value() after the assignment"], FLOW, FLOWNOTE)

P("P16", "Identity and zero leaves are the neutral elements of every operation",
  "The compile-time Identity and Zero leaves behave exactly as a leaf holding the identity element or the zero vector would: composing with Identity on either side, inverting it, acting with it, adding, subtracting, scaling or exponentiating Zero and taking log of Identity give the neutral results, in every representation, framed or not, as temporaries or named objects. Jacobians of expressions containing them are those of the expression with the neutral element in its place, and converting or assigning them to a leaf stores the neutral value.",
  ["inputs", "programs"], "all values of the other operands; every operator on either side; every representation wrapped and combined with",
  "Tests construct an Identity and compare a few compositions for sampled values; the simplified overloads of each operator are mostly never instantiated.",
  ["geometry/leaf/Identity.hpp", "geometry/leaf/Zero.hpp", "geometry/leaf/MatrixRotation.hpp", "geometry/leaf/QuaternionRotation.hpp", "geometry/leaf/AngleAxisRotation.hpp", "geometry/leaf/MatrixRigidTransform.hpp", "geometry/leaf/CompactRigidTransform.hpp", "core/functions/AddConversions.hpp"],
  [("evalImpl overloads for Identity", "geometry/leaf/Identity.hpp:evalImpl"), ("evalImpl overloads for Zero", "geometry/leaf/Zero.hpp:evalImpl"), ("conversion to the wrapped leaf", "geometry/leaf/Identity.hpp:traits")],
  ["eval()", "jacobian(leaf)", "value() after conversion or assignment"], FLOW, FLOWNOTE)
P("P17", "Structured matrices equal the dense matrices they stand for",
  "CrossMatrix, IdentityMatrix, BlockMatrix, DiagonalBlockMatrix and MatrixMap give, under every operation they offer (products with vectors and matrices from either side, sums, differences, negation, transpose, scaling, inverse, block and segment access, assignment), the same coefficients as the corresponding dense Eigen matrices. Access by leaf type addresses the rows and columns of exactly that leaf's tangent coordinates, and writing through it changes nothing else.",
  ["inputs", "programs"], "all coefficient values; every operation and operand order; every pair of leaf types indexing a block",
  "Tests compare a few products for random matrices; mixed operand orders, negations, aliasing of temporaries and most block combinations are never instantiated.",
  ["util/math/CrossMatrix.hpp", "util/math/IdentityMatrix.hpp", "util/math/MatrixMap.hpp", "core/storage/BlockMatrix.hpp", "util/meta/type_list.hpp"],
  [("operator* with a cross matrix", "util/math/CrossMatrix.hpp:operator*"), ("identity products", "util/math/IdentityMatrix.hpp:IdentityMatrix"), ("blockWrt", "core/storage/BlockMatrix.hpp:BlockMatrix"), ("pointer-keyed map", "util/math/MatrixMap.hpp:MatrixMap")],
  ["coefficients of the result"], FLOW, FLOWNOTE)
P("P19", "Factors and noise models weight residuals by the inverse square root covariance",
  "A noise model built from standard deviations or from a covariance reports that covariance and an inverse square root L with L^T L = covariance^-1, for every leaf type, and also when read from a temporary. A factor's residual is L (f(x) - z), with f the measurement function evaluated at the parameters in the order given and z the measurement, and evaluateWithJacobians returns the same residual followed by the Jacobians of f with respect to each parameter in that order. A factor keeps its own copy of the measurement and noise and shares its variables; a factor variable's size and data pointer describe exactly the coefficients of its value.",
  ["inputs", "programs", "histories"], "all measurements, noise parameters and parameter values; scalar, vector, framed and compound measurements; measurement functions over one to three parameters",
  "Tests evaluate one distance factor and sample a few covariances.",
  ["estimation/Factor.hpp", "estimation/impl/Factor_impl.hpp", "estimation/FactorBase.hpp", "estimation/Noise.hpp", "estimation/Uncertain.hpp", "estimation/FactorVariable.hpp", "core/storage/BlockMatrix.hpp"],
  [("residual", "estimation/impl/Factor_impl.hpp:Factor::evaluate"), ("residual and Jacobians", "estimation/impl/Factor_impl.hpp:Factor::evaluateWithJacobians"), ("diagonal noise", "estimation/Noise.hpp:DiagonalNoise"), ("full noise", "estimation/Noise.hpp:FullNoise")],
  ["evaluate()", "covariance()", "inverseSqrtCov()"], FLOW,
  FLOWNOTE + " The symmetric square root computed by Eigen's eigen-solver for full covariances is trusted: it is represented by an arbitrary symmetric matrix.")

P("P13", "Evaluation and differentiation have no side effects",
  "Evaluating or differentiating a static expression, in any mode, modifies nothing but its result: not the expression, not its operands, not global or heap state that existed before; so one expression and its operands may be evaluated from several threads at once. Repeating the evaluation, or evaluating a copy of the expression, gives the same values and Jacobians.",
  ["programs", "inputs", "schedules"], "every operator in every mix of representations and every differentiation mode; all operand values; any interleaving of evaluations of shared operands",
  "A hidden write (a cache, a lazily normalised operand, a static buffer) returns correct numbers in every single-threaded test.",
  ["core/functions/Evaluator.hpp", "core/functions/PrepareExpr.hpp", "core/functions/TypedJacobianEvaluator.hpp", "core/functions/ReverseJacobianEvaluator.hpp", "core/functions/JacobianEvaluator.hpp", "core/storage/LeafStorage.hpp", "core/storage/RefSelector.hpp", "geometry/base/RigidTransformBase.hpp"],
  [("evaluator tree", "core/functions/Evaluator.hpp:prepareEvaluatorTo"), ("typed Jacobians", "core/functions/TypedJacobianEvaluator.hpp:TypedJacobianEvaluator"), ("reverse Jacobians", "core/functions/ReverseJacobianEvaluator.hpp:ReverseJacobianEvaluator")],
  ["stores reached from eval(), jacobian() and evalWithJacobians()"], FLOW + "; effect analysis of stores",
  FLOWNOTE + " Every store on every analysed path is attributed to an object; stores to operands, expressions, globals or earlier heap blocks are violations. Dynamic expressions cache their evaluator and are outside this property.")
P("P14", "Static expressions never allocate from the heap",
  "Building, evaluating and differentiating static expressions over fixed-size leaves never allocates heap memory, in any differentiation mode the public interface selects, so they can be used in real-time code.",
  ["programs"], "every operator in every mix of representations and every differentiation mode of the public interface",
  "An allocation changes no result, so no test can fail because of one.",
  ["core/functions/Evaluator.hpp", "core/functions/TypedJacobianEvaluator.hpp", "core/functions/ReverseJacobianEvaluator.hpp", "core/functions/JacobianEvaluator.hpp", "core/storage/BlockMatrix.hpp", "util/math/CrossMatrix.hpp", "util/math/IdentityMatrix.hpp", "core/traits/type_traits.hpp"],
  [("fixed-size Jacobians", "core/traits/type_traits.hpp:jacobian_t"), ("choice of evaluator", "core/functions/TypedJacobianEvaluator.hpp:evaluateWithJacobiansAuto")],
  ["calls of allocation functions reached from eval(), jacobian() and evalWithJacobians()"], FLOW + "; call effects",
  FLOWNOTE)
P("P21", "Numerical Jacobians are the difference quotients of the box operators",
  "Column i of a numerical Jacobian is (f(x + h e_i) - f(x)) / h, where + and - are the box operators of the leaf perturbed and of the value (so perturbations of rotations and transforms stay on the manifold) and every occurrence of the leaf is perturbed. Leaves that do not occur give zero columns, several targets give their Jacobians in the order named, and compound values are differenced block by block.",
  ["inputs", "programs"], "all operand values; vectors, points, scalars, rotations and rigid transforms as targets; unary, binary and n-ary expressions",
  "The tests use numerical Jacobians as the oracle for everything else and never judge them.",
  ["core/functions/NumericalJacobian.hpp", "core/functions/IsSame.hpp", "core/functions/PrepareOutput.hpp"],
  [("perturbed evaluation", "core/functions/NumericalJacobian.hpp:EvaluatorWithDelta"), ("difference quotient", "core/functions/NumericalJacobian.hpp:evaluateNumericalJacobianImpl")],
  ["evaluateNumericalJacobian()", "evaluateNumericalJacobians()"], FLOW,
  FLOWNOTE + " Functions whose value is a rotation or transform are outside the analysed set: their difference quotient needs the logarithm of a constant rotation, which has no value number.")
P("P22", "The headers compose: any order, any number of translation units, no leaks",
  "Each public header compiles by itself, twice, and before or after every other public header, with gcc and clang; together they define nothing that is neither inline nor a template, so any number of translation units that include them link. They leave behind no macro without the WAVE_ prefix, no using-directive at namespace scope, and no declaration outside their namespaces.",
  ["configurations", "programs"], "every ordered pair of public headers; every declaration and macro of the library's files",
  "Each test executable includes a fixed set of headers in one order and mostly consists of one translation unit.",
  ["include/wave/geometry/core.hpp", "include/wave/geometry/geometry.hpp", "include/wave/geometry/dynamic.hpp", "include/wave/geometry/estimation.hpp", "include/wave/geometry/debug.hpp", "util/macros.hpp", "util/math/math.hpp", "core/forward_declarations.hpp", "geometry/forward_declarations.hpp", "debug/PrintExpression.hpp"],
  [("public headers", "include/wave/geometry/geometry.hpp"), ("macros", "util/macros.hpp")],
  ["compiler and linker diagnostics", "names visible after inclusion"], "queries over the syntax tree, the preprocessed text and the compiled symbols of the public headers",
  "Complete over the public headers and their ordered pairs; trusts the compilers.")
P("P24", "Random leaves are valid and uniformly distributed",
  "Random() of every rotation leaf is a proper rotation (unit quaternion, orthonormal matrix of determinant one) uniformly distributed over SO(3); of a vector or point leaf it has independent coefficients uniform in [-1, 1]; of a rigid transform it combines both. Every call uses fresh random numbers.",
  ["inputs"], "all draws of the random generators; every leaf type, framed or not",
  "Tests use Random() as a source of inputs and never look at its distribution.",
  ["util/math/math.hpp", "geometry/op/CommonExpressions.hpp", "geometry/base/RotationBase.hpp", "geometry/base/RigidTransformBase.hpp", "geometry/base/AffineBase.hpp"],
  [("uniform unit quaternion", "util/math/math.hpp:randomQuaternion"), ("uniform number", "util/math/math.hpp:uniformRandom"), ("Random expression", "geometry/op/CommonExpressions.hpp:Random")],
  ["Random()"], FLOW,
  FLOWNOTE + " The generators of the standard library and Eigen are trusted to give independent uniform draws; uniformity is decided by the change of variables formula: the map from the draws to the sphere has constant density, equal to the area of the sphere.")
P("P25", "Single precision leaves behave like double precision leaves",
  "Every kind of leaf instantiated with float supports the same operators, conversions, comparisons, random generation, dynamic expressions and differentiation modes (numerical included) as with double, and computes the same real-number functions and derivatives, with thresholds scaled to its precision where the code derives them from it; values and Jacobians keep the operands' scalar type. Variables of factors are documented to be double.",
  ["inputs", "programs"], "all operand values; every kind of leaf with float coefficients",
  "No test instantiates any leaf with float.",
  ["core/traits/type_traits.hpp", "geometry/leaf/MatrixRotation.hpp", "geometry/leaf/QuaternionRotation.hpp", "geometry/leaf/AngleAxisRotation.hpp", "geometry/leaf/MatrixRigidTransform.hpp", "geometry/leaf/CompactRigidTransform.hpp", "geometry/leaf/RelativeRotation.hpp", "geometry/leaf/Twist.hpp", "geometry/leaf/Scalar.hpp", "geometry/base/ScalarBase.hpp", "geometry/base/VectorBase.hpp"],
  [("scalar type of an expression", "core/traits/type_traits.hpp:scalar_t"), ("Jacobian type", "core/traits/type_traits.hpp:jacobian_t")],
  ["eval()", "evalWithJacobians()"], FLOW, FLOWNOTE)
P("P26", "Approximate comparisons give the documented verdict",
  "isApprox and isZero decide exactly the documented test on the values of their operands, leaves or expressions alike. Vectors, points and scalars are approximately equal when the norm of the difference is within the given precision relative to the smaller norm; rotations and transforms when every coefficient of their box-minus difference, frames ignored, is within it, whatever the representation of either side; compounds when every element is; a value is approximately zero when every coefficient is within the precision. Every value of nonzero norm is approximately equal to itself; a comparison does not change its operands, and without a precision Eigen's default for the scalar type applies.",
  ["inputs"], "all operand values and precisions; every kind of leaf, mixed representations, expression operands, compounds",
  "Tests use isApprox as their oracle and only ever see it return true; one that says true too easily makes every test pass.",
  ["geometry/base/AffineBase.hpp", "geometry/base/ScalarBase.hpp", "geometry/base/TransformBase.hpp", "geometry/base/CompoundBase.hpp", "core/storage/NaryStorage.hpp"],
  [("vector comparison", "geometry/base/AffineBase.hpp:isApprox"), ("scalar comparison", "geometry/base/ScalarBase.hpp:isApprox"), ("transform comparison", "geometry/base/TransformBase.hpp:isApprox"), ("compound comparison", "core/storage/NaryStorage.hpp:compoundIsApprox")],
  ["isApprox()", "isZero()"], FLOW,
  FLOWNOTE + " The verdict is compared on every path of the code and of the formula; coefficients beyond the first two of a difference are taken to be positive (the formula is symmetric in their signs).")


NA = [
    ("P90", "Floating-point accuracy away from degenerate configurations",
     "For generic operands, results differ from the exact real value by no more than a small multiple of the machine precision.",
     ["inputs"], "all operand values", "Tests use loose tolerances on samples.",
     ["core/functions/Evaluator.hpp"], "needs a rounding-error bound over runtime magnitudes for transcendental code; no sound static argument in reach bounds it (an interval analysis of the normalised operands explodes through the divisions by small angles)"),
    ("P91", "Static expressions cost no more than hand-written code",
     "Evaluating an expression and its Jacobians takes no more time than the equivalent hand-written matrix code.",
     ["configurations"], "all optimising compilers", "Benchmarks are measurements on one machine.",
     ["core/functions/Evaluator.hpp"], "run time is a measurement, not a property decidable from the source"),
    ("P93", "Numerical differentiation is accurate",
     "The finite-difference Jacobians agree with the exact derivative to within the truncation and rounding error of the chosen step.",
     ["inputs"], "all functions and points", "Tests use it as an oracle and so cannot judge it.",
     ["core/functions/NumericalJacobian.hpp"], "the error is a balance of truncation and rounding at runtime magnitudes; over exact reals the difference quotient never equals the derivative, so the analysis has nothing sound to compare"),
]
for i, t, st, ov, q, why, files, reason in NA:
    P(i, t, st, ov, q, why, files, [("(not claimed)", files[0])], ["eval()"], na=reason)


def main():
    import config
    root = os.path.dirname(HERE)
    PROP.sort(key=lambda p: p["id"])
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in PROP:
            d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            assert len(d["title"]) <= 80, d["title"]
            for fl in d["anchors"]["files"]:
                assert os.path.exists("/repo/" + fl), fl
            f.write(json.dumps(d) + "\n")
    man = dict(version=1, setup_cmd="bash tools/build.sh", checks=[], not_applicable=[],
               notes="All checks: python3 checks/run.py <ID>. Static analysis only; nothing compiled from /repo is executed. No hooks are needed in /repo; fix: commits are listed in known_findings.json.")
    for p in PROP:
        if p["id"] in config.PROPS:
            man["checks"].append(dict(property=p["id"], quick_cmd="python3 checks/run.py %s --tier quick" % p["id"],
                                      thorough_cmd="python3 checks/run.py %s --tier thorough" % p["id"],
                                      evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=config.PROPS[p["id"]]["level"],
                                      level_note=p["note"]))
        else:
            man["not_applicable"].append(dict(property=p["id"], reason=p["na"] or "no check registered yet"))
    json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    print(len(PROP), "properties,", len(man["checks"]), "checks")


if __name__ == "__main__":
    main()
