import json
G="include/wave/geometry/src/"
def P(id,title,st,over,qt,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=[G+f if not f.startswith('include') else f for f in files],mechanism=[dict(name=n,where=G+w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name='state',meaning=state,where=mech[0][1] and G+mech[0][1])]
    return d
ps=[
P("C01","Expressions of rotations and rigid transforms evaluate to the group operations",
 "Evaluating an expression built from compositions, inverses and applications of rotations and rigid transforms to vectors gives the value of the corresponding SO(3)/SE(3) operations on the operands' current values. This holds for every nesting of these operations, with any variable occurring any number of times.",
 ["programs","inputs"],"every well-formed expression over rotations, transforms and vectors, and all values of its variables",
 "The tests evaluate each operator on a few shapes and random values and mostly compare the library with itself; the number of operator nestings and representation pairs is unbounded and each one instantiates its own evaluation path.",
 ["core/functions/Evaluator.hpp","core/functions/AddConversions.hpp","geometry/op/Compose.hpp","geometry/op/Inverse.hpp","geometry/op/Rotate.hpp","geometry/op/Transform.hpp","geometry/base/TransformBase.hpp","geometry/base/RigidTransformBase.hpp","geometry/leaf/MatrixRotation.hpp","geometry/leaf/QuaternionRotation.hpp","geometry/leaf/AngleAxisRotation.hpp"],
 [("evaluation of an expression tree","core/functions/Evaluator.hpp"),("composition, inverse, rotate, transform","geometry/base/RigidTransformBase.hpp")]),
P("C02","Results do not depend on how operands are represented or stored",
 "Replacing an operand by another representation of the same element (rotation matrix, quaternion of either sign, angle-axis; matrix or compact transform; own storage, mapped external memory or a block of a matrix; single or double precision up to rounding) does not change the value or the derivatives of an expression. Converting, constructing, assigning or casting between representations preserves the element, including at half turns and at the identity, and assigning to a mapped operand writes exactly the mapped memory.",
 ["inputs","programs"],"every element of each space, every pair of representations, every operation taking them, every expression assigned to a variable",
 "Tests use random rotations, which never are half turns or identities and rarely mix representations, and check few of the conversion pairs.",
 ["core/functions/AddConversions.hpp","core/op/Convert.hpp","core/storage/LeafStorage.hpp","core/storage/CompoundLeafStorage.hpp","geometry/leaf/MatrixRotation.hpp","geometry/leaf/QuaternionRotation.hpp","geometry/leaf/AngleAxisRotation.hpp","geometry/leaf/CompactRigidTransform.hpp","geometry/leaf/MatrixRigidTransform.hpp"],
 [("conversions between leaf types","core/functions/AddConversions.hpp"),("leaf storage and assignment","core/storage/LeafStorage.hpp")]),
P("C03","Exponential, logarithm and manifold plus/minus are those of SO(3) and SE(3)",
 "The exponential map, the logarithmic map and the manifold plus and minus operators on rotations and rigid transforms give the values of the group's maps (perturbation on the left, rotation components first), with the logarithm's rotation angle in [0, pi]. They are finite and accurate for every argument: zero, arbitrarily small rotations, rotations close to and at a half turn, and rotation vectors longer than a half turn.",
 ["inputs","programs"],"all rotations, transforms and tangent vectors, in every representation, as operands that are variables or nested expressions",
 "Tests sample random elements (angle around 1 rad); the interesting arguments (tiny angles around the switch-over thresholds, angles near pi, exact pi) have measure zero.",
 ["geometry/op/ExpMap.hpp","geometry/op/LogMap.hpp","geometry/op/BoxPlus.hpp","geometry/op/BoxMinus.hpp","geometry/leaf/RelativeRotation.hpp","geometry/leaf/Twist.hpp","geometry/leaf/MatrixRotation.hpp","geometry/base/RigidTransformBase.hpp"],
 [("exponential maps","geometry/leaf/Twist.hpp"),("logarithmic maps","geometry/leaf/MatrixRotation.hpp")]),
P("C04","Jacobians are the exact derivatives",
 "For every expression and every variable in it, the Jacobian the library computes is the derivative of the expression's value with respect to a perturbation of that variable, with the group's left perturbation for rotations and transforms and ordinary addition for vectors, points and scalars. It is finite and accurate wherever the expression is differentiable, including at zero, small and half-turn rotations.",
 ["programs","inputs"],"every differentiable expression, each of its variables, all values",
 "Tests compare a limited set of expressions against finite differences at random points with a loose tolerance, so wrong terms which are small at those points, or appear only when operators are nested or at special angles, are invisible.",
 ["core/functions/JacobianEvaluator.hpp","core/functions/TypedJacobianEvaluator.hpp","geometry/base/TransformBase.hpp","geometry/base/RigidTransformBase.hpp","geometry/base/VectorBase.hpp","geometry/base/ScalarBase.hpp","geometry/op/LogMap.hpp","geometry/leaf/Twist.hpp","geometry/leaf/RelativeRotation.hpp"],
 [("forward chain rule","core/functions/JacobianEvaluator.hpp"),("local Jacobians of operators","geometry/base/RigidTransformBase.hpp")]),
P("C05","All differentiation methods agree",
 "For every expression, evaluating a Jacobian by any of the offered methods (forward by variable, forward by variable type, reverse, run-time polymorphic forward and reverse, numerical differences) gives the same Jacobian up to the method's accuracy, and every method which also returns the value returns the same value as plain evaluation. Asking for several variables at once, in any order, gives each variable's own Jacobian in the requested position.",
 ["programs","inputs"],"every expression, every subset and order of its variables, every method applicable to it",
 "Each method is a separate recursive implementation; tests exercise them on a handful of shapes, and the typed and reverse methods only for those shapes.",
 ["core/functions/JacobianEvaluator.hpp","core/functions/TypedJacobianEvaluator.hpp","core/functions/ReverseJacobianEvaluator.hpp","core/functions/DynamicJacobianEvaluator.hpp","core/functions/DynamicReverseJacobianEvaluator.hpp","core/functions/NumericalJacobian.hpp","util/math/MatrixMap.hpp"],
 [("forward","core/functions/JacobianEvaluator.hpp"),("reverse","core/functions/ReverseJacobianEvaluator.hpp"),("dynamic reverse accumulation","core/functions/DynamicReverseJacobianEvaluator.hpp")]),
P("C06","Reference frames are checked: exactly the consistent expressions compile",
 "An expression, construction or assignment of quantities carrying reference frames compiles if and only if the frames of the operands are consistent under the rule of its operation, and its result carries the frames the rule gives. Operations on quantities without frames are always accepted.",
 ["programs"],"every operation and every assignment of frames to its operands, in nested expressions as well",
 "A test that compiles cannot contain the programs that must be rejected, and the tests contain no negative compilations.",
 ["geometry/frames/Framed.hpp","geometry/frames/frame_traits.hpp","geometry/frames/frame_cast.hpp","geometry/op/Compose.hpp","geometry/op/Sum.hpp","geometry/op/Subtract.hpp","geometry/op/Rotate.hpp","geometry/op/Transform.hpp","geometry/op/BoxPlus.hpp","geometry/op/BoxMinus.hpp"],
 [("frame checks","geometry/op/Sum.hpp"),("result frames","geometry/frames/frame_traits.hpp")]),
P("C07","Expressions refer to named variables and own temporaries",
 "An expression refers to the named variables it was built from and owns the temporaries (including moved-from variables and subexpressions passed as temporaries), so evaluating it, any number of times, uses the variables' current values and the temporaries' values from construction. Copies and moves of an expression evaluate as the original, evaluation never changes any operand, no evaluation reads storage whose lifetime has ended, and assigning an expression to a variable it mentions stores the value computed from the old values.",
 ["histories","programs"],"every sequence of building, copying, moving, mutating, assigning and evaluating expressions and variables",
 "Tests build an expression and evaluate it at once within one scope; a dangling reference usually still reads the right value there.",
 ["core/storage/UnaryStorage.hpp","core/storage/BinaryStorage.hpp","core/storage/NaryStorage.hpp","core/storage/RefSelector.hpp","core/functions/Evaluator.hpp","core/functions/PrepareExpr.hpp","core/functions/PrepareOutput.hpp","util/macros.hpp"],
 [("choice of reference or value","core/storage/RefSelector.hpp"),("rvalue overloads","util/macros.hpp")],
 "variables' values; for each expression, which operands are references and which are owned copies"),
P("C08","Run-time polymorphic expressions behave as the expressions they hold",
 "A proxy evaluates, and differentiates, as the expression it holds: its value and its Jacobians (forward, reverse, numerical; with respect to variables and to other proxies) equal those of the corresponding static expression of the variables' current values, over any nesting of proxies and reference proxies. An expression or proxy built from a proxy keeps what that proxy held at that time: copies share the held expression, and later re-assignment of the source, or of a proxy used inside it, does not affect them.",
 ["histories","programs"],"every sequence of creating, copying, re-assigning and combining proxies, reference proxies and static expressions, and evaluating values and Jacobians in between",
 "Tests hold a few fixed expressions in proxies; sharing, rebinding and deep chains, which decide object identity and reverse accumulation, are a space of histories.",
 ["dynamic/Dynamic.hpp","dynamic/DynamicBase.hpp","dynamic/Proxy.hpp","dynamic/RefProxy.hpp","core/functions/DynamicJacobianEvaluator.hpp","core/functions/DynamicReverseJacobianEvaluator.hpp"],
 [("proxy storage","dynamic/Proxy.hpp"),("reverse accumulation over shared nodes","core/functions/DynamicReverseJacobianEvaluator.hpp")],
 "for each proxy, the expression it holds"),
P("C09","Symbolic identity and zero are interchangeable with concrete ones",
 "Using the symbolic identity rotation or transform, or the symbolic zero vector, anywhere in an expression gives the same value, the same Jacobians for the other variables, and the same accepted programs as using a variable holding that element.",
 ["programs","inputs"],"every operation and nesting with a symbolic constant in any operand position",
 "Constants have separate short-cut implementations for each operation; tests touch some of them once.",
 ["geometry/leaf/Identity.hpp","geometry/leaf/Zero.hpp","geometry/base/RotationBase.hpp","geometry/leaf/MatrixRigidTransform.hpp"],
 [("short cuts for identity","geometry/leaf/Identity.hpp"),("short cuts for zero","geometry/leaf/Zero.hpp")]),
P("C10","Vector, point and scalar expressions evaluate to ordinary algebra",
 "Sums, differences, negations, scalings by scalar expressions or plain numbers, dot products, norms, normalisations, scalar arithmetic and arccos give the values of the ordinary operations on every kind of vector (translations, rotation vectors, twists), point and scalar. A point plus or minus a vector is a point and the difference of points is a vector.",
 ["programs","inputs"],"every expression over vectors, points and scalars, all values including zero",
 "Tests cover one or two shapes per operator with random values.",
 ["geometry/base/VectorBase.hpp","geometry/base/AffineBase.hpp","geometry/base/ScalarBase.hpp","geometry/op/Sum.hpp","geometry/op/Subtract.hpp","geometry/op/Minus.hpp","geometry/op/Scale.hpp","geometry/op/Product.hpp","geometry/op/Divide.hpp","geometry/leaf/Scalar.hpp","util/macros.hpp"],
 [("vector operators","geometry/base/VectorBase.hpp"),("scalar operators","geometry/base/ScalarBase.hpp")]),
P("C11","Compound values behave element by element",
 "A compound of several vectors and scalars evaluates, adds, subtracts, compares, is copied and assigned element by element, its elements keeping their values and frames. The Jacobian of a compound expression with respect to a variable stacks the Jacobians of its elements in order, whatever the sizes of the elements, whichever of them contain the variable and whether they are variables or expressions, for forward, run-time and numerical differentiation.",
 ["programs","inputs"],"every compound of vectors and scalars of any sizes, in any order, its elements being variables or nested expressions sharing variables",
 "The only compound in the tests has two scalar elements; block offsets are only exercised by elements of different sizes.",
 ["core/storage/NaryStorage.hpp","core/storage/CompoundLeafStorage.hpp","core/storage/BlockMatrix.hpp","geometry/base/CompoundBase.hpp","core/functions/JacobianEvaluator.hpp","core/functions/ReverseJacobianEvaluator.hpp","core/functions/DynamicReverseJacobianEvaluator.hpp"],
 [("compound storage","core/storage/NaryStorage.hpp"),("rows of a compound's Jacobian","core/functions/JacobianEvaluator.hpp")]),
P("C12","Factors return the normalised residual and Jacobians of the measurement model",
 "A factor's residual is the measurement function of its variables' given values minus the measurement, multiplied by the square root of the inverse measurement covariance, and its Jacobians are the derivatives of the measurement function (without that normalisation) with respect to the variables, in the order of the variables. A factor lists the variables it was made with, in their order. Evaluating a factor with given parameters neither reads nor changes the variables' stored values, and the same variable may be used by several factors.",
 ["inputs","programs"],"every measurement functor, number and kind of variables, measurement, noise model and parameter values",
 "The tests use three functors with two variables each at one or two points with diagonal or trivial noise.",
 ["estimation/Factor.hpp","estimation/impl/Factor_impl.hpp","estimation/FactorBase.hpp","estimation/FactorVariable.hpp","estimation/Uncertain.hpp","estimation/Noise.hpp"],
 [("factor evaluation","estimation/impl/Factor_impl.hpp")]),
P("C13","Noise models are consistent with their covariance",
 "A noise model built from standard deviations, or from a symmetric positive definite covariance matrix, whether diagonal or with correlations, reports that covariance, and its square-root inverse covariance L satisfies L^T L C = I. The diagonal and full models agree on diagonal covariances.",
 ["inputs"],"all positive definite covariances of any size and all positive standard deviations",
 "Tests check random diagonal or nearly diagonal covariances of fixed size; transposition and ordering mistakes need correlated entries.",
 ["estimation/Noise.hpp"],[("noise models","estimation/Noise.hpp")]),
P("C14","Variables are identified as objects",
 "Derivatives are with respect to a variable as an object: two variables of the same type and equal value are different, every occurrence of the same object contributes, and the derivative with respect to an object which does not occur in the expression is zero (forward differentiation at compile time may instead reject a variable whose type does not occur). Two expressions compare as the same exactly if they have the same type, their operands being held in the same way, over the same stored objects.",
 ["programs","inputs"],"every expression in which variables repeat, have equal values, or are absent, by forward and run-time polymorphic methods",
 "Tests rarely repeat a variable or ask for an absent one; identity is compared by address, type and storage, which differ between variables, proxies, owned copies and framed wrappers.",
 ["core/functions/IsSame.hpp","core/functions/IsSameType.hpp","core/functions/JacobianEvaluator.hpp","core/functions/DynamicJacobianEvaluator.hpp","core/functions/DynamicReverseJacobianEvaluator.hpp","util/math/MatrixMap.hpp"],
 [("comparison of expressions","core/functions/IsSame.hpp")]),
P("C15","Parts of transforms and twists can be read and assigned",
 "The rotation and translation parts of a transform, a transform expression or a twist have the values, frames and derivatives of those parts. Assigning an expression to a part of a variable sets exactly that part and leaves everything else unchanged, for every representation and with the assigned expression computed from the values before the assignment.",
 ["programs","inputs","histories"],"every transform representation, part, and assigned expression, including expressions that mention the variable itself",
 "Tests assign concrete values to parts of two leaf types; parts of nested expressions and self-referencing assignments are not covered.",
 ["core/op/MemberAccess.hpp","geometry/base/TransformBase.hpp","geometry/leaf/CompactRigidTransform.hpp","geometry/leaf/MatrixRigidTransform.hpp","geometry/leaf/Twist.hpp"],
 [("member access expressions","core/op/MemberAccess.hpp")]),
P("C16","Structured matrices equal the dense matrices they stand for",
 "The cross-product matrix, the structured identity matrix, the matrix with per-variable blocks and the map from variables to matrices behave in every supported operation as the dense matrix (or map) they represent. Block views address exactly the rows and columns of their variables.",
 ["inputs","histories"],"all values and sizes, every supported operation, and every sequence of updates of a map or of blocks",
 "Tests check a few products with random matrices; block offsets for other layouts and accumulation histories are not covered.",
 ["util/math/CrossMatrix.hpp","util/math/IdentityMatrix.hpp","util/math/MatrixMap.hpp","core/storage/BlockMatrix.hpp","util/math/math.hpp"],
 [("cross matrix","util/math/CrossMatrix.hpp"),("block matrix","core/storage/BlockMatrix.hpp"),("matrix map","util/math/MatrixMap.hpp")]),
P("C17","Approximate comparison decides closeness of elements",
 "Approximate equality of rotations and of transforms holds exactly when no component of their manifold difference exceeds the given precision, whatever their representations, and for vectors, points and scalars when the norm of the difference is at most the precision times the smaller norm. Comparison of a vector, point or scalar with zero holds exactly when no component exceeds the precision, and comparing expressions gives the same answer as comparing their values.",
 ["inputs","programs"],"all pairs of elements and expressions, all representations, all precisions",
 "Tests use the comparison as their own oracle: a comparison that accepts too much makes tests pass.",
 ["geometry/base/TransformBase.hpp","geometry/base/AffineBase.hpp","geometry/base/ScalarBase.hpp","geometry/base/CompoundBase.hpp","core/storage/NaryStorage.hpp"],
 [("approximate comparison","geometry/base/TransformBase.hpp")]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in ps: f.write(json.dumps(p)+"\n")
