"""Writes /verif/properties.jsonl (kept as code so that titles, statements and anchors stay reviewable)."""
import json
import os

V = "src/coordinax/_src/vectors/"
O = "src/coordinax/_src/operators/"
F = "src/coordinax/_coordinax_space_frames/"
D = "src/coordinax/_src/distances/"
A = "src/coordinax/_src/angles/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})

prop("P01", "Changing representation never moves the point",
     "Re-expressing a position in any other representation of the same dimensionality (Cartesian, radial, polar, "
     "cylindrical, the three spherical conventions, prolate spheroidal with a focal length) yields a vector of the "
     "requested type that denotes the same point of space. Going through any chain of intermediate representations "
     "gives the same point as going directly, and coming back returns the original point. Poles, axes, the focal "
     "points and the origin are included, whatever the units, magnitude and batch shape.",
     ["inputs", "histories"],
     "for all points, all ordered pairs and chains of same-dimension representations, all units, magnitudes, shapes, "
     "eager or traced evaluation",
     "the conversion table is a graph of a few hand-written edges plus generic routes through intermediates; tests "
     "sample one generic point per edge and compare a few printed digits",
     [V + "d1/transform.py", V + "d2/transform.py", V + "d3/transform.py", V + "dn/transform.py"],
     [("represent_as position conversions", V + "d3/transform.py"),
      ("fallback routing through Cartesian", V + "d3/transform.py"),
      ("2-D and 1-D conversions", V + "d2/transform.py")])

prop("P02", "Components are always in canonical range; bad ones are refused",
     "A successfully built or converted position has every radius and distance non-negative, every polar angle within "
     "[0, 180] degrees, every latitude within [-90, 90] degrees, and prolate coordinates with positive focal length "
     "Delta, mu >= Delta^2 and |nu| <= Delta^2, boundaries included. Constructing one from plain quantities outside "
     "these ranges raises, for a single bad element of a batch as well. An azimuth or longitude given as a plain "
     "quantity is wrapped into [0, 360) degrees, keeping the direction it denotes.",
     ["inputs"],
     "for all component values on, inside and outside the range limits, in all units and batch positions",
     "range checks are per component and per class and the limits are closed or half-open; tests probe one value "
     "inside and one far outside",
     [V + "checks.py", V + "converters.py", V + "d2/polar.py", V + "d3/spherical.py", V + "d3/lonlatspherical.py",
      V + "d3/mathspherical.py", V + "d3/spheroidal.py", V + "d3/cylindrical.py"],
     [("range checks", V + "checks.py"), ("azimuth wrapping converter", V + "converters.py"),
      ("class __check_init__ hooks", V + "d3/spherical.py")])

prop("P03", "Out-of-range spherical input is normalised to the same point",
     "Building a physics-convention or mathematics-convention spherical position from keyword components whose radius "
     "is negative, whose polar angle leaves [0, 180] degrees or whose azimuth leaves [0, 360) degrees, in any "
     "combination, yields an in-range vector denoting exactly the point that the raw components denote by the "
     "trigonometric formulas. The lon-lat convention does the same for a negative distance and for latitudes folded "
     "over a pole (up to 270 degrees either way). Each batch element is normalised independently.",
     ["inputs"],
     "for all signs of the radius, all polar angles and azimuths including multiples of half turns, all units",
     "the folds interact (a negative radius turns the polar angle, which turns the azimuth); a test samples a handful "
     "of the combinations",
     [V + "d3/spherical.py", V + "d3/mathspherical.py", V + "d3/lonlatspherical.py"],
     [("from_ with keyword components, spherical", V + "d3/spherical.py"),
      ("from_ with keyword components, mathematics convention", V + "d3/mathspherical.py"),
      ("from_ with keyword components, lon-lat", V + "d3/lonlatspherical.py")])

prop("P04", "Velocities transform by the exact Jacobian of the position map",
     "Re-expressing a velocity in another representation at a given position gives the components obtained from the "
     "Jacobian of the position transformation at that position, including the longitude rate multiplied by the "
     "cosine of latitude. The result does not depend on the representation in which the position is supplied (or on "
     "supplying it as a Cartesian length quantity) nor on intermediate representations, the Cartesian velocity and "
     "the speed are invariant, and the round trip returns the original components. Batched velocities use the "
     "position of the same batch element.",
     ["inputs", "histories"],
     "for all regular positions, all velocities, all ordered pairs and chains of velocity representations",
     "every pair has its own Jacobian and unit bookkeeping; tests compare printed digits at one or two points, where "
     "errors in unexercised entries of the Jacobian vanish",
     [V + "transform/velocities.py", V + "d3/transform.py", V + "d1/transform.py", V + "d2/transform.py"],
     [("velocity conversion by automatic differentiation", V + "transform/velocities.py"),
      ("longitude-cosine-latitude conversions", V + "d3/transform.py")])

prop("P05", "Accelerations transform by the Jacobian and round-trip",
     "Re-expressing an acceleration in another representation at a given velocity and position gives the components "
     "obtained by applying the Jacobian of the position transformation at that position, whatever the representation "
     "in which position and velocity are supplied. Chains through intermediate representations agree with the direct "
     "conversion and the round trip returns the original components.",
     ["inputs", "histories"],
     "for all regular positions, velocities and accelerations, all ordered pairs and chains of representations",
     "as for velocities; the repository's tests only exercise a fixed pair of points",
     [V + "transform/accelerations.py", V + "d1/transform.py", V + "d2/transform.py"],
     [("acceleration conversion", V + "transform/accelerations.py")])

prop("P06", "Dimension-changing conversions embed or project as documented",
     "Converting a position to fewer dimensions keeps the documented coordinates (x, or x and y, or the radius of "
     "the source representation) and warns that the change is irreversible; a conversion that keeps or raises the "
     "number of dimensions never gives that warning. Converting to more dimensions places the point with the missing "
     "coordinates taken from the keyword arguments given and zero otherwise (for a spherical target the source radius "
     "becomes the spherical radius and the missing angles default to zero). Dropping added Cartesian or cylindrical "
     "coordinates again returns the original point. A radius that would be negative is refused.",
     ["inputs", "configurations"],
     "for all pairs of source and target dimension with a registered conversion, all subsets of extra keyword "
     "coordinates, all points and units",
     "each pair is a separate hand-written rule with its own keyword defaults; tests check single printed values",
     [V + "transform/d1.py", V + "transform/d2.py", V + "transform/d3.py"],
     [("1-D to higher", V + "transform/d1.py"), ("2-D to 1-D and 3-D", V + "transform/d2.py"),
      ("3-D to lower", V + "transform/d3.py")])

prop("P07", "Vector arithmetic is Cartesian arithmetic of the points",
     "Adding, subtracting and negating positions, multiplying them by a number from either side and dividing them by "
     "a number give a vector of the left operand's representation denoting the corresponding Cartesian combination "
     "of the points, for every pair of representations of equal dimension; a result its representation cannot hold (a "
     "negative one-dimensional radius) is refused. The norm of a position is its distance from the origin. Velocities "
     "and accelerations negate component by component; the Cartesian ones, wherever they support addition, "
     "subtraction or scaling by a number from the left, do so component by component, and their norm is their "
     "Euclidean length.",
     ["inputs", "histories"],
     "for all points and scalars, all pairs of operand representations, all sequences of operations",
     "the rules are registered per class pair and per primitive; tests touch a few pairs and rarely mix "
     "representations or chain operations",
     [V + "base/base_pos.py", V + "base/base.py", V + "d1/cartesian.py", V + "d2/cartesian.py", V + "d3/cartesian.py",
      V + "dn/cartesian.py", V + "d1/radial.py", V + "d2/polar.py", V + "d3/mathspherical.py"],
     [("generic position arithmetic", V + "base/base_pos.py"), ("Cartesian 3-D arithmetic", V + "d3/cartesian.py"),
      ("Cartesian n-D arithmetic", V + "dn/cartesian.py")])

prop("P08", "Equality is elementwise and independent of units",
     "Comparing two vectors of the same representation answers, element by element of the batch, whether all their "
     "components are equal as physical quantities, whatever units either is stored in. A position compared with a "
     "position in another representation is first re-expressed, so clearly distinct points never compare equal.",
     ["inputs"],
     "for all pairs of vectors differing in any subset of components and batch elements, all unit assignments",
     "equality reduces over a tree of components; tests compare scalars with themselves",
     [V + "base/base.py", V + "base/base_pos.py", V + "base/register_primitives.py"],
     [("component-tree equality", V + "base/base.py"), ("cross-representation equality", V + "base/base_pos.py")])

prop("P09", "Units never change what a vector means",
     "Converting a vector's units through a unit system, a mapping from dimensions to units, or the request for "
     "consistent units leaves the vector it denotes and its representation unchanged and gives each component exactly "
     "the requested unit (for consistent units: the unit of the first component of that dimension). Any operation "
     "gives the same physical result whatever compatible units its inputs are stored in.",
     ["inputs", "configurations"],
     "for all vectors of all classes, all compatible unit assignments including mixed ones",
     "each component carries its own unit and every formula mixes them; tests use one unit per dimension",
     [V + "base/compat.py", V + "base/base.py"],
     [("uconvert overloads", V + "base/compat.py")])

prop("P10", "Batched vectors behave as arrays of vectors",
     "The shape, size, length and dimensionality of a vector are those of its broadcast components, and indexing, "
     "reshaping, flattening, raveling, transposing and broadcasting rearrange the batch exactly as they rearrange an "
     "array of that shape, keeping every element's vector intact, also when components are stored with different "
     "broadcastable shapes. Representation changes commute with indexing and reshaping. This holds for fixed-dimension "
     "and n-dimensional vectors.",
     ["inputs", "histories"],
     "for all batch shapes up to three axes (also empty), all basic and integer-array indices, all broadcastable "
     "component shapes, and sequences of such operations",
     "array methods are applied component by component; only exhaustive shapes reveal components that get out of step",
     [V + "base/base.py", V + "dn/base.py", V + "utils.py", V + "base/register_primitives.py", V + "base/base_pos.py"],
     [("array methods", V + "base/base.py"), ("n-dimensional overrides", V + "dn/base.py"),
      ("full_shaped broadcasting", V + "utils.py")])

prop("P11", "Velocity times time is displacement, acceleration times time velocity",
     "Multiplying a velocity by a time gives the position-type vector of the matching representation whose components "
     "are the products; an acceleration times a time gives the matching velocity, and times a squared time the "
     "matching position. The time may also be the left operand of an acceleration's multiplication (as an array "
     "function), units combine, and batches broadcast elementwise.",
     ["inputs"],
     "for all velocity and acceleration classes, all component values, times and units for which the result is a "
     "valid vector",
     "the rule renames components and re-dispatches on dimensions for each class; tests cover few of the classes",
     [V + "base/base_vel.py", V + "base/base_acc.py"],
     [("velocity * time", V + "base/base_vel.py"), ("acceleration * time", V + "base/base_acc.py")])

prop("P12", "Operators act the same however the argument is given",
     "Applying an operator (rotation, spatial translation, space-time translation, boost, velocity boost, identity, "
     "and their compositions) gives the mathematically defined action on the point, whether the point is passed as a "
     "Cartesian vector, as a vector in any other representation, as a bare quantity, together with a time, or as an "
     "event. A vector argument comes back in its own representation. Translations, velocity boosts and the identity "
     "also act on a velocity paired with the position: the Cartesian velocity is unchanged or boosted, and is "
     "re-expressed at the new position.",
     ["inputs", "configurations"],
     "for all operators and parameters, all points, times and velocities, all argument forms and representations",
     "each operator re-implements the same action once per argument form; tests compare forms at one point",
     [O + "base.py", O + "compat.py", O + "galilean/rotation.py", O + "galilean/spatial_translation.py",
      O + "galilean/translation.py", O + "galilean/boost.py", O + "galilean/composite.py", O + "boost.py",
      O + "identity.py"],
     [("argument-form adaptation", O + "base.py"), ("rotation action", O + "galilean/rotation.py"),
      ("translation action", O + "galilean/spatial_translation.py"), ("boost action", O + "galilean/boost.py")])

prop("P13", "An operator's inverse undoes it",
     "For every operator, including any composition, applying the operator and then its inverse returns the original "
     "position, time and velocity, and so does applying the inverse first. The inverse of the inverse acts like the "
     "original operator.",
     ["inputs", "histories"],
     "for all operators, nestings and compositions, and all arguments",
     "the inverse of a composition must invert each part and reverse the order; commuting test cases cannot tell",
     [O + "pipe.py", O + "composite.py", O + "galilean/rotation.py", O + "galilean/composite.py",
      O + "galilean/translation.py", O + "galilean/boost.py", O + "boost.py"],
     [("composition inverse", O + "composite.py"), ("operator inverses", O + "galilean/composite.py")])

prop("P14", "Composed operators apply left to right, however they are built",
     "A sequence of operators applies them in order, the first one first. Building the sequence with the pipe "
     "operator, by nesting sequences, by slicing one, or from a composite operator's parts gives the same action and "
     "the order is preserved in every case.",
     ["inputs", "histories"],
     "for all sequences of operators up to a bound and all ways of bracketing, nesting and slicing them",
     "order errors are invisible for commuting operators and for pairs; tests use short sequences of shifts",
     [O + "pipe.py", O + "composite.py", O + "base.py", O + "galilean/composite.py"],
     [("sequential application", O + "composite.py"), ("| composition", O + "pipe.py")])

prop("P15", "Simplifying an operator never changes its action",
     "The simplified form of any operator or composition acts on every argument as the original does, up to the "
     "tolerance the caller gives (by default numpy's closeness in the operator's own units). An elementary operator, "
     "or a Galilean composite, that does nothing simplifies to the identity, and adjacent operators of one kind may "
     "be merged only into their composition in the given order.",
     ["inputs", "histories"],
     "for all operators and compositions, including trivial and nearly trivial parts, and all arguments",
     "merging rules are pairwise and order-sensitive; tests simplify commuting or trivial cases",
     [O + "register_simplify.py", O + "galilean/rotation.py", O + "galilean/spatial_translation.py",
      O + "galilean/translation.py", O + "galilean/boost.py", O + "galilean/composite.py", O + "boost.py",
      O + "identity.py"],
     [("simplify_op", O + "register_simplify.py"), ("pairwise merge rules", O + "galilean/rotation.py")])

prop("P16", "Frame transformations follow the frame definition and invert",
     "Changing between the ICRS frame and a Galactocentric frame (any galactic centre, distance, roll, height of the Sun "
     "and solar motion) moves positions and velocities exactly as the frame's documented definition says: rotate to the "
     "galactic centre, shift by its distance, tilt by the Sun's height, add the Sun's motion to velocities. Between any "
     "two frames, going there and back changes nothing, A to B to C is A to C, and equal frames give the identity. "
     "NoFrame has no transform to or from anything. A frame built without arguments has the documented defaults.",
     ["inputs", "configurations"],
     "for all frame parameters and all positions and velocities",
     "the formula composes six rotations and shifts with a sign convention for each parameter; tests check the "
     "default parameters only",
     [F + "frame_transforms.py", F + "galactocentric.py", "src/coordinax/_src/frames/base.py",
      "src/coordinax/_src/frames/null.py", "src/coordinax/_src/frames/xfm.py"],
     [("ICRS to Galactocentric", F + "frame_transforms.py"), ("frame objects", F + "galactocentric.py")])

prop("P17", "Space-time events keep their interval and light speed",
     "A FourVector is a time and a three-dimensional position of any class: adding, subtracting, negating, scaling and "
     "comparing events acts on time and position separately, whatever classes the positions are written in, and keeps "
     "the event's own speed of light. The interval is (c t)^2 - |q|^2 and the norm its (complex) root. An event built "
     "from one array (ct, x, y, z) and turned back into an array is unchanged. Wrong numbers of components, wrong "
     "dimensions and times that do not broadcast against the positions are refused. Every attribute of the position can "
     "be read from the event.",
     ["inputs", "histories"],
     "for all events, spatial representations, units, batch shapes and light-speed values",
     "the event wraps another vector and delegates most operations; tests use the default light speed and scalars",
     [V + "d4/spacetime.py", V + "d4/compat.py", V + "d4/base.py", O + "compat.py"],
     [("four-vector arithmetic and norm", V + "d4/spacetime.py")])

prop("P18", "A phase-space collection stays consistent",
     "A Space holds one vector for each kind of quantity (length, speed, acceleration) under its dimension name, reachable "
     "by its aliases as well; all ways of building it are equivalent; two members of one kind, or members whose shapes do "
     "not broadcast, are refused; its shape is the members' common shape. Re-expressing it in a position class "
     "re-expresses every member, velocities and accelerations at the collection's own position. Indexing, reshaping and "
     "other array operations, unit conversion, negation (Cartesian members) and replacing act on every member. Equality is "
     "member by member and collections of different kinds are unequal. The Poincare form and back is the same collection "
     "up to the number of whole turns of an azimuth.",
     ["inputs", "histories"],
     "for all members, key spellings, batch shapes and target representations",
     "members are stored independently and keyed by dimension; tests check one key spelling and scalars",
     [V + "space/core.py", V + "space/compat.py", V + "transform/space.py", V + "transform/dn.py",
      V + "dn/poincare.py"],
     [("Space container", V + "space/core.py"), ("Poincare conversion", V + "transform/space.py")])

prop("P19", "Distance, parallax and distance modulus are mutually consistent",
     "A distance written as a Distance, a Parallax or a DistanceModulus is one length: D = AU / tan p and D = 10^(m/5 + 1) pc, "
     "through every property, from_ form and plain-quantity conversion, and back exactly. Values of the wrong dimension are "
     "refused at construction, and a negative parallax is refused unless checking is turned off. Addition, subtraction, "
     "negation, scaling by a number, absolute values, sums, means, extrema, comparisons, stacking and indexing act linearly on "
     "what is written and keep the class; powers, roots and products of arrays give plain quantities of the right "
     "dimension. A radius of any vector class given as a parallax, distance modulus, angle or magnitude means the "
     "corresponding length in every later operation.",
     ["inputs", "histories"],
     "for all positive distances over many orders of magnitude, all units and all conversion chains",
     "three classes with pairwise conversions and unit handling; tests check one value",
     [D + "core.py", D + "base.py", D + "compat.py", D + "register_primitives.py"],
     [("conversions", D + "core.py"), ("constructors", D + "compat.py")])

prop("P20", "Interoperation with astropy preserves the vector",
     "Every position written in an astropy representation and every velocity written in an astropy differential can be turned "
     "into the class asked for, or the corresponding one when only an abstract class is asked for, and keeps its point or "
     "components; and a vector turned into any of astropy's classes keeps them too. Re-expressing in one library and then "
     "going over is going over and then re-expressing in the other. A velocity never changes class without a position. "
     "Representations with no distance, with only a distance, of the wrong dimension or with negative radii are refused, and so "
     "are frames that hold data. Quantities, mappings and keyword components, distances, parallaxes, distance moduli and angles are "
     "accepted from and given to astropy unchanged.",
     ["inputs", "configurations"],
     "for all vector classes with an astropy counterpart, all points, batch shapes and units",
     "the conversion renames components between conventions per class; tests convert one fixed point",
     ["src/coordinax/_interop/coordinax_interop_astropy/converters.py",
      "src/coordinax/_interop/coordinax_interop_astropy/constructors.py",
      "src/coordinax/_interop/coordinax_interop_astropy/distance.py"],
     [("to and from astropy", "src/coordinax/_interop/coordinax_interop_astropy/converters.py")])

prop("P21", "Vectors are immutable and results depend only on arguments",
     "No public operation changes a vector, operator or collection that already exists: after any history of calls "
     "every earlier object still has its type, shape, units and values, and attempts to assign to a component or an "
     "element raise. Repeating a call later in the history, whatever calls came between, gives the same result. A copy "
     "(copy, deepcopy, pickle, replace, or flattened and rebuilt by JAX) is an equal object of the same type that can "
     "stand in for the original in every later call.",
     ["histories"],
     "for all sequences of public calls on a pool of objects",
     "mutation or caching errors need a particular sequence of calls and a look at an object not involved in the last",
     [V + "base/base.py", V + "space/core.py", O + "base.py", V + "base/attribute.py"],
     [("frozen vectors", V + "base/base.py"), ("collection immutability", V + "space/core.py")])

prop("P22", "Compiled and vectorised evaluation agree with eager evaluation",
     "Conversions, arithmetic, operators and constructors give the same result, element by element, when evaluated "
     "eagerly on scalars, eagerly on a batch, compiled, vectorised over any axis, inside loops and conditionals, and "
     "as the primal value under differentiation, in single and double precision up to rounding.",
     ["inputs", "configurations"],
     "for all operations of the library and all ways of evaluating them, with the same inputs",
     "branches on traced values, static fields and broadcasting behave differently under tracing; tests run eagerly",
     [V + "base/base.py", V + "base/base_pos.py", V + "transform/velocities.py", O + "base.py", V + "checks.py"],
     [("array-ish dispatch of vectors", V + "base/base_pos.py"), ("checks under tracing", V + "checks.py")])

prop("P23", "Constructors accept equivalent inputs equivalently",
     "A vector built from an array with a unit, from a quantity whose last axis holds the components, from a mapping "
     "of components, from keyword components or from another vector of the same class is the same vector, component "
     "by component in the documented order. The abstract three-dimensional constructors pick the Cartesian class of "
     "their kind. Two- and three-dimensional Cartesian classes refuse the wrong number of components, and every "
     "class refuses components of the wrong physical dimension. A vector of another class, or a bare array for a "
     "curvilinear class, is refused rather than handed back or read as something it is not.",
     ["inputs", "configurations"],
     "for all classes with a given input form, all component counts, dimensions, units and batch shapes",
     "every class registers its own parsing rules; tests try each form on one class",
     [V + "base/base.py", V + "d1/base.py", V + "d2/base.py", V + "d3/constructor.py", V + "d3/base.py",
      V + "dn/base.py", V + "d3/cartesian.py"],
     [("from_ dispatch", V + "base/base.py"), ("abstract 3-D constructors", V + "d3/constructor.py")])

prop("P24", "Vectors and quantities convert into one another without loss",
     "A position of any class with a Cartesian form converts to a Quantity, an UncheckedQuantity, an AbstractQuantity "
     "or a Distance that holds its Cartesian coordinates along one new last axis, in order and with the batch shape "
     "in front; Cartesian and radial velocities and accelerations likewise give their components. Building the "
     "Cartesian class from that quantity and converting again gives the same quantity. Multiplying two positions "
     "gives the coordinate-by-coordinate product in length squared. Normalising an array or quantity of components "
     "gives the unit direction of every row, and the general three-component Cartesian holds any three numbers of one "
     "dimension unchanged. What a vector says of itself (component names, units, dimensions, shapes, sizes, shape, "
     "as_dict) agrees with its components and with one another.",
     ["inputs", "configurations"],
     "for all vector classes, batch shapes, units, target quantity types and ways of evaluating",
     "each class and dimension registers its own conversion; tests convert one vector of each at one shape",
     [V + "base/base.py", V + "base/base_pos.py", V + "base/register_primitives.py", V + "d3/cartesian.py", V + "d3/generic.py",
      V + "d3/base.py", V + "d2/base.py", V + "d1/cartesian.py", V + "dn/cartesian.py", V + "utils.py"],
     [("ND conversion", V + "dn/cartesian.py"), ("3-D conversion", V + "d3/base.py")])

prop("P25", "Derivatives of vector maps are exact in forward and reverse mode",
     "Away from the singular points of the charts involved, the derivative that JAX computes of a change of "
     "representation, a norm, a conversion to a quantity, a sum, difference, negation or scaling of positions, or an "
     "operator applied to a position, taken along a velocity, is that velocity carried to the image: the exact "
     "directional derivative, the same in forward mode, linearised and in reverse mode, eager, compiled and "
     "vectorised, with the units of the image per time.",
     ["inputs", "configurations"],
     "for all maps between positions, regular points, directions, units and differentiation modes",
     "a stop-gradient, a where-guard or a rounding step leaves values right and derivatives wrong; tests compare values",
     [V + "d3/transform.py", V + "d2/transform.py", V + "d1/transform.py", V + "base/base_pos.py", V + "checks.py", O + "base.py",
      "src/coordinax/_src/angles/base.py", "src/coordinax/_src/distances/base.py"],
     [("3-D conversions", V + "d3/transform.py"), ("component converters", V + "converters.py")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
