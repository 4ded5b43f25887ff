import json
P=[]
DEFM={"C04":"segment slopes shared by adjacent intervals","C05":"corner weights, centered differences, natural boundary","C06":"get_loc + half-cell comparison","C07":"Interp1D::eval_one over Grid1D::at","C08":"Linear1D/LinearHoldLast1D over Grid1D::at","C09":"get_loc cell index and index_arr C-order offset","C10":"index_arr over the cell footprint","C11":"get_loc regular vs rectilinear","C12":"interpn dispatch; flattened vs recursive evaluation","C13":"interp loop over obs/out","C14":"new / interp / interpn argument checks","C15":"get_loc float-to-integer conversion, saturation, index arithmetic","C16":"check_bounds","C17":"convex corner weights","C18":"per-axis strides (dimprod), t-normalisation","C19":"interp_inner is linear in vals","C20":"linspace, meshgrid","C21":"interpn(), _check_regular","C22":"model validators, eval, check_bounds","C23":"unpack_vec_of_arr! and *_impl! macros","C24":"serialization.py","C25":"#![no_std], fixed-size arrays"}
def p(id,title,statement,over,text,why,files,symbols=None,mech=None,observe=None,hook=None):
    a={"files":files}
    if symbols: a["symbols"]=symbols
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a)
    if not mech: mech=[(DEFM.get(id,title),", ".join(files))]
    d["anchors"]["mechanism"]=[dict(name=n,where=w) for n,w in mech]
    if observe: d["anchors"]["observe_at"]=observe
    if hook is not None: d["anchors"]["hook_needed"]=hook
    P.append(d)
LIN=["src/multilinear/regular.rs","src/multilinear/rectilinear.rs","src/multilinear/regular_recursive.rs","src/multilinear/rectilinear_recursive.rs"]
CUB=["src/multicubic/mod.rs","src/multicubic/regular.rs","src/multicubic/rectilinear.rs","src/multicubic/regular_recursive.rs","src/multicubic/rectilinear_recursive.rs"]
NEA=["src/nearest/regular.rs","src/nearest/rectilinear.rs"]
ONE=["src/one_dim/mod.rs","src/one_dim/hold.rs","src/one_dim/linear.rs"]
p("C01","Multilinear evaluation is the tensor-product linear blend, inside and outside",
  "For 1 to 8 dimensions, on regular and rectilinear grids, linear interpolation returns (up to floating-point rounding) the tensor-product linear blend of the 2^N grid values at the corners of the cell that contains the observation point, the value table being read in C order (last axis varies fastest). On each axis where the point lies outside the grid, the edge cell's linear function is continued unchanged. This holds for every implementation (specialised, recursive, convenience function) and with or without fused multiply-add.",
  ["inputs","configurations"],"every dimension count 1..8, every grid shape and spacing, every value table, every observation point, both grid kinds, flattened and recursive implementations, fma on/off",
  "Tests evaluate a coordinate sum (a field symmetric in its axes) on size-2 grids at 3^N points plus one 1-D hat; a wrong stride, corner weight or cell choice on another shape, position or table is not seen.",
  LIN+["src/lib.rs"],mech=[("cell search and corner weights","get_loc / interp_one / populate"),("C-order indexing","index_arr, index_arr_fixed_dims")],observe=["interpn","interp","interp_one"])
p("C02","Multicubic evaluation inside the grid is the documented Hermite spline",
  "For 1 to 8 dimensions, at any point inside the grid, cubic interpolation returns (up to rounding) the tensor product of 1-D Hermite segments whose slope at each interior grid point is the second-order central difference of the data (distance-weighted on uneven grids). On the first and last interval of each axis the segment is the quadratic that matches both end values and the inner slope (natural boundary, zero third derivative). This holds for regular and rectilinear grids, every implementation, and with or without fused multiply-add.",
  ["inputs","configurations"],"every dimension count 1..8, grid shape/spacing, value table, observation point inside the grid, both grid kinds, all implementations, fma on/off",
  "Tests check linear and quadratic fields (whose spline is the field itself) and one sine with 2% tolerance, so a wrong slope weight that still reproduces those data, or a fault on one axis, interval or dimension count, passes.",
  CUB+["src/lib.rs"],mech=[("segment evaluation","interp_inner, normalized_hermite_spline, centered_difference_nonuniform")],observe=["interpn","interp","interp_one"])
p("C03","Multicubic extrapolation follows the requested mode on each axis separately",
  "Outside the grid on an axis, cubic interpolation continues the edge interval's quadratic on that axis when extrapolation is not linearized, and with linearized extrapolation continues the straight line through the edge grid value with the slope the edge quadratic has there. The mode has no influence on axes on which the point is inside the grid, nor on any point inside the grid. This holds on both sides, for regular and rectilinear grids, in 1 to 8 dimensions, for every implementation.",
  ["inputs","configurations"],"every point outside the grid on any subset of axes, low or high, both modes, every table/grid, 1..8 dimensions, all implementations",
  "Existing tests extrapolate only linear and quadratic fields by a fixed distance; mixed low/high/inside combinations on asymmetric grids and non-quadratic data are not exercised.",
  CUB,mech=[("saturation flag","get_loc -> Saturation"),("extrapolation branch","interp_inner OutsideLow/OutsideHigh")],observe=["interpn","interp_one"])
p("C04","The cubic interpolant and its first derivative are continuous everywhere",
  "As a function of the observation point, the cubic interpolant is continuous and has a continuous first derivative across every grid point of every axis, including at the two edges of the grid where interpolation meets extrapolation, in both extrapolation modes and on both grid kinds (up to rounding).",
  ["inputs"],"every grid, table and knot position on every axis; both one-sided limits at the knot; both modes",
  "No test compares values or slopes on the two sides of a knot; a jump at one knot is invisible to pointwise tolerance tests away from it.",
  CUB,observe=["interpn","interp_one"])
p("C05","Polynomial fields are reproduced exactly",
  "Linear interpolation reproduces (up to rounding) every field that is affine in each coordinate separately, inside the grid and extrapolated. Cubic interpolation reproduces every field that is at most quadratic in each coordinate separately, everywhere when extrapolation is not linearized and inside the grid when it is; with linearized extrapolation fields affine in each coordinate are also reproduced outside. This holds on regular and on arbitrarily uneven grids.",
  ["inputs"],"all polynomial coefficients (including mixed terms), all grids and spacings, all points",
  "Tests use a few fixed separable sums without cross terms on one random grid.",
  LIN+CUB,observe=["interpn","interp_one"])
p("C06","Nearest-neighbour returns the stored value of the nearest grid point",
  "For 1 to 6 dimensions, nearest-neighbour interpolation returns, bit for bit, the stored value of the grid point that is nearest on every axis, taking the lower grid point when the observation is exactly midway between two; outside the grid the edge grid point of that axis is used. This holds on regular and rectilinear grids.",
  ["inputs","configurations"],"every dimension count 1..6, grid shape/spacing, table, observation point (including exact ties and far outside), both grid kinds, fma on/off",
  "Tests use size-2 grids and one three-point grid with an oracle that copies the implementation; ties and larger uneven grids are not covered.",
  NEA+["src/lib.rs"],observe=["nearest::*::interpn","interp_one"])
p("C07","1-D piecewise-constant interpolators pick the documented neighbour",
  "For an observation strictly between two neighbouring 1-D grid points, the left, right and nearest hold interpolators return, bit for bit, the value at the left point, the value at the right point, and the value at the nearer point (the left one on a tie). For an observation outside the grid all three return the value at the edge grid point. This holds for regular and rectilinear 1-D grids of any length of at least two.",
  ["inputs"],"every grid length >= 2, spacing, table and observation point not exactly on a grid point",
  "One fixed 77-point regular grid with random points; rectilinear grids, ties and short grids are not tested for the hold interpolators.",
  ONE,observe=["Interp1D::eval_one/eval"])
p("C08","1-D linear interpolators: linear inside, continued or held outside",
  "The 1-D linear interpolator returns (up to rounding) the straight line through the two grid points around the observation, continued from the edge interval outside the grid; the hold-last variant agrees with it inside the grid and returns exactly the edge grid value outside. This holds for regular and rectilinear 1-D grids of any length of at least two, with or without fused multiply-add.",
  ["inputs"],"every grid length >= 2, spacing, table, observation point; both 1-D grid kinds",
  "One fixed grid pair and random points; short grids, exact grid points and far extrapolation are not covered.",
  ONE,observe=["Interp1D::eval_one/eval"])
p("C09","Every grid point returns its own stored value",
  "Evaluated exactly at a grid point, every N-dimensional method (linear, cubic in either extrapolation mode, nearest) on either grid kind, and the 1-D linear and nearest interpolators, return (up to rounding) the value stored for that grid point in C order, at corners, edges and interior alike.",
  ["inputs","configurations"],"every grid point of every grid shape, every table, all methods, 1..8 dimensions",
  "Tests look at grid points only for symmetric linear/quadratic fields, where many misplaced reads coincide.",
  LIN+CUB+NEA+ONE,observe=["interpn","interp_one","eval_one"])
p("C10","Results depend only on the documented neighbouring grid values",
  "A linear result depends on at most the two nearest-cell grid values per axis, a cubic result on at most four consecutive grid values per axis around the observation (three in the edge interval or outside), and a nearest result on a single stored value; changing any other entry of the table leaves the result unchanged, bit for bit, even if that entry is infinite or not a number.",
  ["inputs"],"every table pair that agrees on the footprint, every grid and observation point, 1..8 dimensions",
  "No test perturbs values outside the footprint.",
  LIN+CUB+NEA,observe=["interpn","interp_one"])
p("C11","Regular and rectilinear methods agree on the same evenly spaced grid",
  "For an evenly spaced grid given once as start and step and once as explicit coordinates, the regular-grid and rectilinear-grid versions of the linear and cubic methods (both extrapolation modes) return the same value (up to rounding) at every point inside or outside the grid, and the nearest methods select the same grid value; the same holds for the 1-D linear interpolators.",
  ["inputs","configurations"],"every evenly spaced grid, table, observation point; dimensions 1..8 (1..6 nearest)",
  "No test compares the two grid kinds on data where they could differ.",
  LIN+CUB+NEA+ONE,observe=["interpn"])
p("C12","Specialised, recursive and convenience entry points agree",
  "For the same inputs the fixed-dimension implementation, the recursive implementation with any sufficient maximum dimension, and the convenience function return the same value (up to rounding) for every dimension count each of them supports. The convenience functions accept exactly 1 to 8 dimensions (1 to 6 for nearest) and return an error for any other count.",
  ["inputs","configurations"],"all dimension counts, maximum-dimension parameters, grids, tables, points",
  "Both implementations are only tested separately against the same symmetric fields.",
  LIN+CUB+NEA,observe=["interpn","MultilinearRegularRecursive::interp_one","..."])
p("C13","Batch evaluation equals point-by-point evaluation",
  "When many observation points are evaluated in one call, output i equals, bit for bit, the result of evaluating point i alone with the same interpolator, whatever the other points are and however many there are; every output slot is written, and the allocating variant returns the same values as the preallocated one. A zero-length batch succeeds and writes nothing.",
  ["inputs","histories"],"every batch length, every combination of points, all methods and grid kinds",
  "Tests only use batches whose results are smooth functions of the index, with a tolerance.",
  LIN+CUB+NEA+ONE,observe=["interp","interpn","interpn_alloc","eval","eval_alloc"])
p("C14","Malformed shapes are reported as errors, well-formed ones accepted",
  "Constructors and convenience functions return an error, and never panic or evaluate, when the number of starts, steps, grids, observation arrays or values does not match the grid dimensions, when observation and output lengths differ, when an axis has fewer than two points (four for cubic), or when a step (or the first rectilinear interval) is not positive. When all shapes are consistent they succeed.",
  ["inputs","configurations"],"every combination of lengths (including zero), dimension counts, steps of any sign or NaN",
  "The tests contain no malformed-input case for any Rust entry point.",
  LIN+CUB+NEA+ONE,observe=["new","interp","interpn","interpn_alloc"])
p("C15","Evaluation never panics, whatever the observation or table bits",
  "With a successfully constructed interpolator, evaluating any observation (any bit pattern, including NaN, infinities, subnormals and values beyond the integer range) over any table never panics, overflows or reads out of bounds: it returns a value or an error. Regular-grid methods return an error when the observation is NaN or infinite.",
  ["inputs"],"all bit patterns of observation, start, step and table values, f32 and f64",
  "Tests use moderate finite values only; the failing inputs are isolated bit patterns.",
  LIN+CUB+NEA+ONE,observe=["interp_one","eval_one","interp"])
p("C16","Bounds checks flag exactly the axes with out-of-grid observations",
  "For a positive tolerance, the bounds check sets the flag of an axis to true if some observation on that axis lies outside the grid by more than the tolerance, and to false if every observation on that axis lies inside the grid (edges included); flags of different axes are independent and every flag is written. A dimension-count mismatch is reported as an error.",
  ["inputs"],"every grid, observation set and positive tolerance, any number of axes and observations",
  "The tests exercise one or two observations on one axis.",
  ["src/multilinear/regular.rs","src/multilinear/rectilinear.rs","src/multilinear/regular_recursive.rs","src/multilinear/rectilinear_recursive.rs"],observe=["check_bounds"])
p("C17","Linear interpolation inside the grid never leaves the range of the cell values",
  "For a point inside the grid, the multilinear result lies (up to rounding) between the smallest and the largest of the 2^N values at the corners of its cell, and the 1-D linear and hold-last results lie between the two neighbouring values; hold-last results lie between the smallest and largest table value for every observation whatever.",
  ["inputs"],"every table, grid and point inside the grid, 1..8 dimensions",
  "No test checks the bound; fields used are exactly reproduced.",
  LIN+["src/one_dim/linear.rs"],observe=["interp_one","eval_one"])
p("C18","Relabelling, shifting or rescaling axes does not change the result",
  "Permuting the axes together with the table and the observation, or mapping one axis's grid and observation coordinates by x -> a*x + b with a > 0, leaves the result of every method unchanged (up to rounding), in both extrapolation modes and on both grid kinds.",
  ["inputs"],"all permutations and affine maps, grids, tables, points",
  "No test transforms the axes; grids are always size-equal on all axes.",
  LIN+CUB+NEA+["src/lib.rs"],observe=["interpn","interp_one"])
p("C19","Interpolation is linear in the grid values",
  "For a fixed grid and observation point, the linear and cubic methods applied to the table a*u + b*v return (up to rounding) a times the result for u plus b times the result for v, for all scalars a, b and tables u, v, inside and outside the grid in both extrapolation modes; in particular a constant table gives that constant everywhere.",
  ["inputs"],"all tables and scalars, grids and points, 1..8 dimensions",
  "No test combines tables.",
  LIN+CUB+["src/one_dim/linear.rs"],observe=["interp_one","interpn"])
p("C20","Grid helpers produce even spacing and C-ordered meshes",
  "The linspace helper returns n points, the first being start, the last being stop (up to rounding) and all consecutive differences equal, for n of at least two. The meshgrid helper returns one coordinate tuple for every combination of the axis values, each exactly once, in C order (last axis fastest), so that evaluating a function over it yields a table the interpolators read consistently.",
  ["inputs"],"all start/stop values, n, numbers of axes and axis lengths",
  "Used as helpers by every test but never checked themselves.",
  ["src/utils.rs"],observe=["utils::linspace","utils::meshgrid"])
p("C21","Python interpn() forwards to the requested method and honours its options",
  "The Python convenience function returns what the binding for the requested method, data type and grid kind computes from the caller's grids, C-ordered values and observations, with the shape of the observations; a grid is treated as regular only if all its spacings are equal or the caller asked for it. A supplied contiguous output array receives the result, and with bounds checking on it raises ValueError exactly when the core bounds check flags some axis, for any number of dimensions; an error of the binding reaches the caller.",
  ["inputs","configurations"],"method, dtype, linearize/assume_regular/check_bounds flags, out given or not, array shapes, 1..4 axes, grid values",
  "Tests call it with 1-D grids and no output array only.",
  ["src/interpn/__init__.py"],observe=["interpn.interpn"])
p("C22","Python interpolator classes accept exactly valid grids and evaluate faithfully",
  "Each Python interpolator class is constructible exactly when the dimension count is within the class's limit (8, nearest 6), all sizes agree, every step is positive (every rectilinear axis strictly increasing) and all grid arrays share the value table's float type. Evaluation calls the binding of the same method, grid kind and float type with the stored grid, stored extrapolation flag and the given observations, and returns (or fills) the output; check_bounds forwards likewise and returns its flags; an error of the binding reaches the caller.",
  ["inputs","configurations"],"six classes, two float types, shapes, spacing signs, out given or not",
  "Tests construct valid interpolators only and do not vary which argument is malformed.",
  ["src/interpn/multilinear_regular.py","src/interpn/multilinear_rectilinear.py","src/interpn/multicubic_regular.py","src/interpn/multicubic_rectilinear.py","src/interpn/nearest_regular.py","src/interpn/nearest_rectilinear.py","src/interpn/serialization.py"],observe=["*.new","*.eval","*.check_bounds"])
p("C23","Python bindings compute exactly what the Rust functions compute",
  "Each extension function, given contiguous arrays, writes into its output array exactly what the Rust function of the same method, grid kind and float type writes for the same arguments, and raises a Python exception (never aborts or panics) when that function reports an error, when an array is not contiguous, or when more arrays are passed than the supported number of dimensions. The extension module registers every function under its name, with the argument names the Python package uses.",
  ["inputs","configurations"],"all 16 extension functions, all array lengths/contiguity, up to 9+ axes",
  "Python tests go through the classes with valid inputs only.",
  ["src/python.rs"],observe=["interpn.raw.*"])
p("C24","JSON round trip of Python interpolators preserves every value",
  "Serializing any Python interpolator to JSON and loading it back gives an interpolator whose grid, values and flags are identical bit for bit (f32 and f64), so evaluation is unchanged.",
  ["inputs"],"all finite float values, all six classes",
  "Tests round-trip a handful of values.",
  ["src/interpn/serialization.py"],observe=["model_dump_json","model_validate_json"])
p("C25","Evaluation allocates no heap memory",
  "Constructing an interpolator, evaluating it at a point or into a preallocated output, calling a convenience function with a preallocated output, and checking bounds perform no heap allocation, for every method, dimension count and input, whether they succeed or return an error.",
  ["inputs","configurations"],"all methods, dimension counts and inputs",
  "Not observed by any test.",
  ["src/lib.rs"]+LIN+CUB+NEA,observe=["new","interp","interp_one"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
