import json
P=[]
S='casadi_extras/structure3.py'
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Struct layout: the flat vector is an ordered partition of the declared fields",
"For every struct declaration (nested structs, repetitions in any number of dimensions, dense, sparse, symmetric and struct-shaped entries, explicit order or tuple grouping) the struct's size is the number of stored scalars, and its flat vector lists them in the declared order: repetitions with the last index fastest, grouped entries interleaved by their first repetition index, matrix elements column-major over structural nonzeros. The index lookups (`.i`, `.f`), key list, canonical indices (all extra-index modes) and labels all describe this same layout. Indexing with the canonical index reported for a slot addresses exactly that slot (with a single extra index, which counts structural nonzeros, for dense entries).",
["inputs","configurations"],"all struct declarations, all flat positions, all index expressions resolved to positions",
"The four struct tests use one two-field flat declaration; nothing exercises nesting, repetition, grouping, sparsity, symmetry or the index/label lookups.",
[S],[("CasadiStructure.__init__ builds map/lookuptable by canonical traversal",S+":798"),("Structure/StructEntry.traverseCanonicalIndex, intersperse, listindices",S+":61,186,309"),("EntryList ordering and grouping",S+":1335")],
["size","keys()",".i[...]",".f[...]","getCanonicalIndex","canonicalIndices","labels","cat"],
[("map","canonical index -> matrix of flat indices",S+":802"),("lookuptable","flat index -> canonical index",S+":803")])

p("C02","Struct reads return exactly the addressed elements on every storage kind",
"Reading a struct with any supported index (names, integers including negative, slices, index lists, name lists, ellipsis, dict/set/nesteddict literals, callables, element and sub-matrix indices, struct-shaped delegated indices, prefixes) returns exactly the addressed elements, with the entry's shape and the nesting the index describes. The same index yields the same elements whether the struct holds numbers, SX or MX symbols, or SX or MX expressions. Unknown names and out-of-range integer indices are rejected with an exception.",
["inputs","configurations"],"all declarations x storage kinds x index expressions",
"Existing tests read whole fields of a flat numeric struct only.",
[S],[("traverseByPowerIndex",S+":198,338"),("GetterDispatcher / performExtraIndex / delegation",S+":583,662,673"),("Prefixer",S+":697"),("VertsplitStructure.buildMap",S+":966")],
["__getitem__","prefix","cat"])

p("C03","Struct writes change exactly the addressed slots and read back, over any history",
"After any sequence of assignments to mutable structs (numeric, SX, MX and expression-composed), each read returns the value last written to each addressed slot and every slot not addressed keeps its value; scalars fill, a non-list value or `repeated(...)` goes to every addressed repetition, a list is matched to repetitions by repetition index (to names by position), dicts by key. Structs created from the same declaration are independent of each other. Assigning a value of incompatible shape (for expression-composed structs also sparsity), a list that is too short, to an unknown name or to an out-of-range index is rejected with an exception.",
["histories","inputs"],"all declarations x storage kinds x assignment histories",
"Tests make at most one whole-field dict assignment and never a second write, partial write, repeated/nested write or MX/SX write.",
[S],[("SetterDispatcher",S+":611"),("payloadUnpack / Repeater",S+":128,150"),("MXVeccatStruct.__setitem__",S+":1118"),("MatrixStruct/MXStruct",S+":1032,1088")],
["__setitem__","__getitem__","cat"])

p("C04","Symmetric struct entries stay symmetric and store one triangle",
"An entry declared symmetric occupies only the structural nonzeros of its upper triangle, and reads as the full symmetric matrix on every storage kind; reading elements or sub-blocks agrees with indexing that full matrix. Assigning a symmetric matrix, a scalar, an element (i,j) or a row/column block makes both (i,j) and (j,i) read the assigned value and changes nothing else, and a matrix whose sparsity does not match the declaration is rejected.",
["histories","inputs"],"all symmetric declarations (dense and sparse, repeated, nested) x read/write histories",
"No existing test declares a symmetric entry.",
[S],[("type='symm' handling in entry, getter and setter",S+":592,602,620,1304")],["__getitem__","__setitem__","cat","size"])

p("C05","Matrix views over structs address and update the right block",
"The `repeated`, `squared`, `product` and `squared_repeated` views of a numeric, SX or MX matrix return, for every index by struct field names (rows, columns and repetition), exactly the corresponding block of that matrix. Assigning through a view changes exactly that block of the matrix the view casts back to, and later reads through the view see it; a scalar argument gives a `squared` or `product` view filled with it. Matrices whose shape does not fit the struct are rejected with an exception.",
["histories","inputs","configurations"],"all struct pairs x matrix types x block indices x write histories",
"No existing test uses any matrix view.",
[S],[("CasadiStructureDerivable.repeated/squared/product/squared_repeated",S+":523-581"),("DataReference* classes",S+":1407-1486"),("delegation / index / indexf",S+":662,1377-1405")],
["repeated()","squared()","product()","squared_repeated()","cast"])

p("C06","Casting vectors, scalars, dicts and matrices to a struct preserves every value",
"Calling a struct on a vector of its size (numeric, SX or MX, also given as another struct) gives a struct whose flat vector is that vector, as do `struct_SX` and `struct_MX_mutable` given a declared struct and that vector as `data`; on a numeric scalar, every slot equals it; on a dict with exactly the struct's keys, each field equals the given value (scalars fill the field). `parseMatrix` maps each field to its values for the successive data columns placed side by side, so for a column field exactly that field's rows. Vectors or data of another size and dicts with missing or extra keys are rejected with an exception.",
["inputs","configurations"],"all declarations x data",
"Tests cast one two-field struct from one dict and one 5x3 matrix.",
[S],[("CasadiStructureDerivable.__call__/argtype/parseMatrix",S+":447-519")],["__call__","parseMatrix","cat"])

p("C07","Saving, loading and pickling structs round-trips declaration and data",
"Pickling and unpickling, or `save` followed by `struct_load`, of a struct declaration, a numeric struct or (pickling only) a matrix view of a numeric matrix yields an equivalent one: same size, key order, labels and index lookups, same values, and it still reads and writes like the original. This holds for several structs serialised together or one after another (including ones sharing a declaration), and serialising never changes the original.",
["inputs","histories"],"all declarations and numeric structs; all groups serialised together; repeated round trips",
"No existing test serialises a struct.",
[S],[("__getstate__/__setstate__ of CasadiStructure, CasadiStructured, DMStruct, CasadiStructEntry",S+":792,904,1065,1326"),("save / struct_load",S+":770,1061,1488")],["pickle","save","struct_load"])

p("C08","Structs composed from expressions preserve those expressions",
"A struct built from expression entries (single expressions, nested lists of expressions, other structs, symbols given by `sym`) has as its flat vector the concatenation of those expressions' structural nonzeros in declared order, and reading each entry gives back an expression equal to the one supplied, also after individual entries are replaced. An expression-composed struct created from an existing declaration can be filled field by field and yields no flat vector while any field is missing. Such structs can be used wherever an MX/SX column is accepted.",
["inputs","histories"],"all expression declarations, fill orders and replacements",
"Expression structs are only exercised indirectly with one dense entry per field.",
[S],[("MXVeccatStruct",S+":1100"),("MatrixStruct entries/expr",S+":1056"),("CasadiStructEntry expr/sym handling",S+":1262-1301"),("ssymStruct",S+":943")],["struct_MX","struct_SX","struct_MX_mutable","struct_symSX","cat"])

p("C09","Malformed struct declarations are rejected, well-formed ones accepted",
"Declaring an entry or struct that is contradictory (duplicate names, unknown keyword or type, mutually exclusive keywords, non-integer repeat, bad shape or struct-shape, a given symbol that is not symbolic, non-square symmetric entry, order naming an unknown entry or combined with grouping, entries not given as a list, expressions in purely symbolic structs or missing from expression structs) raises an exception. Declarations without such a contradiction are accepted.",
["inputs"],"all single-fault corruptions of well-formed declarations, and the well-formed declarations themselves",
"No existing test constructs a malformed declaration.",
[S],[("CasadiStructEntry validation",S+":1176-1314"),("EntryList",S+":1335"),("Structure order check",S+":284")],["entry","struct*"])

PO='casadi_extras/collocation/polynomial.py'
p("C10","Lagrange interpolation reproduces every polynomial up to the basis degree",
"For any set of n distinct nodes in any order, the interpolation matrix, the barycentric and polynomial interpolators and the composed polynomials reproduce any polynomial of degree below n at every query point inside or outside the node range, up to rounding: rows sum to one, and at a node the interpolation matrix row is exactly the corresponding unit vector. Scalar and vector queries agree, queries are independent of one another and of later changes to the caller's node array, and inputs are not modified.",
["inputs"],"all node sets, polynomials, query points",
"Tests check order-3 Legendre/Chebyshev nodes at two query points each.",
[PO],[("PolynomialBasis (barycentric weights, interpolationMatrix, compose)",PO),("polynomialInterpolator / barycentricInterpolator",PO)],["interpolationMatrix","compose","poly","polynomialInterpolator","barycentricInterpolator"])

p("C11","Differentiation matrices are exact on polynomials up to the basis degree",
"For any set of n distinct nodes in any order, applying the basis differentiation matrix to the nodal values of a polynomial of degree below n gives that polynomial's derivative at the nodes up to rounding, so its rows sum to zero. The Chebyshev differentiation matrix on any interval [t0, tf] (either orientation) does the same on its returned grid.",
["inputs"],"all node sets, polynomials, intervals and orders",
"Tests compare orders 0..3 with constants and one smooth function at order 20.",
[PO],[("PolynomialBasis.D",PO),("cheb",PO)],["PolynomialBasis.D","cheb"])

p("C12","Collocation node families are the defined points on [0, 1]",
"Collocation points of order n start at 0, are strictly increasing, lie in [0, 1] and number n+1; for 'chebyshev' they are the Chebyshev extrema mapped to [0, 1] ending at 1, for 'legendre' and 'radau' the Gauss-Legendre respectively Radau IIA abscissae preceded by 0 (Radau ending at 1). The Chebyshev grid on [t0, tf] is the same family mapped affinely, with its ends at t0 and tf. Unknown families are rejected with an exception.",
["configurations","inputs"],"all families and supported orders, all intervals",
"Tests only use these points as inputs to other checks at a few orders.",
[PO],[("collocationPoints",PO),("cheb",PO)],["collocationPoints","cheb"])

B='casadi_extras/collocation/butcher.py'
p("C13","Butcher tableaus integrate polynomials exactly and match the chosen nodes",
"For any distinct collocation nodes c (any order, inside or outside [0, 1]), the tableau's A and b integrate every polynomial of degree below n exactly up to rounding: A maps nodal values to integrals from 0 to each node, b to the integral over [0, 1], and the tableau's c are the given nodes. The method-based constructor gives the tableau of the Legendre or Radau nodes, whose b is exact up to degree 2n-1 or 2n-2 respectively; a tableau that is not a square matrix A with vectors b and c of its size is rejected.",
["inputs","configurations"],"all node sets and polynomials; all methods and orders",
"Tests use Legendre nodes of order 1..4 with one random polynomial.",
[B],[("butcherTableuForCollocationPoints",B),("ButcherTableau size checks",B)],["ButcherTableau.A/b/c"])

W='casadi_extras/collocation/piecewise_poly.py'
p("C14","Piecewise polynomials evaluate the right piece everywhere",
"Evaluating a piecewise polynomial at any set of points (scalar or vector, in any order, with repeats) returns one column per point, equal to the polynomial of the interval containing the point, with the end pieces extrapolated outside the range. At an interior breakpoint the value is taken from the right piece by default and from the left piece with continuity 'left'. Invalid continuity values and a number of coefficient matrices other than the number of intervals are rejected, and interval bounds are reported unchanged.",
["inputs"],"all breakpoints, coefficient matrices, bases, query points",
"Tests evaluate six fixed functions at a handful of points.",
[W],[("PiecewisePoly.__call__ (searchsorted + clip, mapping to [0,1])",W)],["__call__","intervals","numIntervals"])

p("C15","Derivative, interval polynomials and sampling of piecewise polynomials hold",
"The derivative of a piecewise polynomial is, on each piece, the derivative of that piece with respect to the original time variable. The interval polynomials p returned for interval n satisfy p[i](t) = f(bounds[n] + t)[i] on that piece for every row, including constant and zero pieces. Sampling with a step returns matching points and values, covers every interval from end to end including both ends (each with that interval's own piece) in ascending order, and never has a gap larger than the step.",
["inputs"],"all breakpoints, coefficients, bases, steps",
"test_discretize asserts nothing; poly is tested on one generic two-interval function; derivative is untested.",
[W],[("derivative / poly / discretize",W)],["derivative()","poly(n)","discretize(step)"])

C='casadi_extras/collocation/collocation.py'
p("C16","Differential quadrature grids differentiate and integrate polynomials exactly",
"A differential-quadrature grid over any ascending interval bounds has every interval's points in ascending order with shared end points, and reports its bounds, interval count, order and end points consistently. Its derivative of sampled values is exact (up to rounding) for any continuous function that is a polynomial up to the grid order on each interval, `integral` inverts `derivative` up to the initial value, and the input expansion repeats each interval's input at exactly that interval's points. Interval bounds that do not ascend are rejected.",
["inputs","configurations"],"all bounds, orders, node families, piecewise polynomials",
"The whole grid test class is skipped in the repository.",
[C],[("Pdq",C+":36")],["collocationPoints","derivative","integral","expandInput","t0","tf","intervalBounds","numIntervals","polyOrder","intervalLength"])

p("C17","Trajectories interpolate sampled states and inputs with the stated continuity",
"Interpolating values sampled at the grid points of a per-interval polynomial reproduces it at every time, extrapolating outside with the end pieces: continuity 'both' uses all points of an interval, 'right' omits each interval's last point and takes the right piece at a breakpoint, 'left' omits each interval's first point and takes the left piece at a breakpoint. A system trajectory evaluates state with 'both', algebraic state and input with 'right', returns one column per requested time, and rejects data with the wrong number of columns. An unknown continuity is rejected.",
["inputs"],"all grids, data, continuity modes and query times",
"One test with order 1 and four time points; 'left' never used.",
[C,'casadi_extras/system_trajectory.py'],[("_PdqInterpolator",C+":163"),("SystemTrajectory","casadi_extras/system_trajectory.py")],["interpolator()","SystemTrajectory.state/algState/input/time"])

p("C18","Collocation equations are the exact transcription of the DAE on every interval",
"For any DAE (explicit or implicit, with algebraic states, inputs, parameters, time and time-dependent parameters), any time grid, order and method, and any values of the scheme's variables, the collocation residual at each point is the DAE residual at that point's time, state, derivative, algebraic state, its interval's input, parameters and time-dependent parameter. The continuity residual is the interval's end state minus the next interval's start state; per-point parameters are tied together by the parameter residual. The equations do not depend on the evaluation mode (serial, parallel, unrolled, expanded or not).",
["inputs","configurations"],"all DAEs, grids, methods, orders, modes, variable values",
"One scalar single-interval ODE is tested through a root finder; the two multi-interval tests cannot run here.",
[C,B],[("CollocationScheme.__init__",C+":215")],["CollocationScheme.eq","tc","x","K","Z","u","U","p"])

p("C19","Collocation scheme states, inputs, times and quadratures are consistent",
"For any DAE, grid, method and values of the scheme's variables, the state at each collocation point is the interval's start state plus the Runge-Kutta integral of the derivatives, the expanded input repeats each interval's input, and the collocation times are the mapped nodes. The quadrature state starts at zero, and at interval ends and collocation points equals the collocation integral of the quadrature rate, accumulated over intervals. The state trajectory built from values is a piecewise polynomial that passes through the start states and collocation states and whose derivative at the collocation points is the given derivative.",
["inputs","configurations"],"all DAEs, grids, methods, orders, variable values",
"Quadratures are tested for one single-interval DAE; trajectories and expanded inputs are untested.",
[C,W],[("X, U, tc, q, Q in CollocationScheme.__init__",C+":260-330"),("evalX / piecewisePolyX / combine",C)],["X","U","tc","q","Q","quad","evalX","piecewisePolyX","combine"])

p("C20","The collocation integrator returns a solution of the initial value problem",
"For any regular DAE with any initial state, piecewise-constant inputs and parameters, the integrator's outputs start at the given initial state and satisfy the DAE at every collocation time, with states joined continuously across intervals and with quadratures equal to the integral of the quadrature rate. All outputs (end states, collocation states, derivatives, algebraic states, quadratures, times) describe this same solution. With several algebraic solutions, the one continuing from the supplied guess is returned.",
["inputs","configurations"],"all well-posed DAEs, grids, orders, methods, inputs, parameters",
"Six scalar models, all on one or two intervals, orders fixed at 9.",
[C],[("CollocationIntegrator.__init__",C+":455")],["collocationIntegrator(...)(x0,z0,u,p) outputs xf,qf,X,Z,Q,x,K,tc"])

p("C21","The integrator has the collocation method's accuracy and composition laws",
"An integrator with n points per interval is exact up to rounding for solutions that are polynomials of degree up to n, and at interval ends for pure quadratures up to the method's quadrature degree; on linear and smooth nonlinear systems the end-state error is bounded by the method's order 2n (Legendre) or 2n-1 (Radau). Integrating over consecutive grids gives the same result as chaining integrators, shifting time of a time-invariant system changes nothing, and refining every interval's grid does not change exact solutions.",
["inputs","configurations"],"all polynomial-solution and linear problems, grids, splits and shifts",
"Tests compare a few exponentials and parabolas at order 9, where most coefficient errors on low orders or multi-interval grids are invisible.",
[C,B],[("CollocationIntegrator / CollocationScheme / Butcher tableau",C)],["collocationIntegrator(...)"])

p("C22","The integrated state trajectory agrees with the discrete solution at all times",
"The trajectory returned by `integrate` equals the integrator's states at interval ends and collocation points, is continuous across intervals, and its derivative at the collocation points equals the returned state derivatives; its interval polynomials and samples have the same values. For solutions polynomial up to the number of collocation points it equals the true solution at every time in the grid's range.",
["inputs","configurations"],"all well-posed DAEs, grids, methods, query times",
"`integrate` is not exercised by any test.",
[C,W],[("CollocationIntegrator.integrate, CollocationScheme.piecewisePolyX",C)],["integrate(...)['x_traj']"])

D='casadi_extras/dae_model.py'
p("C23","DAE models accept consistent systems and reject inconsistent ones",
"Constructing a semi-explicit or implicit DAE from any consistent combination of variables and equations (symbols or structs, optional parts omitted) succeeds, and the model reports exactly the given variables and expressions, their sizes, and empty variables for omitted parts. Non-symbolic variables, a state, derivative, algebraic state or input that is not a column, non-scalar time, non-column equations, or equation counts that do not match the variables are rejected with an exception.",
["inputs"],"all consistent models and all single-fault corruptions",
"No test checks validation or accessors.",
[D],[("Dae/SemiExplicitDae/ImplicitDae constructors",D)],["SemiExplicitDae","ImplicitDae","nx,nz,nu,np,nq,ntdp"])

p("C24","Implicit form and generated functions compute the model's equations",
"Converting a semi-explicit DAE to implicit form gives residual [xdot - ode; alg] with the same variables, quadrature, time and parameters at every point, and converting an implicit DAE changes nothing. A function created from any selection and order of model inputs and outputs evaluates exactly those expressions under those names.",
["inputs","configurations"],"all models, input/output selections, evaluation points",
"Only exercised implicitly for a few scalar models.",
[D],[("makeImplicit, createFunction",D)],["makeImplicit()","createFunction()"])

p("C25","Connecting DAE models in parallel simulates them independently",
"Connecting any list of autonomous semi-explicit models in parallel gives one model whose variables, equations and quadratures are those of the parts stacked in order and addressable per model, and which can be used like any semi-explicit model. Its solution is the stack of the solutions of the parts.",
["inputs"],"all lists of time-invariant semi-explicit models",
"`parallel` is not exercised by any test.",
[D],[("parallel",D)],["parallel()"])

I='casadi_extras/inequality.py'
p("C26","Inequalities and bounded variables keep bounds consistent with their expression",
"For any expression shape, an inequality stores the given bounds and nominal value unchanged, uses minus/plus infinity of the expression's shape for omitted bounds and no nominal when omitted, and reports the expression's number of elements. A bounded variable is a fresh symbol with the shape of its nominal value. Bounds or nominal values whose shape differs from the expression are rejected with an exception.",
["inputs"],"all shapes and bound/nominal combinations, dense or struct-valued",
"Tests use 2- and 3-vectors and one mismatched case.",
[I],[("Inequality.__new__, BoundedVariable.__new__",I)],["Inequality","BoundedVariable","numel"])

p("C27","Stacking inequalities keeps every row's expression, bounds and nominal together",
"Stacking a list or dict of inequalities gives one inequality whose expression, lower bound, upper bound and nominal value are each the stack of the parts in the given order, so every row keeps its own bounds; a dict result is addressable by key. Stacking works with default bounds, with parts of any size including empty, and repeatedly (stacks of stacks), and with nominal values given for all parts or omitted for all parts. The input inequalities are unchanged.",
["inputs"],"all collections of inequalities, nested stackings",
"Tests stack exactly two fully specified vectors.",
[I],[("vertcat",I)],["inequality.vertcat"])

p("C28","Structs and matrix views stand for their flat vector or matrix in CasADi",
"Wherever CasADi takes a matrix (conversion to DM, SX or MX, concatenation, elementwise functions, right-hand operands, matrix products, function inputs, outputs and call arguments, differentiation), a struct of any storage kind behaves as its flat vector and a matrix view as its matrix; shape, sparsity, size and number of elements reported are those of that vector or matrix. `getStruct` of a nested entry is the declaration of that entry, so casting the entry's value with it gives the entry's fields, and is rejected for unknown names and entries without a struct. A struct created from another struct has that struct's layout.",
["inputs","configurations"],"all declarations x storage kinds x uses",
"Tests use structs as MX inputs of one integrator only.",
[S],[("__DM__, __SX__, __MX__, shape, sparsity, numel",S+":935"),("Prefixer.cast",S+":703"),("Structure.getStruct",S+":329"),("CasadiStructured.__init__",S+":921")],
["DM/SX/MX(struct)","vertcat","Function","shape","sparsity()","numel()","getStruct","struct(struct)"])

p("C29","The integrator can be embedded in expressions, mapped and differentiated",
"The collocation integrator is a CasADi function in every respect. Called on symbolic arguments inside an expression (by position or by name), or mapped over several columns of arguments (serial, unrolled or threaded), it gives the same outputs as numeric calls with the same values. For any regular DAE, forward and reverse derivatives of its outputs (end states, quadratures, collocation states, derivatives, algebraic states) with respect to initial state, inputs and parameters are the derivatives of the numeric solution, for all of these together as well as one at a time; they vanish with respect to the algebraic guess.",
["inputs","configurations"],"all regular DAEs x grids x orders x methods x directions x outputs",
"Tests only call the integrator with numbers.",
["casadi_extras/collocation/collocation.py"],[("CollocationIntegrator.__init__ (rootfinder and substitution)","casadi_extras/collocation/collocation.py:501")],
["CollocationIntegrator(...)","Function.map","jtimes","gradient"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
