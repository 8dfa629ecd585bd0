import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
L="src/LNLib/"
p("D01","Concurrent curve calls give the same results as calls made alone",
 "When several threads call curve operations (evaluation, derivatives, knot and degree editing, splitting, fitting, offsetting, length, tessellation) at the same time, each call returns bit for bit what the same call returns when it runs alone. No two callers touch the same memory without synchronisation, whatever the interleaving.",
 ["schedules","inputs"],"all interleavings of two or more callers of any curve operations on their own or on common unmodified inputs",
 "The tests call everything from one thread, one call at a time.",
 [L+"Geometry/Curve/NurbsCurve.cpp",L+"include/BsplineCurve.h",L+"Geometry/Curve/BezierCurve.cpp"],
 [("static functions without state between calls",L+"Geometry/Curve/NurbsCurve.cpp"),("constant tables initialised before use",L+"Algorithm/Integrator.cpp")],
 observe=["results of every call, and every memory access, of each simulated caller"])
p("D02","Concurrent surface and volume calls give the same results as calls made alone",
 "When several threads call surface or volume operations (evaluation, derivatives, knot and degree editing, construction of ruled, lofted, swept, revolved and interpolated surfaces, triangulation, inversion) at the same time, each call returns bit for bit what the same call returns when it runs alone. No two callers touch the same memory without synchronisation, whatever the interleaving.",
 ["schedules","inputs"],"all interleavings of two or more callers of any surface or volume operations",
 "The tests call everything from one thread, one call at a time.",
 [L+"Geometry/Surface/NurbsSurface.cpp",L+"Geometry/Volume/NurbsVolume.cpp"],
 [("static functions without state between calls",L+"Geometry/Surface/NurbsSurface.cpp")],
 observe=["results of every call, and every memory access, of each simulated caller"])
p("D03","Concurrent algorithm and math calls give the same results as calls made alone",
 "When several threads use the basis-function, knot, Bezier and polynomial routines, the intersection, projection, integration and linear-algebra routines, the point, vector and matrix types, or each their own Voronoi generator or octree at the same time, every call returns bit for bit what it returns when it runs alone. No two callers touch the same memory without synchronisation, whatever the interleaving.",
 ["schedules","inputs"],"all interleavings of two or more callers of these routines",
 "The tests call everything from one thread, one call at a time.",
 [L+"Algorithm",L+"Mathematics",L+"Geometry/Curve/BezierCurve.cpp"],
 [("no state between calls except constant tables",L+"Algorithm/Integrator.cpp"),("generator and octree keep their state in the object",L+"Algorithm")],
 observe=["results of every call, and every memory access, of each simulated caller"])
p("D04","Threads using the C interface never disturb one another",
 "Threads that call the C interface at the same time each get, and keep, exactly the results they would get if they were the only caller. Nothing one thread does through the interface changes, moves or frees memory behind a result another thread holds.",
 ["schedules","inputs"],"all interleavings of two or more threads making any C-interface calls and reading their results at any later moment",
 "The tests do not use the C interface at all.",
 ["dotnet/CAPI/src","dotnet/CAPI/include"],[("result buffers are separate for every thread","dotnet/CAPI/src/NurbsSurface_CAPI.cpp, dotnet/CAPI/include/NurbsCurve_CAPI.h")],
 state=[("result buffers","memory the returned pointers refer to","dotnet/CAPI/src, dotnet/CAPI/include")],observe=["returned structures, read again after other callers ran"])
p("D05","A C-interface result stays valid and intact until the thread's next call",
 "A curve, surface, mesh or array handed out by the C interface refers to valid memory and does not change until the same thread makes its next call through the interface. All parts of one result (knots and control points, the two halves of a split, all pieces of a decomposition, all arrays of a mesh) are valid at the same time and do not overlap, and a result may be passed straight back as an input of the next call, whatever calls, failures or out-of-memory reports came before.",
 ["histories","schedules","fault_sequences"],"all sequences of calls through the C interface, interleaved with other threads and with failing calls",
 "The tests do not use the C interface at all, and a test could only sample a few call sequences.",
 ["dotnet/CAPI/src","dotnet/CAPI/include"],[("results are copied into buffers the interface owns","dotnet/CAPI/src/NurbsSurface_CAPI.cpp, dotnet/CAPI/include/NurbsCurve_CAPI.h"),("inputs are copied before the buffers are refilled","dotnet/CAPI/src")],
 observe=["returned structures, read right after the call and again after other threads ran"])
p("D06","Inputs passed as read-only are never written",
 "No operation writes to the curve, surface, volume, point, parameter or matrix data its caller passes as a read-only input, not even temporarily, whether the call succeeds, rejects its arguments or runs out of memory. Several threads can therefore use the same input object at the same time.",
 ["inputs","schedules","fault_sequences"],"all operations, inputs and outcomes, alone and while other threads use the same input",
 "Tests at most compare an input afterwards for a few calls; a write that is undone before the call returns, or only on a failing path, stays invisible.",
 [L+"Geometry",L+"Algorithm","dotnet/CAPI/src"],[("inputs are taken by const reference and copied where they are modified",L+"Geometry")],
 observe=["every write instruction that hits input memory, and a hash of the input before and after"])
p("D07","A call's result does not depend on the calls made before it",
 "The result of a call depends only on its arguments: after any history of earlier calls, with the same, nearly the same, other or rejected arguments and with failed allocations, the same call gives bit for bit the same result as in a fresh process. A call also leaves the caller's floating-point rounding and exception settings unchanged.",
 ["histories","inputs"],"all sequences of calls of the library in one thread that end with the call under observation",
 "Each test makes a few calls in a fixed order; nothing compares a call after a history with the same call in a fresh process.",
 [L+"Geometry",L+"Algorithm",L+"Mathematics","dotnet/CAPI/src"],[("no caches, no state between calls",L)],observe=["results of every call of the history"])
p("D08","Previous contents of an output object do not influence the result",
 "An operation that fills an object or array supplied by its caller leaves in it bit for bit the same result whatever the object contained before: empty, already used, longer, shorter or of another shape. This includes calls repeated on the same output object after an out-of-memory report.",
 ["histories","inputs","fault_sequences"],"all operations with output parameters, all previous contents",
 "Tests pass freshly constructed output objects.",
 [L+"Geometry",L+"Algorithm",L+"Mathematics"],[("outputs are assigned, or cleared before they are appended to",L+"Geometry")],observe=["output objects after the call"])
p("D09","A failed allocation ends in an out-of-memory error or the exact result",
 "If any memory allocation fails during any operation, the operation either reports an out-of-memory error to its caller or completes with exactly the result it gives without the failure. It never crashes, never terminates the process, never hangs, and never reports a wrong result or another error instead.",
 ["fault_sequences","inputs"],"all operations, failing at any one allocation, from any allocation on, at random or above a size",
 "The tests never let an allocation fail.",
 [L+"Geometry",L+"Algorithm",L+"Mathematics","dotnet/CAPI/src"],[("memory is owned by containers that throw",L),("checked raw allocation in the diagram generator",L+"Algorithm/Voronoi.cpp")],observe=["outcome of the call in which the allocation failed"])
p("D10","After an out-of-memory error the library works as if nothing had happened",
 "After a call was ended by a failed allocation, the same call made again with memory available returns bit for bit the result of a first call, and so does every later call of any operation by any thread.",
 ["fault_sequences","histories"],"all operations, all failing allocations, all continuations",
 "The tests never let an allocation fail.",
 [L+"Geometry",L+"Algorithm",L+"Mathematics","dotnet/CAPI/src"],[("no state is left behind by a call that throws",L)],observe=["results of the repeated call and of the calls after it"])
p("D11","Repeated use does not accumulate memory",
 "Repeating the same calls any number of times does not keep more and more memory: everything a call allocated for itself is released when it returns, also when it ends by an exception or by an out-of-memory error, and everything kept for a thread is released when the thread ends.",
 ["histories","fault_sequences"],"all operations, outcomes and failing allocations, any number of repetitions and threads",
 "Tests do not measure memory and do not fail allocations.",
 [L+"Geometry",L+"Algorithm","dotnet/CAPI/src"],[("containers own the memory; generator and octree free it in their destructors",L+"Algorithm")],observe=["live heap blocks and bytes after each repetition"])
p("D12","Results do not depend on memory contents, addresses, clock or environment",
 "Except for the operations whose purpose is a random direction, the result of a call is bit for bit the same whatever uninitialised heap or stack memory happened to contain, wherever objects lie and however freed memory is reused, whatever the clock says and whichever environment variables are set.",
 ["configurations","inputs"],"all operations under all initial memory contents, layouts, clocks and environments",
 "A test runs in one environment; memory fresh from the operating system is zero, which hides reads of uninitialised data.",
 [L+"Geometry",L+"Algorithm",L+"Mathematics","dotnet/CAPI/src"],[("everything is initialised before it is read",L)],observe=["results under different memory fills, layouts, reuse orders and clocks"])
p("D13","No operation touches memory it does not own, whatever the input",
 "For every well-formed input, including degenerate and extreme ones, and for every argument the library documents as rejected by a check, an operation reads and writes only live memory inside the bounds of the objects involved, releases each block exactly once and does not crash. The same holds when an allocation fails on the way.",
 ["inputs","fault_sequences"],"all operations on all inputs a caller may pass, with and without failing allocations",
 "The tests use a handful of hand-made inputs, mostly square, low-degree and clamped, and would not notice a read just outside a container.",
 [L+"Geometry",L+"Algorithm",L+"Mathematics","dotnet/CAPI/src"],[("index arithmetic and argument validation",L+"Geometry, "+L+"include/ValidationUtils.h")],observe=["every heap access, free and fault of the simulated process"])
p("D14","A random orthogonal direction is one for every entropy draw",
 "Asking for a random direction orthogonal to a given non-zero vector yields a finite unit vector orthogonal to it for every value the entropy source can deliver; the normals carried along an open curve that are derived from it are finite unit vectors orthogonal to the curve's tangent. If the entropy source is unavailable the caller gets an error, never a wrong vector.",
 ["fault_sequences","inputs","schedules"],"all entropy streams, including constant and extreme ones, all failures of the entropy source, all input vectors",
 "Tests sample one random draw per run.",
 [L+"Mathematics",L+"Geometry/Curve/NurbsCurve.cpp"],[("rejection of degenerate draws, normalisation",L+"Mathematics/Math/XYZ.cpp")],observe=["returned vectors"])
p("D15","User callbacks of the integrators may throw, call back and run concurrently",
 "When the function supplied to a numerical integration throws, that very exception reaches the caller and later integrations (also with the same work space) are exactly what they would have been. A callback may itself integrate, and callbacks of different threads may interleave: each callback is only ever called with its own caller's data, and every result is what the same integration gives alone.",
 ["schedules","fault_sequences","histories"],"all positions at which a callback throws, integrates itself or is preempted",
 "Tests integrate a few functions that never fail, from one thread.",
 [L+"Algorithm/Integrator.cpp"],[("all state of an integration lives in its arguments and locals",L+"Algorithm/Integrator.cpp")],observe=["callback arguments, exceptions and results"])
p("D16","A Voronoi generator can be reused, reset and destroyed in any order",
 "After any history of generations, partial or complete readings and resets, a Voronoi generator gives for a set of sites exactly the diagram, triangulation, vertices and links that a new generator gives; a reset or unused generator yields nothing. Independent generators do not influence one another, also when they run in different threads; a generation that runs out of memory reports it and the generator stays usable; nothing is leaked.",
 ["histories","fault_sequences","schedules"],"all sequences of generate, read, reset and destroy on any number of generators, with failing allocations",
 "The tests use one fresh generator per case and read it once.",
 [L+"Algorithm/Voronoi.cpp",L+"include/Voronoi.h"],[("reset and cleanup of the generator's lists",L+"Algorithm/Voronoi.cpp"),("memory list freed by cleanup",L+"Algorithm/Voronoi.cpp")],
 state=[("edge, triangle, vertex and memory lists and their iterators","what a generation produced",L+"include/Voronoi.h")],observe=["everything a generator yields"])
p("D17","One octree can be queried by many threads, and answers exactly",
 "Any number of threads can query the same octree at the same time, in any order and any number of times, and each radius or nearest-neighbour query reports exactly the number of neighbours and the worst distance that a scan over all points gives. Queries never modify the tree, a query or construction that runs out of memory leaves it (or nothing) behind intact, and deleting the tree releases everything.",
 ["schedules","histories","fault_sequences","inputs"],"all interleavings and sequences of queries on one tree, all point sets, with failing allocations",
 "The tests build one tree and ask a few questions from one thread.",
 [L+"Algorithm/Octree/Octree.cpp"],[("queries take the tree as read-only",L+"Algorithm/Octree/Octree.cpp")],observe=["query results against a linear scan; writes to tree memory"])
p("D18","A stalled caller never blocks another; every call completes",
 "Every call completes within a bounded number of its own steps, whatever the other threads do: a thread that is suspended in the middle of a call, for ever if need be, never keeps another thread's call from completing, and no interleaving ends in a deadlock or an endless loop (the language's own one-time initialisation of a constant excepted: a second caller may wait for it). Failed allocations and jumping clocks do not change that.",
 ["schedules","fault_sequences"],"all operations, all points at which another caller is suspended, all interleavings",
 "The tests run one thread to completion.",
 [L+"Geometry",L+"Algorithm","dotnet/CAPI/src"],[("no locks are held across calls; iterations are bounded",L)],observe=["steps needed by each call, blocked callers"])
def g(id,title,statement,over,qtext,why,files,mech):
    p(id,title,statement,over,qtext,why,files,mech)
N="Unit tests sample a few inputs."
g("G01","Evaluation gives the point the NURBS definition gives","For every valid curve, surface or volume and parameter in its domain, the evaluated point equals, up to rounding, the rational combination of control points with the B-spline basis functions of the definition.",["inputs"],"all valid inputs",N,[L+"Geometry",L+"Algorithm/Polynomials.cpp"],[("basis functions and corner cutting",L+"Algorithm/Polynomials.cpp")])
g("G02","Derivatives, curvature, normals and torsion are those of the shape","Derivatives of every order, curvatures, normals and torsion equal, up to rounding, those of the mathematical shape.",["inputs"],"all valid inputs",N,[L+"Geometry"],[("rational derivative formulas",L+"Geometry")])
g("G03","Knot and degree editing preserves the shape","Inserting, refining and allowed removal of knots, elevating and allowed reducing of degree, splitting, merging and decomposing leave the shape unchanged within tolerance.",["inputs"],"all valid inputs",N,[L+"Geometry"],[("insertion, refinement, elevation algorithms",L+"Geometry/Curve/NurbsCurve.cpp")])
g("G04","Transformation, reversal and reparametrisation act on the shape as named","Transforming, reversing, swapping and reparametrising a shape yields the transformed shape point for point.",["inputs"],"all valid inputs",N,[L+"Geometry"],[("operations on control points and knots",L+"Geometry")])
g("G05","Interpolation passes through its points, approximation within its bound","Interpolating curves and surfaces pass through the given points (and tangents), and approximating ones stay within the requested error.",["inputs"],"all valid inputs",N,[L+"Geometry",L+"Algorithm"],[("banded systems and error bounds",L+"Mathematics/Utils/MathUtils.cpp")])
g("G06","Conics, ruled, lofted, revolved and swept shapes have their defining geometry","Constructed arcs, conics, cylinders, ruled, revolved, lofted, swept and filled surfaces have the geometry that defines them.",["inputs"],"all valid inputs",N,[L+"Geometry"],[("constructions",L+"Geometry/Surface/NurbsSurface.cpp")])
g("G07","Closest points, parameters and intersections are correct","Point inversion returns a parameter of a closest point, and projections and intersections return points that lie on both shapes.",["inputs"],"all valid inputs",N,[L+"Geometry",L+"Algorithm"],[("Newton iteration from sampled starts",L+"Geometry")])
g("G08","Lengths, areas and integrals converge to the true value","Approximate lengths, areas and integrals are within the tolerance of the method of the true value.",["inputs"],"all valid inputs",N,[L+"Algorithm/Integrator.cpp",L+"Geometry"],[("quadrature rules",L+"Algorithm/Integrator.cpp")])
g("G09","Tessellation and meshes approximate the shape consistently","Tessellated points lie on the shape in order, and every triangle of a mesh refers to existing vertices and covers the surface without gaps.",["inputs"],"all valid inputs",N,[L+"Geometry"],[("adaptive subdivision",L+"Geometry")])
g("G10","Invalid arguments are rejected","Every argument that violates a documented precondition is rejected with the documented error before anything is computed.",["inputs"],"all invalid inputs",N,[L+"include/LNLibExceptions.h",L+"Geometry"],[("argument validation",L+"Geometry")])
g("G11","Vector, matrix and linear-algebra operations obey their algebra","Point, vector and matrix operations and the linear solvers satisfy the algebraic laws of what they represent up to rounding.",["inputs"],"all inputs",N,[L+"Mathematics"],[("closed formulas",L+"Mathematics")])
g("G12","Voronoi and Delaunay output describes the sites' diagram","Every reported edge separates two sites equidistantly and every Delaunay triangle has an empty circumcircle.",["inputs"],"all site sets",N,[L+"Algorithm"],[("sweep line",L+"Algorithm")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
techs={
"D01":"deterministic simulation: seeded interleavings of curve callers, compared with solo runs, race detection",
"D02":"deterministic simulation: seeded interleavings of surface and volume callers, compared with solo runs, race detection",
"D03":"deterministic simulation: seeded interleavings of algorithm callers, compared with solo runs, race detection",
"D04":"deterministic simulation: seeded interleavings of C-interface threads, compared with solo runs, race detection",
"D05":"deterministic simulation: seeded call histories with held results, preemption and allocation faults",
"D06":"deterministic simulation: seeded schedules over shared inputs, write traps on input memory",
"D07":"deterministic simulation: seeded call histories compared with fresh-process executions",
"D08":"deterministic simulation: seeded previous contents of outputs and failed attempts, compared with clean outputs",
"D09":"deterministic simulation with allocation fault injection, compared with the fault-free execution",
"D10":"deterministic simulation with allocation fault injection, retry and continuation compared with fault-free execution",
"D11":"deterministic simulation: repeated call cycles with faults and thread ends, heap accounting",
"D12":"deterministic simulation: seeded memory contents, layout, reuse, clocks and environment, compared with reference",
"D13":"deterministic simulation with shadow-memory checking and allocation fault injection",
"D14":"deterministic simulation: scripted entropy streams and entropy failures, orthogonality invariant",
"D15":"deterministic simulation: throwing, re-entrant and preempted callbacks",
"D16":"deterministic simulation: generator life-cycle histories with faults against a fresh generator as model",
"D17":"deterministic simulation: interleaved queries on a shared tree against a linear-scan model",
"D18":"deterministic simulation: stalled callers, step bounds and deadlock detection",
}
note="Seeded search, not exhaustive: assurance grows with the number of simulated runs. Trusts the simulator runtime and the compiler's memory-access instrumentation; results are compared between executions of the same build, so it judges independence, not geometric correctness."
na="The truth of this statement is a function of the arguments of one call only: no schedule, clock, fault, crash point or history can change it, so a simulator has nothing to decide; input sampling under another technique would be needed."
M={"version":1,"setup_cmd":"python3 check.py build","hooks":{"guard":"none","enable":"No hook is needed in /repo: the seams are the compiler's instrumentation of memory accesses and link-time wrapping of the C++/C runtime (allocation, threads, locks, clocks, entropy, environment).","source_commits":[]},
"checks":[{"property":k,"quick_cmd":"python3 check.py run %s"%k,"thorough_cmd":"python3 check.py run %s --tier thorough"%k,"technique":v,"level":"exploration","level_note":note,"evidence_file":"evidence/%s.json"%k} for k,v in techs.items()],
"not_applicable":[{"property":x["id"],"reason":na} for x in P if x["id"][0]=="G"],
"notes":"Every check builds the simulator from /repo's working tree (objects are cached by content in .cache). Replay a failure with: python3 check.py replay FILE. Known findings: known-findings.txt."}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
