import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe,hook_needed=None)))
p("C01","speccon1d_vr results solve the stated vertical/radial drainage problem",
  "For every admissible input (layered depth-dependent properties, one- or two-way drainage, any mix of surcharge, vacuum, top/bottom pore pressure, fixed pore pressure and pumping, each with piecewise-linear time variation and optional harmonic factor), the pore pressure at a depth, average pore pressure over an interval and settlement reported by the vertical/radial drain consolidation model are those of the series (Galerkin) solution, with the requested number of terms, of the governing equation in its documentation. Boundary values at drained boundaries equal the prescribed ones, and average pore pressure and settlement are consistent with the pore pressure profile.",
  ["inputs","configurations"],"all layerings, property profiles, load combinations, depths, times, numbers of terms, drainage types and loop implementations",
  "The tests sample a few hand-built soil profiles against tabulated values (and almost all of those tests cannot run on the current Python); the product space of layers x loads x outputs is unbounded.",
  ["geotecha/speccon/speccon1d_vr.py","geotecha/speccon/speccon1d.py","geotecha/speccon/integrals.py"],
  [("assembly of gam/psi, eigen decomposition, load vectors","geotecha/speccon/speccon1d_vr.py"),("time-dependent load kernels","geotecha/speccon/speccon1d.py")],
  ["por","avp","set","after make_all()"])
p("C02","speccon1d_vrw results solve the stated well-resistance problem",
  "For every admissible input, the soil pore pressure, its depth average, the well pore pressure and the settlement reported by the vertical/radial drainage model with well resistance are those of the series (Galerkin) solution, with the requested number of terms, of the coupled governing equations in its documentation. Boundary values at drained boundaries equal the prescribed ones and averages and settlement are consistent with the profiles.",
  ["inputs","configurations"],"all layerings, soil and well property profiles, load combinations (surcharge, vacuum, top/bottom pore pressure), depths, times, numbers of terms, drainage types",
  "Tests sample a handful of profiles and cannot run on the current Python; correctness must hold for the whole input space.",
  ["geotecha/speccon/speccon1d_vrw.py","geotecha/speccon/speccon1d.py","geotecha/speccon/integrals.py"],
  [("coupled soil/well matrices","geotecha/speccon/speccon1d_vrw.py")],["por","porwell","avp","avpwell","set"])
p("C03","speccon1d_vrc results solve the stated stone-column problem",
  "For every admissible input, the soil and column pore pressures, their depth averages and the settlement reported by the stone-column composite model are those of the series (Galerkin) solution, with the requested number of terms, of the coupled governing equations in its documentation. Boundary values at drained boundaries equal the prescribed ones and averages and settlement are consistent with the profiles.",
  ["inputs","configurations"],"all layerings, soil/column properties, stress-sharing parameters, load combinations, depths, times, numbers of terms, drainage types",
  "Tests sample a handful of profiles and cannot run on the current Python; correctness must hold for the whole input space.",
  ["geotecha/speccon/speccon1d_vrc.py","geotecha/speccon/speccon1d.py","geotecha/speccon/integrals.py"],
  [("coupled soil/column matrices","geotecha/speccon/speccon1d_vrc.py")],["pors","porc","por","avps","avpc","avp","set"])
p("C04","speccon1d_unsat results solve the stated unsaturated consolidation problem",
  "For every admissible input, the pore air pressure, pore water pressure, their depth averages and the settlement reported by the unsaturated consolidation model are those of the series (Galerkin) solution, with the requested number of terms, of the coupled air/water governing equations in its documentation, including surcharge and top/bottom air and water pressures, in any combination. Boundary values at drained boundaries equal the prescribed ones and averages and settlement are consistent with the profiles.",
  ["inputs","configurations"],"all layerings, air/water coefficients, load/boundary combinations, depths, times, numbers of terms, drainage types",
  "Tests sample single-layer literature cases and cannot run on the current Python; combinations of boundary conditions are never exercised.",
  ["geotecha/speccon/speccon1d_unsat.py","geotecha/speccon/speccon1d.py","geotecha/speccon/integrals.py"],
  [("coupled air/water matrices","geotecha/speccon/speccon1d_unsat.py")],["pora","porw","avpa","avpw","set"])
p("C05","Spectral models: superposition, causality and unit/layer/output invariance",
  "For the spectral consolidation models, the response to combined loads is the sum of the responses to the separate loads and scales with load magnitude; the response at a time depends only on the load histories up to that time (for histories that extend past the output times). Results do not change when a layer is split into identical sublayers, when normalising reference values are re-chosen consistently, when other output depths/times are added or a subset of times is selected, or when the loop implementation is changed, and running a model does not alter the loads and property profiles passed to it.",
  ["inputs","configurations","histories"],"all models, load sets, layer splits, reference values, output requests and implementations",
  "These are relations between runs; tests only compare single runs with stored numbers.",
  ["geotecha/speccon/speccon1d.py","geotecha/speccon/speccon1d_vr.py","geotecha/speccon/speccon1d_vrw.py","geotecha/speccon/speccon1d_vrc.py","geotecha/speccon/speccon1d_unsat.py"],
  [("linear assembly","geotecha/speccon/speccon1d*.py")],["all reported outputs"])
p("C06","Spectral depth integrals equal the true integrals in every implementation",
  "For any admissible layered piecewise-linear functions and eigenvalues, every depth-integral routine used by the spectral models returns the true value of the integral it documents. Its scalar, vectorised and compiled implementations agree with each other.",
  ["inputs","configurations"],"all piecewise-linear profiles (steps, ramps, many layers), one- and two-way eigenvalues, all implementations",
  "Tests check a few fixed profiles with a few modes.",
  ["geotecha/speccon/integrals.py","geotecha/speccon/ext_integrals.f95"],
  [("closed-form term-by-term integration","geotecha/speccon/integrals.py")],["return values of dim1sin_* and pdim1sin_*"])
p("C07","Spectral time kernels equal the exact convolution with the load history",
  "For any eigenvalues, piecewise-linear load histories (ramps, steps, before, at or after the output times) and optional cosine factor, the time-dependent load and boundary-condition kernels return the exact convolution integrals they document. The assembled load vectors and the reconstruction of values, averages and integrals from them equal their documented definition.",
  ["inputs","configurations","histories"],"all load histories, output times, eigenvalues, omega/phase pairs, implementations",
  "Tests use a few fixed loads; corner cases such as output times coinciding with steps or lying before a load are sampled sparsely.",
  ["geotecha/speccon/integrals.py","geotecha/speccon/speccon1d.py"],
  [("Eload/EDload kernels","geotecha/speccon/integrals.py"),("dim1sin_E_Igamv_the_*, dim1sin_f, dim1sin_avgf, dim1sin_integrate_af","geotecha/speccon/speccon1d.py")],["return values"])
p("C08","Compiled routines are memory safe and repeatable",
  "For every valid input the compiled routines never read or write outside their arrays, never use unallocated storage and never perform undefined arithmetic. Repeated or interleaved use in one process gives the same results as a first use in a fresh process.",
  ["inputs","histories"],"all array sizes, layerings, stress paths and call sequences accepted by the Python layer",
  "The tests run an uninstrumented build, where an out-of-bounds access usually goes unnoticed.",
  ["geotecha/speccon/ext_integrals.f95","geotecha/constitutive_models/epus_ext.f95"],
  [("explicit-shape dummy arguments, module-level allocatable state","*.f95")],["instrumented builds of the Fortran sources"])
p("C09","Piecewise-linear evaluation, integration and averaging are exact",
  "For any piecewise-linear or piecewise-constant function, in either of its representations and including steps and values outside its range, interpolation, running or interval integration, integration of products of functions and averaging over non-empty intervals return exactly what the mathematical function gives. Conversions between representations and the segment classification helpers describe the same function.",
  ["inputs"],"all functions with steps, ramps, plateaus, increasing or decreasing abscissae, all evaluation points and intervals",
  "Tests sample about forty fixed shapes.",
  ["geotecha/piecewise/piecewise_linear_1d.py"],[("segment search and closed-form integration","geotecha/piecewise/piecewise_linear_1d.py")],["return values"])
p("C10","PolyLine arithmetic and data-preparation helpers are pointwise exact and pure",
  "Sums and differences of polylines, and sums, differences, products and quotients of a polyline with a scalar, evaluate pointwise to the same operation on the operands, and equality, copying and both coordinate views stay consistent. Making abscissae common, subdividing segments and generating layer coordinates never change the function described, respect the requested limits, and no operation changes its operands or arguments.",
  ["inputs","histories"],"all polylines, scalars, operation sequences and subdivision settings",
  "Tests use a few fixed polylines, one operation each, and do not check operands afterwards.",
  ["geotecha/piecewise/piecewise_linear_1d.py"],[("PolyLine operators, polyline_make_x_common, subdivide_*","geotecha/piecewise/piecewise_linear_1d.py")],["return values and operands"])
p("C11","Input text is parsed faithfully and can never execute arbitrary code",
  "Text given to an analysis object sets exactly the attributes it assigns, with the values the same expressions have in Python, and leaves all other attributes at their initial values; the same problem given as text, as attributes or from a file gives the same results. Text containing constructs outside the allowed syntax (imports, classes, attributes, functions or names that are not allowed) is rejected without executing any of it, and declared attribute combinations, lengths and conversions are enforced before any calculation.",
  ["inputs","programs"],"all input texts, allowed or hostile, and all attribute combinations",
  "The set of possible input programs is infinite; tests try a dozen.",
  ["geotecha/inputoutput/inputoutput.py"],[("SyntaxChecker whitelist, object_members/copy_attributes, check_* helpers","geotecha/inputoutput/inputoutput.py")],["attributes, exceptions and side effects of text input"])
p("C12","Saved reports hold the computed results and never overwrite or mix outputs",
  "Files written for a run contain every value of the reported grids with their row and column labels, to the precision written, and the input echo reproduces the analysis when run again. A new automatically numbered output set never overwrites or merges with an existing file, and batch processing of input files processes each listed file exactly once, with outputs in the requested place, leaving the working directory as it was.",
  ["inputs","histories","fault_sequences"],"all result grids, label sets, pre-existing directory contents, file stems and batches (including ones in which some inputs fail)",
  "Tests mock the file system and check a few stems.",
  ["geotecha/inputoutput/inputoutput.py"],[("next_output_stem, save_grid_data_to_file, GenericInputFileArgParser, InputFileLoaderCheckerSaver","geotecha/inputoutput/inputoutput.py")],["files on disk"])
p("C13","One-dimensional Terzaghi and fractional/classical solutions satisfy theory",
  "The one-dimensional consolidation solutions satisfy the consolidation equation and their initial and drainage boundary conditions for uniform initial pore pressure; the degree of consolidation follows the depth average of the pore pressure and the flow rate follows Darcy's law at the drained boundary. At positive times the creep (secondary) consolidation solution satisfies its governing equation and reduces to the classical solution without creep.",
  ["inputs"],"all depths, times, drainage directions, coefficients, creep parameters",
  "Tests compare a few tabulated points.",
  ["geotecha/consolidation/terzahi.py","geotecha/consolidation/cosenzaandkorosak2014.py"],[("series solutions","geotecha/consolidation/terzahi.py")],["return values"])
p("C14","Smear-zone drain resistance factors equal the radial flow integral",
  "For every admissible drain spacing ratio, smear geometry and permeability profile (constant, overlapping, parabolic, linear, piecewise constant or linear, with or without well resistance), the drain resistance factor equals the value given by integrating radial flow through the corresponding permeability profile, and permeability/geometry profile functions match their definitions at every radius. Equivalent descriptions of the same zone (limits, degenerate smear, finely divided profiles) give the same factor.",
  ["inputs"],"all spacing ratios, smear extents, permeability ratios, profiles",
  "Tests check isolated parameter sets.",
  ["geotecha/consolidation/smear_zones.py"],[("closed form mu_* and k_* functions","geotecha/consolidation/smear_zones.py")],["return values"])
p("C15","Radial drain pore pressures, consolidation and back-calculations are consistent",
  "For every smear-zone model the pore pressure distribution around the drain averages over the soil cylinder to the average pore pressure, vanishes (or equals the well value) at the drain, has zero gradient at the outer radius and carries the flux implied by the permeability there, and the non-Darcian models reduce to the Darcian ones as the exponent tends to one. A back-calculated drain spacing reproduces the eta it was calculated from (spacings well outside the smear zone are always found), and influence radii follow from equal unit-cell areas.",
  ["inputs"],"all geometries, permeability profiles, radii, times, exponents",
  "Tests check isolated points.",
  ["geotecha/consolidation/smear_zones.py"],[("u_* , uavg_*, back_calc_*, re_from_drain_spacing etc","geotecha/consolidation/smear_zones.py")],["return values"])
p("C16","Large-strain consolidation is self-consistent and satisfies its equation",
  "For every admissible soil and load, the large-strain one-dimensional consolidation solution satisfies its governing equation, drainage boundary and initial conditions in excess pore pressure, void ratio and settlement, with mutually consistent coordinates, void ratios, stresses and permeability/compressibility relations at every reported depth and time. Settlement equals the integrated change in void ratio and one-way drainage equals half a two-way problem of double thickness.",
  ["inputs"],"all soil parameters, loads, thicknesses, drainage types, depths and times",
  "Tests compare one published case.",
  ["geotecha/consolidation/xieandleo2004.py"],[("series solution in Lagrangian coordinate","geotecha/consolidation/xieandleo2004.py")],["return values of the public methods"])
p("C17","Layered consolidation solutions satisfy the layered boundary-value problem",
  "For every admissible layered profile, drainage and time-dependent load, the multilayer one-dimensional and radial/vertical analytical solutions and the depth-varying-property solution give pore pressures, average pore pressures and settlements that satisfy the layered consolidation equation with continuity of pressure and flow at interfaces, the boundary and initial conditions, and that are consistent with each other. Splitting layers or choosing an equivalent uniform profile does not change the result.",
  ["inputs","configurations"],"all numbers of layers, property contrasts, boundary types, loads, depths and times",
  "Tests compare one or two published profiles (mostly not runnable at present).",
  ["geotecha/consolidation/schiffmanandstein1970.py","geotecha/consolidation/nogamiandli2003.py","geotecha/consolidation/zhuandyin2012.py"],
  [("eigenvalue search and eigenfunction expansion","geotecha/consolidation/schiffmanandstein1970.py")],["por, avp, set"])
p("C18","Vertical-drain analytical solutions satisfy their governing equations and limits",
  "The equal-strain drain solutions (uniform vertical plus radial drainage under ramp loading with well resistance; discharge capacity varying with depth and time; stone column with lateral-stress sharing) give average and point pore pressures and settlement/degree of consolidation that satisfy the stated flow equations, initial and boundary conditions for every admissible input. Each reduces to the simpler solution when its extra effect is switched off and results at given points do not depend on which other points are requested.",
  ["inputs"],"all drain geometries, soil and drain properties, load ramps, depths, radii and times",
  "Tests compare a handful of published points.",
  ["geotecha/consolidation/tangandonitsuka2000.py","geotecha/consolidation/dengetal2013and2014.py","geotecha/consolidation/luetal2010.py"],
  [("series solutions","geotecha/consolidation/")],["return values"])
p("C19","Unsaturated analytical solution satisfies the coupled air/water equations",
  "For every admissible soil, drainage and load, the analytical unsaturated one-dimensional consolidation solution gives air and water pressures that satisfy the coupled air/water consolidation equations with their initial and boundary conditions. Results at given depths and times do not depend on which others are requested, and scale with the initial excess pressures and load.",
  ["inputs"],"all coefficients, initial pressures, surcharge, drainage, depths, times",
  "Tests compare one published case.",
  ["geotecha/consolidation/shanetal2012.py"],[("eigenfunction expansion of coupled system","geotecha/consolidation/shanetal2012.py")],["return values"])
p("C20","Void ratio-stress models are path-consistent and their inverses and slopes agree",
  "For every soil parameter set and stress/void-ratio state, each compressibility model's stress-from-void-ratio and void-ratio-from-stress functions invert each other, with preconsolidation stress updated exactly when exceeded, and the reported slope equals the derivative of the curve on the branch in force. The elastic-visco-plastic creep model follows its rate law: subdividing a step does not change the answer beyond its stated accuracy and constant-stress and constant-rate paths agree with integrating the law.",
  ["inputs","histories"],"all parameters, stress states, load/unload/reload histories, scalar and array arguments",
  "Tests sample a few states.",
  ["geotecha/constitutive_models/void_ratio_stress.py"],[("closed-form relations per model","geotecha/constitutive_models/void_ratio_stress.py")],["return values"])
p("C21","Permeability, flow-law and water-retention models are consistent and invertible",
  "For every parameter set, permeability-void ratio models invert exactly; each flow law is odd and increasing in hydraulic gradient, its inverse recovers the gradient, its slope equals the magnitude of the derivative of velocity, and it is continuous at its threshold. Each soil-water characteristic curve is non-increasing in suction, bounded by its saturated and residual (or zero) water content, and its slope, permeability function and inverse forms agree with the curve.",
  ["inputs"],"all parameters, void ratios, gradients, suctions, scalar and array arguments",
  "Tests sample a few values.",
  ["geotecha/constitutive_models/void_ratio_permeability.py","geotecha/constitutive_models/velocity_hydraulic_gradient.py","geotecha/constitutive_models/swcc.py"],
  [("closed-form relations per model","geotecha/constitutive_models/")],["return values"])
p("C22","Elasto-plastic unsaturated volume-mass model follows its path rules",
  "For every soil and every sequence of stress and suction steps, the elasto-plastic unsaturated model reports states with volume-mass identities satisfied (saturation, gravimetric and volumetric water content, void ratio), the requested stress path followed exactly with the requested number of points, water content non-increasing on drying and non-decreasing on wetting, and void ratio non-increasing on loading while no dry pores refill. Compiled and interpreted versions give the same results, and each calculation is independent of earlier ones.",
  ["inputs","histories"],"all soils, stress paths and discretisations, any sequence of calculations in a process",
  "Tests run one or two paths.",
  ["geotecha/constitutive_models/epus.py","geotecha/constitutive_models/epus_ext.f95"],
  [("pore-group model with yield stress history","geotecha/constitutive_models/epus.py")],["results of calculation: suction, stress, void ratio, water contents"])
p("C23","Numerical Laplace, Fourier and Hankel transforms reproduce transform pairs",
  "Numerical inverse Laplace transforms recover the time function of every transform with a known pair, at every time, including vectorised and arbitrary-precision variants, to their expected accuracy. Fourier (cosine, sine, exponential, real/imaginary, even/odd) and Hankel transforms, their inverses and the combined multi-dimensional transforms reproduce analytic pairs, are linear, and round-trip.",
  ["inputs"],"all transform pairs, arguments, parity flags, algorithm options, dimensions",
  "Tests check several fixed pairs (many currently not runnable).",
  ["geotecha/mathematics/laplace.py","geotecha/mathematics/mp_laplace.py","geotecha/mathematics/fourier.py","geotecha/mathematics/hankel.py","geotecha/mathematics/multi_transform.py"],
  [("Talbot contour, half-period integration with Euler/Shanks acceleration","geotecha/mathematics/")],["return values"])
p("C24","Quadrature, root finding, geometry and coordinate transforms are exact",
  "Quadrature rules integrate polynomials up to their degree exactly on any interval and any array of intervals, with error estimates from the embedded rule; the multiple-root finder returns the requested number of consecutive roots in order with none missed or repeated. Polygon and solid property functions return the true area, centroid, volume and second moments (second moments per unit of area, about the centroid) regardless of orientation, translation or starting vertex; depths and reduced levels convert exactly both ways; iteration helpers converge to the true limit.",
  ["inputs"],"all integrands/intervals/orders, root spacings, polygons/polyhedra in any orientation, angles",
  "Tests use a few fixed shapes and orders (many quadrature tests currently not runnable).",
  ["geotecha/mathematics/quadrature.py","geotecha/mathematics/root_finding.py","geotecha/mathematics/geometry.py","geotecha/mathematics/transformations.py"],
  [("rule tables, bracketing, shoelace sums","geotecha/mathematics/")],["return values"])
p("C25","Beam-on-foundation models satisfy the beam equation and load superposition",
  "For every admissible beam, foundation and set of moving or stationary loads, the linear spectral beam model gives the modal solution of its documented equation with zero initial deflection and velocity and pinned ends, is linear in the loads, and agrees between its analytical and time-stepping solvers; loads act only while on the beam, and the nonlinear-foundation beam models (pinned or clamped) solve the same equation with the cubic term. Axle position, load-conversion and static/steady-state moving-load helper functions satisfy their definitions, and nondimensional and dimensional inputs give the same result.",
  ["inputs","configurations"],"all beam/foundation properties, load trains, velocities, times, implementations",
  "Tests compare a few published histories.",
  ["geotecha/beam_on_foundation/specbeam.py","geotecha/beam_on_foundation/dingetal2012.py"],
  [("modal expansion, odeint or eigen-solution","geotecha/beam_on_foundation/")],["deflection arrays"])
p("C26","Plots show exactly the data they are given",
  "Every line drawn by the plotting helpers carries exactly the supplied depth/time/value data (with the documented scaling of depth, reversal, profile and load evaluation), one line per requested series with the requested labels and distinct styles. Plotting does not change the data passed in and model plots show the model's results.",
  ["inputs","configurations"],"all data sets, property dictionaries, time/depth selections",
  "Tests look at a few figures.",
  ["geotecha/plotting/one_d.py","geotecha/inputoutput/inputoutput.py"],[("plot_vs_depth, plot_vs_time, plot_generic_loads etc","geotecha/plotting/one_d.py")],["matplotlib artists"])
p("C27","Generated integral code compiles and computes the documented integrals",
  "The code generator of the spectral method writes complete Python and Fortran source that compiles. Every implementation it writes (scalar, vectorised, Fortran, between depths) computes the documented depth or time integral for arbitrary layers, eigenvalues and load histories, and wrapped or Fortran formatted expressions keep their meaning.",
  ["inputs","configurations"],"all generators, implementations, layerings, eigenvalues, times and load histories",
  "Tests compare a few pieces of generated text, never what the generated code computes.",
  ["geotecha/speccon/integrals_generate_code.py","geotecha/inputoutput/inputoutput.py"],[("symbolic integration, loops and Fortran formatting written as text","geotecha/speccon/integrals_generate_code.py")],["generated source","return values of the compiled source"])
p("C28","Time-limited calls match direct calls; helper listings are complete",
  "A function called under a time limit returns exactly what it returns when called directly, or raises the same exception, whatever the size or kind of the result; when it does not finish within the limit a TimeoutException is raised promptly, never earlier, and the process is ended, with no effect on the caller's objects or later calls. Module and member listings name exactly what is there, and timer messages and array prefixes report exactly what was timed or printed.",
  ["inputs","schedules","crash_points"],"all results, exceptions, ways for the function to end, limits and sequences of calls",
  "One test with one quick and one slow function; nothing about sizes, faults or processes left.",
  ["geotecha/inputoutput/timeout.py","geotecha/inputoutput/inputoutput.py"],[("child process, pipe and wait","geotecha/inputoutput/timeout.py")],["return values","exceptions","wall time","processes"])
p("C29","Shipped examples run as they stand and reproduce the published results",
  "Every example script and example input file that ships with the package runs unchanged (calls that a later matplotlib has removed aside), writes only the output it announces, and its calculated series agree with the published or closed-form series that it carries. The same analyses give the same results with any implementation and with fewer output times or depths, scale with the load, and do not depend on the unit of time or on layer boundaries between equal materials.",
  ["inputs","configurations"],"all shipped examples and all variations of them in implementation, output times and depths, load size, time unit and layering",
  "No test runs the examples; most did not run at all with the installed matplotlib.",
  ["examples/","geotecha/speccon/","geotecha/beam_on_foundation/specbeam.py"],[("whole analyses from input text to figures","examples/")],["result arrays","figures","files"])
p("C30","Calls are independent of each other and leave everything else alone",
  "Whatever was called before (other arguments, other analyses, rejected input, figures), in whatever order and in however many threads, a call with the same inputs gives the results it would give as the first call of a fresh process. A call changes neither its arguments (unless documented), nor results returned earlier, nor process-wide state: numpy's error and print settings, random number generators, the working folder, environment, warning filters, open files and figures. What the caller does to a returned result does not influence later calls.",
  ["histories","inputs","schedules"],"all sequences and thread interleavings of calls of the public functions, analyses and plots",
  "Tests call each function a few times in one fixed order and compare values only; state that leaks from one call to another (mutable defaults, caches, module settings) needs a particular history to show.",
  ["geotecha/"],[("default arguments, class attributes and module level state","geotecha/"),("settings of numpy and matplotlib changed during a call","geotecha/inputoutput/inputoutput.py")],["results of call histories","arguments after the call","process-wide state"])
with open('properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
from jsonschema import validate
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P:
    validate(q,s)
    n=q['statement'].count('. ')+1
    if n>3 or len(q['title'])>80: print(q['id'],n,len(q['title']))
print(len(P))
