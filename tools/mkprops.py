#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; run to regenerate)."""
import json, pathlib
I = "ADOL-C/include/adolc/"; S = "ADOL-C/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Forward sweeps return the exact Taylor coefficients of the taped program",
  "For every program of supported operations and every input where it is analytic, taping returns the program's own values, and every forward sweep (zero, first or higher order, one or many directions, partial-independent and keep variants) returns exactly the truncated Taylor coefficients of the dependents along the given input path, up to rounding. The result does not depend on which overload, number of directions, degree or keep argument is used to ask for the same coefficient.",
  ["programs", "inputs", "configurations"],
  "every straight-line composition of the overloaded operators and intrinsics (including aliased and in-place forms), every base point, input path, degree and direction count",
  "Tests evaluate a few fixed one-operation programs at fixed points, mostly degree 1-2; compositions, aliasing (x=x*x), high degrees, and mixed variants are never enumerated.",
  [S+"uni5_for.cpp", S+"adouble.cpp", I+"adtb_types.h", S+"interfaces.cpp", S+"interfacesf.cpp"],
  [("operation interpreter for forward sweeps", S+"uni5_for.cpp"), ("recording overloads", S+"adouble.cpp"), ("overload dispatch", S+"interfaces.cpp")])

p("P02", "Reverse sweeps return the exact adjoints of the preceding forward sweep",
  "For every taped program and every preceding forward sweep that kept its Taylor coefficients, each reverse sweep (first order, higher order, single or many weight vectors, time-dependent weights, many-direction variants) returns exactly the weighted Taylor coefficients of the Jacobian along that path. Scalar and vector variants agree with each other, and forward and reverse give the same derivative.",
  ["programs", "inputs", "configurations", "histories"],
  "every program, input path, keep degree, set of weight vectors and order of preceding forward sweeps",
  "Tests check single operations with one weight vector; adjoint accumulation over reused, overwritten and aliased variables, higher orders and repeated reverse sweeps are not enumerable by hand.",
  [S+"fo_rev.cpp", S+"ho_rev.cpp", S+"interfaces.cpp", S+"internal"],
  [("first-order adjoint interpreter", S+"fo_rev.cpp"), ("higher-order adjoint interpreter", S+"ho_rev.cpp"), ("Taylor stack", S+"valuetape")])

p("P03", "Easy-to-use drivers return the mathematical derivatives they are named after",
  "Function, gradient, Jacobian (row-wise, vector and large variants), vector-Jacobian, Jacobian-vector, Hessian, Hessian-vector, Hessian-matrix, weighted-Hessian and Lagrangian-Hessian drivers return exactly the corresponding derivative object of the taped function at the given point, for any dimensions and any number of directions. Results never depend on earlier driver calls on the same or another tape.",
  ["programs", "inputs", "histories"],
  "every taped function, point, direction, weight, shape, and every sequence of driver calls",
  "Tests call each driver on one or two functions of one shape; they cannot cover all shapes or call sequences.",
  [S+"drivers/drivers.cpp", S+"drivers/driversf.cpp", I+"drivers/drivers.h"],
  [("easy drivers", S+"drivers/drivers.cpp")])

p("P04", "Evaluating a tape at a new point is exact or reported through the return code",
  "Re-evaluating a tape at a point where every comparison, min/max, absolute value, rounding and conditional assignment takes the recorded branch gives the same results as re-recording there, with the analytic return code; where a branch differs or a tie occurs the driver reports it by the documented return code instead of silently returning other values as if valid. Conditional assignments, min, max and absolute value follow the branch of the new point.",
  ["programs", "inputs"],
  "every program with branches, every pair of recording point and evaluation point",
  "Tests evaluate at the taping point or one other point; the branch combinations between two points are unbounded.",
  [S+"uni5_for.cpp", S+"adouble.cpp", S+"drivers/drivers.cpp"],
  [("comparison and switch operations, return code propagation", S+"uni5_for.cpp")])

p("P05", "Reverse sweeps are only performed on a matching forward sweep",
  "A reverse sweep is accepted exactly when the tape currently holds Taylor coefficients of at least the needed degree from a forward sweep (or recording) that kept them; its result is determined by the most recent such sweep and by nothing else. In every other state it is refused with an error instead of returning numbers.",
  ["histories"],
  "every interleaving of recording, forward sweeps of any kind with any keep, and reverse sweeps of any kind over several tapes",
  "Tests only exercise the sanctioned forward-then-reverse pair; the protocol's other histories are not tested.",
  [S+"interfaces.cpp", S+"fo_rev.cpp", S+"ho_rev.cpp", S+"uni5_for.cpp", S+"valuetape/valuetape.cpp"],
  [("Taylor buffer validity and degree bookkeeping", S+"valuetape/valuetape.cpp")])

p("P06", "Results do not depend on tape or Taylor buffer sizes",
  "Every driver returns the same results whether the tape and its Taylor values fit in main-memory buffers or have to be paged to disk files, for every choice of the four buffer sizes. Recording works through every way of starting a tape, including those that set the buffer sizes.",
  ["configurations", "programs", "histories"],
  "every combination of operation, location, value and Taylor buffer sizes, every tape length around block boundaries, every sweep order",
  "All tests use default buffers of hundreds of thousands of entries, so the paging code is almost never executed.",
  [S+"valuetape/valuetape.cpp", S+"tape_interface.cpp", I+"valuetape/valuetape.h", S+"tape_interface.cpp"],
  [("block paging of tape streams", S+"valuetape/valuetape.cpp"), ("Taylor stack paging", S+"valuetape/valuetape.cpp")])

p("P07", "Tapes stay independent of each other",
  "Any interleaving of recording, nested recording, re-recording, evaluating, releasing and removing several tapes leaves every other tape's results, dimensions and stored Taylor state unchanged, and each recorded operation goes to the tape that is current at that moment. Re-recording a tag replaces exactly that tape.",
  ["histories"],
  "every interleaving of life-cycle operations and sweeps over several tape tags",
  "Tests use one or two tapes in a fixed order.",
  [S+"tape_interface.cpp", I+"tape_interface.h", S+"valuetape/valuetape.cpp"],
  [("tape registry and current-tape stack", S+"tape_interface.cpp")])

p("P08", "Active variables own distinct storage for exactly their lifetime",
  "At every moment the live active variables of a tape occupy distinct slots, contiguous requests get contiguous slots, and values never change except by operations on that variable, no matter in which order variables, arrays and temporaries are created, copied, moved, destroyed or how often storage grows. Reported live-variable counts cover every slot in use, and freed slots are reusable.",
  ["histories"],
  "every sequence of allocations, contiguous allocations, frees and growths; every order of construction and destruction",
  "Tests create a handful of variables and never fragment the free list or force growth while values are live.",
  [S+"storemanager.cpp", I+"storemanager.h", S+"adouble.cpp", S+"valuetape/valuetape.cpp"],
  [("slot free list", S+"storemanager.cpp"), ("block allocation", S+"storemanager.cpp")])

p("P09", "Parameters can be changed without re-recording",
  "A tape recorded with parameters and then evaluated after changing the parameter values gives exactly the results of a tape recorded with those values as constants, for every operation that accepts a parameter and in every sweep mode. Parameters never become independents and persist until changed again.",
  ["programs", "inputs", "histories"],
  "every operation and operand position accepting a parameter, every sequence of parameter changes and sweeps",
  "Only a few operations and one parameter change are tested, mostly in first-order mode.",
  [S+"pdouble.cpp", S+"adouble.cpp", S+"uni5_for.cpp", S+"fo_rev.cpp", S+"ho_rev.cpp", S+"valuetape/valuetape.cpp"],
  [("parameter operations", S+"uni5_for.cpp"), ("set_param_vec", S+"tape_interface.cpp")])

p("P10", "Checkpointed loops are equivalent to recording every step",
  "A time-stepping loop recorded through the checkpointing facility gives the same function values, gradients and Jacobian rows as the plainly recorded loop, for every number of steps and checkpoints, alone or with several such loops, and for repeated forward and reverse sweeps. The schedule never needs more than the allowed number of checkpoints and reverses every step exactly once in order.",
  ["schedules", "programs", "histories"],
  "every (steps, checkpoints) pair, every loop body, and every sequence of sweeps",
  "One example with a fixed number of steps and checkpoints is run.",
  [S+"checkpointing.cpp", S+"revolve.cpp", I+"checkpointing.h"],
  [("binomial schedule", S+"revolve.cpp"), ("checkpoint store/restore and replay", S+"checkpointing.cpp")])

p("P11", "External functions behave like the code they replace",
  "Calling an external function from a tape gives the values its callback computed and, in every sweep, exactly the derivatives obtained by composing the callback's derivatives with the rest of the tape; callbacks see the current argument values, and arguments are preserved when requested. This holds for several and repeated calls and for every calling style offered.",
  ["programs", "histories"],
  "every position, number, dimension and style of external calls within a program, and every sweep order",
  "A couple of fixed examples with one call are tested.",
  [S+"externfcts.cpp", S+"externfcts2.cpp", I+"externfcts.h", I+"externfcts2.h", I+"edfclasses.h"],
  [("external call recording and dispatch", S+"externfcts.cpp"), ("second interface", S+"externfcts2.cpp")])

p("P12", "Fixed-point iterations are differentiated at the fixed point",
  "For every contractive iteration recorded through the fixed-point facility, the tape returns the fixed point and, in forward and reverse mode, the derivatives given by the implicit function theorem. This holds for several registered iterations and repeated sweeps.",
  ["programs", "histories"],
  "every contractive iteration, dimension, number of registered iterations and repetition of sweeps",
  "One scalar example is run.",
  [S+"fixpoint.cpp", I+"fixpoint.h"],
  [("fixed point driver and its derivative iterations", S+"fixpoint.cpp")])

p("P13", "Sparsity patterns cover every dependence and sparse derivatives are exact",
  "The Jacobian and Hessian sparsity patterns include every position whose derivative is not identically zero on the taped branch (and structural patterns contain nothing a direct dependence analysis would not), in every propagation mode. The sparse Jacobian and Hessian drivers return exactly the nonzero structure with the exact derivative values, for every seeding and recovery option and when an earlier pattern is reused.",
  ["programs", "inputs", "configurations"],
  "every program, number of independents around word-size boundaries, every option combination",
  "Tests use tiny fixed functions (far below one bit word) and few option combinations.",
  [S+"sparse/sparsedrivers.cpp", S+"sparse/sparse_fo_rev.cpp", S+"uni5_for.cpp", S+"fo_rev.cpp", I+"sparse/sparsedrivers.h"],
  [("bit pattern propagation", S+"fo_rev.cpp"), ("index domains", S+"uni5_for.cpp"), ("compression and recovery", S+"sparse/sparsedrivers.cpp")])

p("P14", "Abs-normal forms reproduce the piecewise-linear model exactly",
  "For every abs-smooth program the abs-normal form (switching variables, vectors and matrices) evaluates to the same function values and to the same piecewise linearization as the program itself, with switching variables numbered in evaluation order. Piecewise-linear forward sweeps and directional active gradients agree with the one-sided derivatives of that model.",
  ["programs", "inputs"],
  "every composition of smooth operations with absolute values, minima and maxima (nested to any depth), every base point and direction, including kinks",
  "Only one or two fixed small functions are tested.",
  [S+"drivers/psdrivers.cpp", S+"fos_pl_reverse.cpp", S+"uni5_for.cpp", S+"fo_rev.cpp", I+"drivers/psdrivers.h"],
  [("switching variable extraction", S+"uni5_for.cpp"), ("abs-normal driver", S+"drivers/psdrivers.cpp")])

p("P15", "Traceless forward mode equals the taped derivatives",
  "For every program of the operations a mode offers, the traceless scalar/vector and higher-order vector modes compute the same values and derivatives as the exact Taylor calculus (and so as the tape), and traceless index-domain propagation reports every dependence. Values behave as ordinary numbers under copying, assignment and in-place operators.",
  ["programs", "inputs", "configurations"],
  "every program, number of directions, and supported degree",
  "Tests check one operation at a time.",
  [S+"adouble_tl.cpp", S+"adouble_tl_hov.cpp", S+"adouble_tl_indo.cpp", I+"adtl.h", I+"adtl_hov.h", I+"adtl_indo.h"],
  [("traceless overloads", I+"adtl.h"), ("higher-order traceless overloads", I+"adtl_hov.h")])

p("P16", "Derivative tensors, Taylor-series and ODE drivers are exact",
  "Tensor evaluation returns every mixed partial derivative of the requested order in every direction set, retrievable for every ordering of its multi-index; the inverse-tensor, implicit Taylor, Jacobian-solve and ODE Taylor drivers return the exact coefficients of the inverse function, linear system and ODE solution. Results do not depend on previous calls.",
  ["programs", "inputs", "histories"],
  "every taped polynomial or rational function, dimension, degree, seed matrix and call history",
  "Tests check single functions at low degree and never reuse the drivers' hidden state.",
  [S+"drivers/taylor.cpp", S+"drivers/odedrivers.cpp", S+"drivers/odedriversf.cpp", I+"drivers/taylor.h", I+"drivers/odedrivers.h"],
  [("tensor interpolation and cached solves", S+"drivers/taylor.cpp"), ("ODE Taylor recursion", S+"drivers/odedrivers.cpp")])

p("P17", "Active subscripts and conditional assignments follow the evaluation point",
  "Reading, writing and updating active vectors through active subscripts, and conditional assignments in all forms, give for every later evaluation point the values and derivatives of the program executed at that point, in every sweep mode. Assigning to one element never affects another.",
  ["programs", "inputs"],
  "every program mixing subscripted reads, writes and in-place updates with conditional assignments, and every pair of recording and evaluation points",
  "Tests evaluate at the recording point with one or two statements.",
  [S+"advector.cpp", I+"advector.h", S+"uni5_for.cpp", S+"fo_rev.cpp", S+"ho_rev.cpp"],
  [("active subscripting", S+"advector.cpp"), ("subscript operations in sweeps", S+"uni5_for.cpp")])

p("P18", "The C interface gives the same results as the C++ interface",
  "Every program recorded and differentiated through the C interface, taped or traceless, gives the same values, derivatives and return codes as the same program through the C++ interface. Every documented C entry point is bound to the operation it names with its arguments in order.",
  ["programs", "inputs"],
  "every C entry point, operand combination and program",
  "The C interface has almost no tests; the wrappers are one-line and easily crossed.",
  ["ADOL-C/c_interface"],
  [("C wrappers", "ADOL-C/c_interface")])

p("P19", "Threads with separate tapes do not interfere",
  "Any number of threads recording and differentiating their own tapes concurrently obtain exactly the results of running alone, under every schedule, including when they use the same tags, register callbacks or call any driver, and when threads begin and end. Nothing a thread recorded, computed or registered is visible in another. The traceless classes, whose number of directions is a process-wide setting, are claimed only for calls that do not overlap.",
  ["schedules"],
  "every interleaving of the API calls of several threads",
  "Tests are single-threaded.",
  [S+"tape_interface.cpp", I+"tape_interface.h", S+"revolve.cpp", I+"adolc_openmp.h"],
  [("thread-local tape registry", S+"tape_interface.cpp")])

p("P20", "Misuse is reported as an error and leaves the library usable",
  "Calls that violate a documented precondition (unknown tape, tape still recording, wrong number of independents or dependents, starting a tape twice, invalid keep, wrong parameter count, mismatched external function) raise the library's error or return the documented error value, never crash or return numbers. After the error, all tapes remain usable with unchanged results.",
  ["histories", "fault_sequences"],
  "every misuse at every point of every life-cycle history",
  "A few errors are tested in isolation; the state after the error is not.",
  [S+"adolcerror.cpp", S+"interfaces.cpp", S+"tape_interface.cpp", S+"uni5_for.cpp", S+"valuetape/valuetape.cpp"],
  [("error reporting", S+"adolcerror.cpp"), ("precondition checks", S+"interfaces.cpp")])

p("P21", "Tape statistics are truthful",
  "For every recorded tape the statistics report exactly the number of independents, dependents, parameters and switches in use, the buffer sizes the tape was recorded with and its number of operations and locations, and no evaluation of the tape changes them (except the size of the Taylor stack). The printed description of a tape lists every recorded operation in order, counted forwards and backwards, with locations and constants; read as a program it computes what the recorded program computes.",
  ["programs", "configurations"],
  "every program, buffer configuration and evaluation history",
  "Tests look at two counters of one program.",
  [S+"valuetape/valuetape.cpp", S+"tape_interface.cpp", S+"tapedoc/tapedoc.cpp", I+"valuetape/tapeinfos.h"],
  [("statistics record", S+"valuetape/valuetape.cpp"), ("tape printer", S+"tapedoc/tapedoc.cpp")])

p("P22", "Lie derivative drivers return exact Lie derivatives",
  "For tapes of a vector field and of an output map or covector field, the Lie drivers return exactly the scalar Lie derivatives, their gradients and the covector Lie derivatives up to the requested degree, for all dimensions.",
  ["programs", "inputs"],
  "every pair of taped polynomial vector field and output map, every point and degree",
  "One example program only.",
  [S+"lie/adolc_lie.cpp", S+"lie/adolc_lie_c.cpp", I+"lie/drivers.h"],
  [("Lie derivative accumulation", S+"lie")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for q in P:
    assert len(q["title"]) <= 80, q["id"]
    for f in q["anchors"]["files"]:
        assert (pathlib.Path("/repo") / f).exists(), f
out.write_text("".join(json.dumps(q) + "\n" for q in P))
