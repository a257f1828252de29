#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wrapping stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Adjoint gradients are correct for every recorded program",
 "For any straight-line or branching program over adjoint-mode variables (expressions of any shape, compound and self-assignment, overwriting, copies, moves, swaps, temporaries, containers, variables destroyed or reassigned mid-way), one reverse sweep yields, for every registered input, the seed-weighted sum of the exact partial derivatives of the registered outputs with respect to that input, up to floating-point rounding. "
 "This holds for float and double, for any number of inputs and outputs and any seeds, and in both tape slot-management configurations.",
 ["programs", "inputs", "configurations"],
 "All programs over the public operators and functions, all evaluation points where the program is differentiable, all seeds, both XAD_TAPE_REUSE_SLOTS settings.",
 "The tests evaluate a few dozen hand-written formulas at one or two points; the composition of statement recording, slot assignment, overwriting and rollback over arbitrary programs is a quantification over programs.",
 ["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/Literals.hpp", "src/XAD/UnaryExpr.hpp", "src/XAD/BinaryExpr.hpp", "src/XAD/BinaryDerivativeImpl.hpp", "src/XAD/Expression.hpp"],
 [("recording of multipliers/slots per statement", "src/XAD/Literals.hpp AReal::operator=, AReal(Expression), src/XAD/BinaryExpr.hpp calc_derivatives"),
  ("reverse interpretation", "src/Tape.cpp computeAdjointsToImpl")],
 ["xad::derivative(x) of every input after computeAdjoints()", "xad::value(y)"],
 [("derivatives", "adjoint of each slot", "src/XAD/Tape.hpp derivatives_")])

prop("C02", "Forward-mode directional derivatives are correct for every program",
 "For any program over forward-mode variables and any seed direction, the derivative carried by every variable equals the exact directional derivative of that variable's value, up to floating-point rounding, and assigning a constant resets it to zero. "
 "It agrees with the adjoint-mode gradient of the same program contracted with the same direction.",
 ["programs", "inputs"],
 "All programs over the public operators and functions, all differentiable evaluation points, all seed directions, float and double.",
 "The tests check single operators at a handful of points; agreement over arbitrary compositions, aliasing and assignment forms is a quantification over programs.",
 ["src/XAD/Literals.hpp", "src/XAD/UnaryExpr.hpp", "src/XAD/BinaryExpr.hpp", "src/XAD/BinaryDerivativeImpl.hpp"],
 [("tangent propagation through expression templates", "src/XAD/UnaryExpr.hpp, src/XAD/BinaryExpr.hpp getDerivative")],
 ["xad::value / xad::derivative of every variable"])

prop("C03", "Every nested mode yields correct second and third derivatives",
 "For every supported nesting of forward and adjoint mode (second order: forward-over-forward, forward-over-adjoint, adjoint-over-forward, adjoint-over-adjoint; third order: all nestings of these), the derivatives obtained by seeding and reading at each level equal the exact mixed second and third partial derivatives of the program, up to rounding. "
 "This includes evaluation points where intermediate values, adjoints or tangents happen to be exactly zero.",
 ["programs", "inputs", "configurations"],
 "All programs over the operators and functions, all points where the program is three times differentiable (including exact zeros), all 2nd and 3rd order nestings over float and double.",
 "The tests evaluate one or two polynomials per nesting at generic points; special points (exact zeros) and the nestings x operators product are not reached.",
 ["src/Tape.cpp", "src/XAD/Literals.hpp", "src/XAD/UnaryExpr.hpp", "src/XAD/BinaryExpr.hpp", "src/XAD/Interface.hpp", "src/XAD/UnaryMathFunctors.hpp", "src/XAD/BinaryMathFunctors.hpp"],
 [("tape instantiated over active scalars", "src/Tape.cpp MAKE_TAPE_TLS_HIGHER"),
  ("skip of zero adjoints in the sweep", "src/Tape.cpp computeAdjointsToImpl (a != T())"),
  ("derivative functors written in terms of the scalar type", "src/XAD/UnaryMathFunctors.hpp")],
 ["derivative(value(x)), derivative(derivative(x)) after the sweeps"])

prop("C04", "Values computed with AD types equal plain floating-point results",
 "For first-order AD types over float or double, every operator, comparison, conversion and mathematical function yields bit-for-bit the value that the same expression yields on the underlying floating-point type, whether or not variables are registered or a tape is active; output parameters (exponents, integral parts, quotients) are set as in the standard functions. "
 "Which of two zeros of opposite sign max, min, fmax and fmin return is left open. For nested AD types values agree too, up to rounding only for max/min.",
 ["programs", "inputs"],
 "All finite inputs including signed zeros, subnormals and extreme magnitudes; every operator and function in every overload; registered, unregistered and taped variables.",
 "The tests compare values at about one point per function and overload; special magnitudes, signed zeros and evaluation in compound programs are inputs they do not sample.",
 ["src/XAD/UnaryOperators.hpp", "src/XAD/BinaryOperators.hpp", "src/XAD/UnaryMathFunctors.hpp", "src/XAD/BinaryMathFunctors.hpp", "src/XAD/Literals.hpp", "src/XAD/Expression.hpp", "src/XAD/MathFunctions.hpp"],
 [("functor operator() mirrors the scalar function", "src/XAD/UnaryMathFunctors.hpp, src/XAD/BinaryMathFunctors.hpp"),
  ("comparison operators on values", "src/XAD/BinaryOperators.hpp XAD_COMPARE_OPERATOR")],
 ["xad::value(result), bool results, out parameters"])

prop("C05", "Each math function has the right derivative over its whole domain",
 "Every mathematical function and arithmetic operator, in every overload (active or expression or scalar or integer operand on either side, forward and adjoint mode, float and double), returns the analytic partial derivative with respect to each active operand at every point of its domain where that derivative exists, including extreme magnitudes (for division, atan2, asinh, acosh and the smoothed functions as far as the squares and cubes of the arguments are representable), negative arguments, large integer parameters and points on either side of a branch. "
 "At kinks it returns the documented convention (abs: 0 at 0; max/min: one half each at ties; rounding functions: 0).",
 ["inputs", "configurations"],
 "All functions x overloads x domain points, float and double, forward and adjoint.",
 "The tests use about one generic point per function; domain regions (negative quotients, exponents above 31, both branches of the smoothed functions, ties, large arguments) are inputs they do not sample.",
 ["src/XAD/UnaryMathFunctors.hpp", "src/XAD/BinaryMathFunctors.hpp", "src/XAD/UnaryFunctors.hpp", "src/XAD/BinaryFunctors.hpp", "src/XAD/UnaryOperators.hpp", "src/XAD/BinaryOperators.hpp"],
 [("closed-form partials", "functor derivative / derivative_a / derivative_b members")],
 ["derivative of the result (forward), adjoint of the operand (reverse)"])

prop("C06", "Complex AD arithmetic matches std::complex in value and derivative",
 "For complex numbers over AD types, every operator, compound assignment (also when an operand aliases the target or its parts), comparison, stream operation and complex function yields, for finite arguments, the value that the standard complex type yields, up to rounding, for every combination of complex-active, complex-passive, real-active and real-passive operands. "
 "Derivatives of the real and imaginary parts of the result with respect to the real and imaginary parts of every active operand are exact up to rounding, in forward and adjoint mode.",
 ["inputs", "programs"],
 "All complex operations and functions, all operand kind combinations, all quadrants, axes and magnitudes inside the domain, aliasing patterns, forward/adjoint.",
 "The tests use one point per function, mostly in the first quadrant, and check derivatives of few of the 60+ overload combinations.",
 ["src/XAD/Complex.hpp"],
 [("std::complex specialisations for AReal/FReal", "src/XAD/Complex.hpp"), ("function implementations", "src/XAD/Complex.hpp detail::*_impl")],
 ["real(), imag(), derivative of parts"])

prop("C07", "Each live active variable owns its adjoint through its whole lifetime",
 "At any time, distinct live registered variables never share an adjoint: whatever sequence of construction, copying, moving, swapping, self-assignment, container growth, erasure and destruction happened, setting or propagating one variable's adjoint never alters another live variable's. "
 "A moved-to variable takes over the identity (value and adjoint) of its source, a copy is a new variable with derivative one with respect to its source, and the number of variables reported by the tape equals the number of live registered variables.",
 ["histories", "configurations"],
 "All interleavings of variable creation, copy, move, swap, destruction, container operations; both slot-management configurations.",
 "The tests perform a few scripted register/unregister orders; slot recycling bugs need particular orders of destruction (gaps merging, end-of-tape shrink) that form an unbounded set of histories.",
 ["src/XAD/Literals.hpp", "src/XAD/Tape.hpp", "src/Tape.cpp", "src/XAD/ReusableRange.hpp"],
 [("slot allocation and release", "src/XAD/Tape.hpp registerVariable/unregisterVariable, src/Tape.cpp *ReuseSlots"),
  ("range merge/expand", "src/XAD/ReusableRange.hpp")],
 ["getSlot() of every live variable", "derivative() reads/writes", "getNumVariables()"],
 [("reusable ranges", "free slot intervals", "src/XAD/Tape.hpp reusable_ranges_")])

prop("C08", "A tape gives the same results over any history of recordings",
 "Any sequence of new recordings, full clears, derivative clears, repeated sweeps, additional seeds and re-registrations leaves the tape such that the next recording and sweep give exactly the results of a fresh tape performing only that recording; nothing recorded before the start of the current recording contributes. "
 "After clearing derivatives the same recording can be swept again with other seeds, without a clear repeated sweeps accumulate into the inputs linearly, and every documented counter (variables, statements, operations, position) reflects the current recording only.",
 ["histories", "inputs"],
 "All finite histories of tape lifecycle operations with recordings of varying size between them.",
 "The tests run each lifecycle function once or twice in a fixed order on a two-statement tape.",
 ["src/Tape.cpp", "src/XAD/Tape.hpp"],
 [("newRecording / clearAll / clearDerivatives / initDerivatives", "src/Tape.cpp")],
 ["derivatives after each sweep", "getNumVariables/Statements/Operations/getPosition"],
 [("recording state", "derivativesInitialized, max slot", "src/XAD/Tape.hpp SubRecording")])

prop("C09", "Partial rollback and tape reset compose to the full gradient",
 "Splitting a recording at any positions and rolling back segment by segment (with tape resets, derivative clears after a position, and re-recording of the discarded suffix in between) gives the same input adjoints as one full rollback of the same computation. "
 "Rolling back to a position leaves exactly the adjoints of the variables live at that position; statements before the position are unaffected by a reset, and statements recorded after a reset behave as if the discarded ones had never existed.",
 ["histories", "programs"],
 "All recordings, all increasing/decreasing sequences of positions (including the start, the end and repeated positions), any interleaving of resetTo, computeAdjointsTo, clearDerivativesAfter and re-recording.",
 "The tests use one fixed three-statement recording with one or two positions.",
 ["src/Tape.cpp", "src/XAD/Tape.hpp"],
 [("computeAdjointsTo / resetTo / clearDerivativesAfter / getPosition", "src/Tape.cpp")],
 ["derivatives after each partial sweep", "getPosition, getNumStatements, getNumOperations"])

prop("C10", "Checkpoint callbacks reproduce the unchecked gradient, once each",
 "Replacing any set of segments of a recording by checkpoint callbacks (with nested recordings, user-coded adjoints or external functions, also callbacks that create further checkpoints) gives the same input adjoints as recording everything, for every placement and number of segments. "
 "During a sweep each callback inside the rolled-back region is invoked exactly once, in reverse order of insertion, with the adjoints of its outputs available, and none outside the region is; callbacks handed over to the tape are destroyed exactly once, when the tape is, the others never.",
 ["programs", "histories", "configurations"],
 "All segmentations, nesting depths, callback kinds, numbers of inputs/outputs per segment, repeated sweeps with fresh recordings, both slot-management configurations.",
 "The tests use one two-level fixed computation; ordering, nesting and slot effects of many checkpoints with variables released inside nested recordings are histories they never produce.",
 ["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/CheckpointCallback.hpp", "samples/checkpointing", "samples/external_function"],
 [("callback dispatch in the sweep", "src/Tape.cpp computeAdjointsTo"), ("nested recording", "src/Tape.cpp newNestedRecording/foldSubrecording"), ("ownership", "src/Tape.cpp ~Tape")],
 ["callback log (order, count)", "input adjoints", "constructor/destructor counts of callbacks"],
 [("checkpoints", "position/callback pairs", "src/XAD/Tape.hpp checkpoints_")])

prop("C11", "API misuse raises the documented exception and changes nothing",
 "Activating a tape while another is active on the thread, sweeping before any derivative was set, accessing adjoints outside the registered range, popping or reading an empty callback stack, reading derivatives of variables without an active tape, and Jacobian/Hessian containers of mismatching size raise exactly the documented exception type, in every state of the tape. "
 "After such an exception the tape state is unchanged: every counter, adjoint and subsequent sweep is as if the failing call had not been made; calls that are not misuse never raise.",
 ["histories", "inputs"],
 "All tape states reachable by public calls x all documented misuse calls.",
 "The tests check the exception type from one state each and rarely look at the state afterwards.",
 ["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/Exceptions.hpp", "src/XAD/Literals.hpp", "src/XAD/Jacobian.hpp", "src/XAD/Hessian.hpp"],
 [("explicit checks before any mutation", "src/Tape.cpp derivative/computeAdjoints/incrementAdjoint/getAndResetOutputAdjoint/popCallback"), ("setActive", "src/XAD/Tape.hpp")],
 ["exception type", "counters, derivatives and results after the exception"])

prop("C12", "Tapes on different threads never influence each other",
 "Each thread has its own active tape: activating, recording, sweeping, clearing and destroying tapes concurrently on any number of threads gives on every thread exactly the single-threaded result, without data races, and a tape activated on one thread is never visible as active on another. "
 "A tape may be handed from one thread to another between uses, and several tapes (also of different scalar types) can be alternated on one thread by deactivating and activating.",
 ["schedules", "histories"],
 "All interleavings of tape operations on different threads, all hand-over points, all activation sequences.",
 "One existing test starts two threads without contention; schedules and activation histories are not explored and no race detector is run.",
 ["src/XAD/Tape.hpp", "src/Tape.cpp", "src/XAD/Macros.hpp", "src/XAD/Literals.hpp"],
 [("thread-local active tape pointer", "src/XAD/Tape.hpp active_tape_"), ("activation protocol", "src/XAD/Tape.hpp setActive/activate/deactivate")],
 ["getActive()/isActive() per thread", "ThreadSanitizer reports", "per-thread gradients"])

prop("C13", "Moving a tape transfers its complete state",
 "Move construction and move assignment of a tape, at any point of its life (empty, recording, seeded, swept, with checkpoints and owned callbacks, active or not), make the target behave exactly as the source would have behaved: same activation state, same counters, same adjoints, same results of further recording and sweeps. "
 "The moved-from tape can be destroyed or assigned to without effect on the target, and owned callbacks are still destroyed exactly once.",
 ["histories", "configurations"],
 "All tape states at the moment of the move, chains of moves, both slot-management configurations.",
 "The tests move an inactive one-statement tape once.",
 ["src/Tape.cpp", "src/XAD/ChunkContainer.hpp"],
 [("move constructor/assignment", "src/Tape.cpp Tape(Tape&&), operator=(Tape&&)"), ("container move", "src/XAD/ChunkContainer.hpp")],
 ["activation, counters and adjoints after the move", "sanitizer reports"])

prop("C14", "Tape storage is a faithful sequence at every size",
 "The tape's internal storage behaves like a plain growing/shrinking sequence for every history of append, bulk append, resize, clear, assign, reserve, move and indexed or iterator access, at every size including exact multiples of its chunk size, for trivially copyable and non-trivial element types, constructing and destroying every element exactly once. "
 "Recordings whose statements or operations cross one or more chunk boundaries therefore give the same adjoints, positions and partial rollbacks as small ones.",
 ["histories", "inputs"],
 "All operation histories and sizes relative to the chunk size; recordings beyond the default chunk of 8 million entries.",
 "The tests stop at a handful of sizes and never record more than one chunk on a tape.",
 ["src/XAD/ChunkContainer.hpp", "src/XAD/TapeContainer.hpp", "src/Tape.cpp"],
 [("chunk/index arithmetic", "src/XAD/ChunkContainer.hpp"), ("chunk-wise sweep", "src/Tape.cpp computeAdjointsToImpl")],
 ["content/size/capacity vs. a vector model", "constructor/destructor balance", "adjoints of big recordings"])

prop("C15", "Jacobian and Hessian drivers return exact matrices for any function",
 "For any function, any number of inputs and outputs (including one and zero) and any supported mode (forward and adjoint for Jacobians; forward-over-adjoint and forward-over-forward for Hessians), the vector and the iterator interface return the same exact matrix of first respectively second partial derivatives, with rows and columns in documented order, and the Hessian is symmetric up to rounding. "
 "The inputs' values are left unchanged, no tape is left active that was not active before, and calling a driver repeatedly or with a supplied tape gives the same result.",
 ["programs", "inputs"],
 "All functions R^n -> R^m (n, m small to 12, degenerate sizes included), evaluation points, container kinds, tape given or not, repeated calls.",
 "The tests use fixed 1..4-dimensional functions with expected matrices.",
 ["src/XAD/Jacobian.hpp", "src/XAD/Hessian.hpp"],
 [("computeJacobian/computeHessian loops", "src/XAD/Jacobian.hpp, src/XAD/Hessian.hpp")],
 ["returned matrices", "input values", "Tape::getActive() afterwards"])

prop("C16", "No memory error, undefined behaviour or leak in any valid use",
 "No sequence of valid public calls - in any AD mode, nesting, tape history, configuration and element type - reads or writes memory out of bounds or after release, invokes undefined behaviour, or leaves memory allocated after all library objects are destroyed. "
 "Re-using one tape for any number of recordings of bounded size (with clears in between) keeps its memory and its number of adjoint slots bounded.",
 ["histories", "programs", "configurations"],
 "All valid programs, lifecycle histories and configurations (slot reuse, assertions on/off, thread-local on).",
 "The tests are built without sanitizers, so out-of-bounds accesses and undefined shifts that happen to produce a plausible value pass.",
 ["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/ChunkContainer.hpp", "src/XAD/Literals.hpp", "src/XAD/Complex.hpp"],
 [("resize of the adjoint vector before use", "src/Tape.cpp initDerivatives"), ("chunk allocation", "src/XAD/ChunkContainer.hpp")],
 ["AddressSanitizer/LeakSanitizer/UBSan reports", "getMemory(), largest slot over iterations"])

prop("C17", "Slot reuse never changes results and bounds the adjoint count",
 "With slot reuse enabled, every program and tape history gives bit-for-bit the same values and adjoints as without, and the number of distinct adjoint slots used by a recording never exceeds the maximum number of simultaneously live registered variables. "
 "The reported reusable sections are disjoint, non-adjacent, ordered, exactly the released slots below the highest live one, so every released slot is reused before a new one is created.",
 ["histories", "configurations"],
 "All histories of variable lifetimes, recordings and resets; both configurations compared on the same history.",
 "The existing tests inspect scripted sequences of about ten variables.",
 ["src/Tape.cpp", "src/XAD/ReusableRange.hpp", "src/XAD/Tape.hpp"],
 [("interval list of free slots", "src/Tape.cpp registerVariableReuseSlots/unregisterVariableReuseSlots"), ("ReusableRange", "src/XAD/ReusableRange.hpp")],
 ["getSlot() of live variables", "getReusableSlotsString(), getNumReusableSlots(), getNumReusableSlotSections()", "digests of results in both builds"])

prop("C18", "Exactly the computations that depend on inputs are recorded",
 "Operations whose operands are all unregistered leave the tape untouched and their results unregistered with zero derivative, and every operation with at least one registered operand is recorded: its result becomes active, exactly the registered operands contribute, and values and derivatives do not depend on how many passive variables take part. "
 "With no active tape, passive arithmetic works and records nothing; deactivating and later re-activating a tape resumes recording without losing anything.",
 ["programs", "histories"],
 "All programs mixing active and passive operands in every operator position, and all activation histories.",
 "The tests look at tape counters for a few single operators.",
 ["src/XAD/Literals.hpp", "src/XAD/UnaryExpr.hpp", "src/XAD/BinaryExpr.hpp", "src/XAD/Expression.hpp", "src/XAD/Tape.hpp"],
 [("shouldRecord propagation", "src/XAD/*Expr.hpp shouldRecord, AReal::shouldRecord")],
 ["shouldRecord()", "getNumStatements/getNumOperations deltas", "derivatives"])

prop("C19", "AD types are drop-in for the standard library",
 "Numeric limits, hashing (equal values hash equally and as the underlying type), type traits (of the unqualified types), string conversion and stream input/output of AD types and expressions behave as for the underlying floating-point type for every value, and standard containers and algorithms over AD types (sort, accumulate, inner products, partial sums, min/max, unordered containers, rotations, swaps) give the same values as over plain numbers with derivatives that follow the element. "
 "Reading a value from a stream or resetting it changes the value only, never another variable.",
 ["inputs", "programs"],
 "All values and formats, all container/algorithm combinations over random data, forward and adjoint types.",
 "The tests check a few constants and traits only.",
 ["src/XAD/StdCompatibility.hpp", "src/XAD/Literals.hpp", "src/XAD/TypeTraits.hpp"],
 [("std specialisations", "src/XAD/StdCompatibility.hpp"), ("stream operators", "src/XAD/Literals.hpp")],
 ["values and derivatives after algorithms", "hash, strings, traits"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
