#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "A recording is a faithful transcript of the computation",
  "For every computation on variables derived from a context's independents, the context records each elementary operation exactly once, in execution order, with operands that refer only to independents, captured constants or earlier results of that same computation. "
  "Every stored intermediate value equals the value the computation produced, and independents and dependents are listed in the order they were marked, duplicates included. "
  "Reading, comparing, copying or converting variables never changes the recording.",
  ["programs", "inputs", "histories"],
  "every straight-line program over the arithmetic operators (all operand forms: variable, literal float on either side, compound assignment) and elementary functions, every sharing pattern of operands, every interleaving of marking with computing",
  "three fixed two-variable additions are checked; operand forms, sharing, constants on either side of the other operations, duplicate marks and queries in the middle of a recording are not sampled",
  ["src/acontext.rs", "src/afloat.rs", "src/operation.rs"],
  [("AFloat::from_op", "src/afloat.rs"), ("AContext::record / set_indep / set_dep", "src/acontext.rs")],
  ["AContext::operations/values/indeps/deps", "AContext::tape"],
  [dict(name="recording", meaning="independents, dependents, operations, values of one context", where="src/acontext.rs AContextInner")])

p("C02", "AD scalars compute the same values as plain floats",
  "Evaluating any program on AD scalars yields, at every intermediate step, the value the same program yields on the underlying float type (up to rounding of equivalent formulas), whether or not it is being recorded, whichever operand form is used, and for single, double and nested scalars. "
  "Comparisons, zero/one tests, sign and classification queries and numeric constants agree with the underlying float. "
  "Float operations the scalar does not support are refused by a panic and never answered with a wrong value.",
  ["programs", "inputs"],
  "every program over the float interface inside the domain of the functions used, every input, every operand form, recorded or not, f32/f64/nested",
  "value agreement is asserted for one arithmetic identity at one point and for no elementary function; min/max/abs_sub/log/hypot/powi and operand forms are unsampled",
  ["src/afloat.rs", "src/operation.rs", "src/scalar.rs"],
  [("zero_order_value", "src/operation.rs"), ("Float for AFloat, binary_op!, assign_op!", "src/afloat.rs")],
  ["AFloat::value", "PartialOrd/PartialEq/Float queries on AFloat"])

p("C03", "Forward-mode scalars carry the exact directional derivative",
  "For every program without absolute values, the first-order part of each AD scalar equals the derivative of the program at that point along the direction given by the seeds (up to rounding), for every seed including zero and negative ones, wherever that derivative exists. "
  "An absolute value contributes the exact increment of its argument's linearisation, |v+dv|-|v|. "
  "Nesting AD scalars yields second derivatives by the same rule.",
  ["programs", "inputs"],
  "every program over the elementary operations and derived functions, every evaluation point of differentiability, every direction",
  "unary rules are compared at x=0.5 with a one-sided inequality; no composition beyond one identity, no non-unit direction, no point outside [0,1), no nesting",
  ["src/operation.rs", "src/afloat.rs"],
  [("first_order_value", "src/operation.rs"), ("AFloat::from_op", "src/afloat.rs")],
  ["AFloat::dvalue"])

p("C04", "Replaying a tape at new inputs equals evaluating there",
  "After re-evaluating a tape at any input vector of the right length, its stored argument, result and all intermediate values are exactly those a fresh recording of the same branch-free program at that input would have. "
  "The outcome depends only on the last input, not on earlier replays, on derivative computations in between, or on other clones of the tape; a wrong-length input is refused and changes nothing.",
  ["programs", "inputs", "histories"],
  "every branch-free program, every sequence of replays, derivative sweeps and clones, every input in the domain",
  "one scalar program is replayed once, at one point",
  ["src/tape.rs", "src/operation.rs", "src/acontext.rs"],
  [("Tape::zero_order, x, y", "src/tape.rs"), ("Operation::zero_order", "src/operation.rs")],
  ["Tape::x/y/values after zero_order"])

p("C05", "Forward tape sweeps give the directional derivative at the stored point",
  "For every tape and every direction, the forward sweep returns one component per dependent, in order, equal to the directional derivative at the currently stored point (for tapes with absolute values: the exact increment of the piecewise linearisation), hence equal to forward-mode AD scalars on the same program. "
  "It does not modify the tape, and after a replay it refers to the new point.",
  ["programs", "inputs", "histories"],
  "every tape (including constants as dependents, dependents that are independents, repeated dependents, no operations), every direction, every sequence of replays",
  "unit direction on one-input one-output tapes only",
  ["src/tape.rs", "src/operation.rs"],
  [("Tape::first_order_forward", "src/tape.rs"), ("Operation::first_order", "src/operation.rs")],
  ["Tape::first_order_forward"])

p("C06", "Reverse sweeps are the transpose of forward sweeps",
  "For every tape without absolute values and all weight vectors, the reverse sweep returns the transposed Jacobian applied to the weights: it accumulates contributions over every use of a variable (repeated operands, repeated dependents, dependents that feed later dependents or are themselves independents) and satisfies <ybar, J dx> = <xbar, dx> with the forward sweep. "
  "It does not modify the tape; a tape containing an absolute value is refused rather than differentiated wrongly.",
  ["programs", "inputs"],
  "every absolute-value-free tape with any sharing pattern, any evaluation point where the partial derivatives are finite, any weights",
  "only scalar functions and the polar map are reversed; no repeated dependents, no dependent that feeds another, no non-unit weights",
  ["src/tape.rs", "src/operation.rs"],
  [("Tape::first_order_reverse", "src/tape.rs"), ("Operation::first_order_reverse", "src/operation.rs")],
  ["Tape::first_order_reverse"])

p("C07", "Jacobian drivers return the Jacobian, forward and reverse alike",
  "For every differentiable function and point, the forward driver and the reverse driver both return the m-by-n matrix whose entry (i,j) is the partial derivative of output i with respect to input j, for every m and n including zero and one. "
  "Both agree with each other and the forward driver refuses inputs of the wrong length.",
  ["programs", "inputs", "configurations"],
  "every function shape (tall, wide, square, empty), repeated or constant outputs, inputs that are unused or are outputs themselves",
  "one 2x2 function at one point",
  ["src/drivers/jacobian.rs", "src/tape.rs"],
  [("jacobian_forward / jacobian_reverse", "src/drivers/jacobian.rs")],
  ["drivers::jacobian_forward", "drivers::jacobian_reverse"])

p("C08", "The abs-normal form reproduces the piecewise linearisation",
  "For every function and point the abs-normal form has one switching variable per absolute value in evaluation order, a strictly lower triangular L, satisfies z = a + L|z| and b + Y|z| = 0 at the point, and for every increment dx the solution of z' = a + Z dx + L|z'|, dy = b + J dx + Y|z'| is exactly the increment of the piecewise linearisation. "
  "Z, L, J and Y are the partial Jacobians of the function with its absolute values treated as extra independents, and every way of obtaining them (products from either side, single rows, single columns) agrees.",
  ["programs", "inputs"],
  "every abs-factorable program (nested, shared, repeated absolute values, none at all), every point including kinks, every increment and matrix shape",
  "the halfpipe example (2 switching variables) and |x1|+x2 only; single rows/columns are never requested",
  ["src/drivers/abs_normal.rs", "src/tape.rs"],
  [("AbsNormalTape", "src/drivers/abs_normal.rs"), ("anf_matrix! Z/L/J/Y", "src/drivers/abs_normal.rs"), ("abs_normal", "src/drivers/abs_normal.rs")],
  ["drivers::abs_normal", "AbsNormalZ/L/J/Y mul_left/mul_right/row/column"])

p("C09", "The generalised Jacobian is the active affine piece",
  "For every function, point x and direction dx, the returned pair (H, g) is the affine piece of the piecewise linearisation at x that is active at x+dx: H*dx+g equals its increment, and H and g are obtained by fixing the sign of every switching variable to the one it has at x+dx. "
  "A switching variable that is exactly zero there is counted once in the multiplicity and takes its sign from the next sign bit (set: positive, clear or exhausted: negative), in evaluation order; without absolute values H is the Jacobian, g is zero and the multiplicity zero. "
  "Given a successor (H2, g2, k) the result is its composition: H2*H, g2+H2*g and the sum of multiplicities.",
  ["programs", "inputs"],
  "every abs-factorable program, point, direction, sign-bit string of any length, and successor",
  "the halfpipe function with the empty sign choice only; at most two kinks, never a set sign bit, only the identity successor",
  ["src/drivers/generalized_jacobian.rs", "src/drivers/abs_normal.rs"],
  [("generalized_jacobian_tape", "src/drivers/generalized_jacobian.rs"), ("bit_iter", "src/drivers/generalized_jacobian.rs")],
  ["drivers::generalized_jacobian", "drivers::generalized_jacobian_tape"])

p("C10", "Chain derivatives equal the composite's for any checkpoint count",
  "For every non-empty chain of functions, nested chains included, the generalised Jacobian of the chain equals the generalised Jacobian of the composed function taken as a whole (all kinks resolved to the negative side), multiplicity included. "
  "The result is the same for every admissible number of checkpoints and for the default.",
  ["programs", "inputs", "configurations"],
  "every chain length from one up, every nesting, every checkpoint count from two up, every point and direction",
  "one chain of length two with the default checkpoint count",
  ["src/drivers/generalized_jacobian.rs", "src/drivers/checkpointing.rs", "src/function.rs"],
  [("generalized_jacobian_chain", "src/drivers/generalized_jacobian.rs"), ("reverse_sequence", "src/drivers/checkpointing.rs"), ("FunctionChain::iter/nth", "src/function.rs")],
  ["drivers::generalized_jacobian_chain"])

p("C11", "Sequence reversal visits every state once, from last to first",
  "For every sequence length from zero up and every checkpoint count from two up, reversing a sequence calls the terminal function exactly once on the final state and then the reverse function exactly once on each earlier state in strictly descending order down to the initial one, each time with the result of the previous call. "
  "Every state handed out is the exact iterate of the initial value, the forward function is only ever applied to iterates before the last one, and fewer than two checkpoints are refused.",
  ["inputs", "configurations", "histories"],
  "every pair (number of steps, number of checkpoints >= 2)",
  "one pair (37, 9) with a commutative sum that cannot see order or duplication",
  ["src/drivers/checkpointing.rs"],
  [("reverse_sequence", "src/drivers/checkpointing.rs"), ("schedule", "src/drivers/checkpointing.rs")],
  ["closures and state type passed to drivers::reverse_sequence"],
  [dict(name="checkpoints", meaning="stack of stored states", where="src/drivers/checkpointing.rs reverse_sequence")])

p("C12", "Sequence reversal stays within its memory and recomputation budget",
  "While reversing, at most the given number of checkpoints is stored at any moment, beside the working copies in use (never more than one extra state while advancing). "
  "The number of forward evaluations is the minimum possible for that number of steps and checkpoints (the binomial optimum); in particular it equals the number of steps when all states fit.",
  ["inputs", "configurations"],
  "every pair (number of steps, number of checkpoints >= 2)",
  "tests pin five schedules for 100 states; they measure neither live states nor forward evaluations",
  ["src/drivers/checkpointing.rs"],
  [("schedule / next_checkpoint / find_t / beta", "src/drivers/checkpointing.rs"), ("reverse_sequence", "src/drivers/checkpointing.rs")],
  ["clone/drop of the state type and forward calls in drivers::reverse_sequence"])

p("C13", "Context identity and lifetime are exact",
  "Every context has an identifier no other context of the process ever has; looking an identifier up yields exactly the context that owns it while at least one handle is alive, and nothing before its creation or after its last handle is gone. "
  "A variable acts on the context it was recorded in and no other: after that context is gone it keeps computing correct values unrecorded, and combining it with a variable of, or marking it as a dependent of, a different context is refused without recording anything.",
  ["histories"],
  "every history of creating, looking up, dropping handles, recording, marking and mixing variables of several contexts",
  "one create-and-drop, and no use of lookups, of stale variables, of two contexts, or of a second handle",
  ["src/acontext.rs", "src/afloat.rs"],
  [("CONTEXT_MAP, NEXT_CONTEXT_ID, Drop for AContextInner", "src/acontext.rs"), ("context checks in AFloat::from_op and AContext::set_dep", "src/afloat.rs, src/acontext.rs")],
  ["AContext::from_cid/cid", "operations/values of every live context"],
  [dict(name="registry", meaning="id -> weak handle of the live contexts", where="src/acontext.rs CONTEXT_MAP")])

p("C14", "Concurrent recording is linearizable and snapshots are consistent",
  "When several threads record into the same or different contexts at once, every completed operation appears exactly once with its own operands, result and value, in an order consistent with each thread's program and with real time, as if the recording steps had happened one at a time. "
  "A tape taken meanwhile is a prefix of that history cut at one instant: every operand and dependent in it is an independent or an earlier result in the same tape. "
  "Creating, looking up and dropping contexts concurrently never deadlocks, never shares an identifier and never loses a live context.",
  ["schedules"],
  "every interleaving of the recording steps of any number of threads, snapshots, lookups and drops",
  "no test uses more than one thread on a context",
  ["src/acontext.rs", "src/afloat.rs"],
  [("Mutex<AContextInner>, CONTEXT_MAP mutex, atomic id counter", "src/acontext.rs")],
  ["tape/operations/values after and during concurrent runs"],
  hook="lock and atomic operations as scheduling points (the library is compiled against a stand-in for std; no change in /repo)")

p("C15", "Function objects and chains have exact dimensions and compose in order",
  "A function object reports the declared input and output dimensions, also when they are expressions over extra arguments, and its typed, recorded and plain-float evaluations agree; inputs or results of any other length are refused. "
  "A chain evaluates its members in the order they were appended, refuses a member whose input dimension differs from the preceding output dimension, takes its dimensions from its first and last member, and presents nested chains flattened in evaluation order (length, indexing and iteration agree).",
  ["programs", "configurations"],
  "every nesting of chains, every dimension sequence, every declared function form",
  "one flat chain of three functions on an all-ones input, whose sum is the same in any order; nesting and refusals are never exercised",
  ["src/function.rs", "src/macros.rs"],
  [("FunctionChain", "src/function.rs"), ("adv_fn! / adv_fn_obj!", "src/macros.rs"), ("Function::eval_float/tape", "src/function.rs")],
  ["Function::n/m/eval/eval_float/tape", "FunctionChain::len/nth/iter/append"])

p("C16", "The C++ and C interfaces mean what the Rust interface means",
  "Every operation of the C++ and C interfaces yields the value, and leaves in the recording the operation and operands, that the same expression yields on the Rust interface, including mixed operands with the plain number on the left. "
  "Every sequence of construction, copy, move, assignment (self-assignment included) and destruction of contexts and variables is free of memory errors and leaks, copies are independent of their originals, and a moved-from object can still be assigned and destroyed.",
  ["programs", "histories"],
  "every C++ program over contexts and variables: any operation on any operands, any history of copies, moves, assignments and destructions in any order",
  "the C++ tests are not run in the baseline and assert two values in total; ownership is never exercised",
  ["src/ffi.rs", "src/cxx/ADouble.cpp", "src/cxx/AContext.cpp", "include/adv/ADouble.hpp", "include/adv/AContext.hpp"],
  [("adv_* extern functions", "src/ffi.rs"), ("ADouble / AContext wrappers", "src/cxx")],
  ["values and recordings behind C++ handles; address and leak sanitizer"],
  [dict(name="handle ownership", meaning="which C++ object owns which boxed Rust object", where="src/cxx")])

p("C17", "Parallel drivers are independent of thread schedule",
  "The Jacobian drivers and the abs-normal matrix products return the same matrix for every size of the thread pool and every order in which the concurrently evaluated rows or columns start and finish, also when called from several threads at once. "
  "Each row or column is evaluated from its own direction only, and every column of the result comes from the evaluation for that column.",
  ["schedules", "configurations"],
  "every completion order of the parallel column/row evaluations, every pool size, concurrent callers",
  "tests use at most two columns on the default pool and never control completion order",
  ["src/drivers/jacobian.rs", "src/drivers/abs_normal.rs"],
  [("into_par_iter/reduce collecting (index, column)", "src/drivers/jacobian.rs, src/drivers/abs_normal.rs")],
  ["user function / user tape called by the drivers"])

p("C18", "Conversions keep value, derivative and identity",
  "Converting a plain number into an AD scalar gives that value with zero derivative and no recording; converting an AD scalar to a number or to another scalar type through the numeric-cast interface gives its full value, fractions and non-finite values included. "
  "The explicit cast between AD scalar types keeps value, derivative and the recorded identity, so later operations continue the same recording.",
  ["inputs"],
  "every value (integral, fractional, negative, huge, non-finite), every pair of scalar types, recorded or not",
  "no test converts an AD scalar",
  ["src/afloat.rs"],
  [("ToPrimitive/NumCast/From/cast for AFloat", "src/afloat.rs")],
  ["NumCast::from, ToPrimitive, AFloat::cast"])

p("C19", "Rounding error of values and derivatives stays within a few ulps",
  "Values and derivatives returned for a single elementary operation differ from the exact real result by no more than a few units in the last place of the float type.",
  ["inputs"],
  "every floating-point input of every elementary operation",
  "tests sample ten points per function with tolerance 1e-5",
  ["src/operation.rs"],
  [("first_order_value", "src/operation.rs")],
  ["AFloat::dvalue"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
