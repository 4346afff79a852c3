#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))
PF,QF="src/primefield/mod.rs","src/quadraticfield/mod.rs"
CUR=["src/weierstrass/curve.rs","src/montgomery/curve.rs","src/edwards/curve.rs"]
PNT=["src/weierstrass/point.rs","src/montgomery/point.rs","src/edwards/point.rs"]
SCA=["src/weierstrass/scalar.rs","src/montgomery/scalar.rs","src/edwards/scalar.rs"]
MAPS=["src/weierstrass/sswu.rs","src/weierstrass/svdw.rs","src/weierstrass/sswuab0.rs","src/montgomery/elligator2.rs","src/edwards/elligator2.rs"]
RM="src/instances/rational_maps.rs"
CACHE=("per-field square-root precomputation","lazily filled, shared by every clone of the field and every element, curve, point and map over it",PF+" and "+QF)
p("C01","Sharing objects between threads never changes a result",
  "Fields, field elements, curves, points, scalars and the hash-to-curve maps SSWU, SVDW and Montgomery Elligator 2 may be shared between threads, by reference or through clones (the two maps that contain a boxed user-defined map belong to one thread, but everything they use may be shared). Whatever the interleaving, each operation finishes and returns exactly what the same operation returns when it runs alone on freshly built objects: no interleaving makes it panic, hang or return a different value.",
  ["schedules","inputs"],"every interleaving of any number of threads using the same objects, for every operation of the public API and every operand",
  "The repository's tests are single-threaded and touch only generators; no test runs two operations on one object at the same time, and a handful of real threads would sample a handful of interleavings.",
  [PF,QF]+CUR+MAPS,
  [("AtomicRefCell around the lazily computed square-root constants",PF+" Fp::get_sqrt_precmp; "+QF+" Fp2::get_sqrt_precmp"),("Arc-shared, otherwise immutable parameters",PF+" struct Fp(Arc<Params>)")],
  [CACHE],["return values, panics and completion of every operation in every simulated thread"])
p("C02","Every started operation finishes",
  "Once every thread is given turns to run, every operation completes in a bounded number of its own steps: no schedule, stall, spurious wake-up, re-entrant call from a user-supplied map or output sink, or earlier failure in another thread can leave it deadlocked, spinning or waiting forever.",
  ["schedules","fault_sequences"],"every schedule in which runnable threads keep getting turns, with threads stalled at arbitrary points, spurious wake-ups, re-entrant user callbacks and failing peers",
  "Deadlock, lost wake-up and livelock need particular interleavings or a peer failing at a particular point; the tests never have two operations in flight.",
  [PF,QF]+MAPS,
  [("short-lived borrow of the square-root cache, released on every path",PF+" get_sqrt_precmp; "+QF+" get_sqrt_precmp"),("no lock held while user-supplied isogenies, rational maps or formatters run","src/weierstrass/sswuab0.rs, src/edwards/elligator2.rs")],
  [CACHE],["number of steps each operation takes; threads blocked when nothing can run"])
p("C03","A failed operation leaves no trace",
  "When an operation fails - it rejects its arguments, the modulus is unsupported, a user-supplied map panics, or memory runs out at any allocation inside it - only that operation fails. Every object involved, and every other operation before, during or after it in any thread, behaves exactly as if the failed call had never been made.",
  ["fault_sequences","schedules","inputs"],"every failing operation, every allocation or callback at which it can fail, in every interleaving with other operations",
  "No test makes an operation fail and then keeps using the objects; the point of failure (which allocation, which callback) is a quantifier tests do not have at all.",
  [PF,QF]+CUR+PNT+["src/weierstrass/sswuab0.rs","src/edwards/elligator2.rs","src/macros/mod.rs"],
  [("borrow guard released by unwinding; cache written only with a finished value",PF+" get_sqrt_precmp; "+QF+" get_sqrt_precmp"),("operands are borrowed, results are built aside","impl_op_ex! operators in "+PF),("argument checks panic before anything is modified","src/macros/mod.rs do_if_eq!")],
  [CACHE],["results of all operations that follow or overlap a failed one"])
p("C04","Dropping every handle gives all memory back",
  "When all objects obtained from the library have been dropped, in any order and from any thread, and whatever operations succeeded or failed on them before, the memory they used is released: repeating the same history of building, using and dropping objects does not make the process hold more and more memory.",
  ["histories","schedules","fault_sequences"],"every history of building, using, cloning, handing over, failing and dropping objects, in every interleaving",
  "Tests build a few objects once and never look at memory; ownership cycles form only on particular histories (for example after the first square root over particular primes).",
  [PF,QF]+CUR+["src/instances/mod.rs"],
  [("reference-counted parameters with no cycles",PF+" Fp, FpElt, SqrtPrecmp; "+QF+" Fp2"),("curves own their constants","src/*/curve.rs")],
  [CACHE],["bytes live on the simulated heap after everything is dropped, round after round"])
p("C05","Results depend only on operand values, not on history",
  "The outcome of an operation is determined by the values of its operands: it does not depend on what was computed, created, mutated, dropped or rejected before, on how an operand was obtained (which sequence of additions, multiplications, normalisations, maps or decodings, from which of several instances built from the same parameters), or on where objects lie in memory. It always equals the outcome for operands of the same value built afresh in a new process. (The text printed for a point shows its current projective coordinates and is exempt.)",
  ["histories","inputs","configurations"],"every sequence of operations over any mix of fields, curves and maps in one process, including object churn that reuses addresses",
  "Tests run one or two operations per object from a fresh start; hidden state (projective representation, caches, reused addresses) differs only after longer histories.",
  [PF,QF]+PNT+CUR+MAPS+[RM],
  [("results computed from operands and immutable parameters only",PF+", "+QF+", src/*/point.rs"),("representation-independent equality, encoding and maps","src/*/point.rs PartialEq/normalize/is_zero; "+RM+" push/pull"),("cache keyed by owning field object",PF+" Params.sqrt_precmp")],
  [CACHE,("projective representation","the same point has many coordinate tuples; which one depends on the history","src/*/point.rs ProyCoordinates")],["every result compared with a reference model and, on a difference, with the same operation alone in a new process"])
p("C06","Operands and clones are isolated from each other",
  "An operation never changes anything observable about its operands, and an in-place update (normalise, set to zero, set to one) of one handle is never visible through any other handle - clones, the objects it was computed from, objects computed from it, in this or any other thread.",
  ["histories","schedules"],"every history of computing, cloning, mutating in place and dropping handles, in every interleaving of the threads that hold them",
  "The tests never clone or mutate anything; aliasing shows only when a handle is updated after it was shared and another thread or a later step looks at the other one.",
  [PF,QF]+PNT,
  [("operators take references and build new values",PF+", "+QF+" impl_op_ex!"),("encode normalises a private copy","src/*/point.rs Encode::encode"),("clones own their integers; only immutable parameters are shared",PF+" FpElt")],
  [],["value, encoding and printed form of every live handle before and after each step"])
p("C07","Corrupted bytes never break a decoder",
  "Whatever happens to an encoding between the party that wrote it and the party that decodes it - flipped, lost, added, swapped or duplicated bytes, truncation, another curve's bytes, arbitrary garbage - decoding never panics or hangs. A point decoder returns either an error or a valid point of that curve, with the coordinates (and, in a compressed encoding of an Edwards point, the sign) sent, and these below the modulus; deserializing a field element or scalar returns either an error or a reduced element. An encoding that arrives intact decodes to the value that was encoded.",
  ["fault_sequences","inputs"],"every valid encoding of every point, field element and scalar on every curve with square-root support, subjected to every sequence of transport or storage faults",
  "Tests decode only intact encodings of generators; the failing inputs are damaged, off-curve, out-of-range or truncated strings and the point at infinity.",
  CUR+PNT,
  [("length, tag and range checks before a point is built","src/*/curve.rs Decode::decode"),("curve membership check","src/*/curve.rs is_on_curve")],
  [],["result of decode, membership and re-encoding of what it accepts"])
p("C08","Parallel accumulation is independent of order and grouping",
  "When workers combine a collection of points (or scalar multiples, field elements or scalars) in parallel, the final value is the one defined by the mathematics - the same for every assignment of items to workers, every order and every grouping of the partial results, however steps interleave, and even if partial results are abandoned and recomputed.",
  ["schedules","histories","fault_sequences"],"every reduction order and grouping produced by any schedule of any number of workers, with workers failing and their items being redone, including sums that pass through equal, opposite, small-order or identity partial results",
  "Grouping is decided by the schedule; unit tests add at most one pair, and never reach the doubling, inverse and identity cases through different orders.",
  PNT+SCA+[PF],
  [("complete addition formulas","src/weierstrass/point.rs core_add/core_doubling, src/montgomery/point.rs core_add, src/edwards/point.rs core_add"),("double-and-add over scalar bits","src/*/point.rs core_mul, src/*/scalar.rs iter_lr"),("exact modular arithmetic",PF)],
  [],["every partial and final value against the reference model"])
p("C09","Independent parties agree despite message faults and crashes",
  "Parties that build their own instances of a curve (or of a curve connected to it by a provided map) and exchange only encoded points and serialized field elements reach equal results - shared secrets, sums of contributions, share verifications, mapped messages - whatever messages are lost, duplicated, delayed or reordered and wherever parties crash and rebuild their objects from stored encodings. A value written by one party and read back by another, or by itself after a restart, is the same value, including the point at infinity and values with leading zero bytes.",
  ["fault_sequences","crash_points","schedules","configurations"],"every delivery order, loss, duplication and delay, every crash point with lost or torn unsynced writes, for every secret and every shipped or user-defined curve",
  "No test moves a value between two instances or rebuilds an object from stored bytes; each encoding test round-trips one point, the generator, in one instance.",
  CUR+PNT+SCA+["src/ops.rs",RM]+MAPS+["src/instances/mod.rs"],
  [("fixed-length encodings","src/*/point.rs encode, "+PF+" to_bytes_be/le"),("instances compare equal by parameters, not identity",PF+" PartialEq for Params"),("maps between models commute with the group operations",RM)],
  [],["agreement of the parties' results once faults stop, within a bounded number of simulated events; equality with the reference model"])
p("C10","Printing to a failing sink fails cleanly",
  "Printing any object into a sink that fails, panics, stalls or calls back into the library at any byte reports the sink's failure to the caller, never anything else; what reached the sink is a prefix of the full text. The object and all others stay usable, and printing again to a healthy sink gives the complete, unchanged text.",
  ["fault_sequences","schedules"],"every object kind and every byte position at which the sink fails, panics, stalls or re-enters, while other threads use the same objects",
  "No test prints anything, and an in-memory string never fails.",
  [PF,QF]+CUR+PNT+SCA+["src/instances/weier.rs","src/instances/mont.rs","src/instances/edw.rs"],
  [("Display implementations forward every write error","impl Display in the files above")],
  [],["bytes received by the sink and the result returned to the caller"])
p("C11","Use does not wear objects out",
  "However long, for whatever values, successfully or not and from however many threads objects are used, the memory held while they are alive stays within a bound set by which objects are alive and by their parameters. What an operation costs - steps executed and memory requested - does not keep growing with the number of operations that went before.",
  ["histories","schedules","fault_sequences"],"every history of operations over the same long-lived fields, curves, maps, points and scalars, with different values each time, including running totals, rejected arguments, corrupted encodings, failing call-backs and allocation failures",
  "Growth shows only over hundreds of operations with different values on one object, and no result is ever wrong.",
  [PF,QF]+SCA+PNT,
  [("every result is reduced (red, mod_floor)","src/primefield/mod.rs, src/quadraticfield/mod.rs, scalar.rs of each model"),("the only cache holds one entry per field","src/primefield/mod.rs, src/quadraticfield/mod.rs")],
  [],["bytes allocated and not freed","steps and allocations of each operation"])
# pure functions of their input: stated for completeness, not claimed (see DESIGN.md)
p("P01","Field arithmetic is exact","Addition, subtraction, multiplication, division, negation, inversion (with inverse of zero equal to zero) and exponentiation in the prime field and its quadratic extension satisfy the field laws for every element and every supported modulus.",["inputs"],"all elements of all supported fields","only generators' coordinates are ever used by tests",[PF,QF],[("reduction after each integer operation",PF+" red, inv_mod; "+QF+" inv_mod")])
p("P02","Square roots and residue tests are right","For every element of a supported field, the residue test agrees with the existence of a square root, the root of a residue squares back to it, and the sign function separates every non-zero element from its negative.",["inputs"],"all elements of all supported fields","no test calls sqrt directly",[PF,QF],[("per-congruence-class exponentiation",PF+" Sqrt; "+QF+" Sqrt, Sgn0")])
p("P03","The group law is complete and correct","For every pair of points, including equal, opposite, identity and small-order ones, the sum is the group sum, and equality and the identity test mean mathematical equality.",["inputs"],"all pairs of points of all supported curves","no test adds two points and checks the result",PNT,[("complete addition formulas","src/*/point.rs core_add")])
p("P04","Scalar multiplication is a homomorphism","For all integers j, k and every point of order dividing the group order, (j+k)P = jP + kP, (jk)P = j(kP), 0P is the identity and the order annihilates the generator.",["inputs"],"all integers and points","no test multiplies a point",PNT+SCA,[("double-and-add","src/*/point.rs core_mul")])
p("P05","Hash-to-curve maps conform to RFC 9380","Every map sends every field element, including the exceptional ones, to the curve point that RFC 9380 prescribes.",["inputs"],"all field elements for all maps and parameters","there are no tests for the maps",MAPS,[("straight-line formulas of RFC 9380","src/weierstrass/sswu.rs map and siblings")])
p("P06","Maps between curves are homomorphisms","Rational maps and isogenies preserve the group law for every point, and push followed by pull multiplies by the degree.",["inputs"],"all points","there are no tests for the maps",[RM],[("projective formulas and coefficient tables",RM)])
p("P07","Shipped curves have the published parameters","Every shipped curve has the parameters, generator, order and cofactor of its published specification.",["configurations"],"all shipped curves","tests compare generators only with themselves",["src/instances/weier.rs","src/instances/mont.rs","src/instances/edw.rs"],[("parameter tables","src/instances/*.rs")])
p("P08","Objects over different parameters never combine","An operation on operands over different fields, curves or group orders is always rejected; numbers given as text are read in the stated base and malformed text is rejected.",["inputs"],"all operand combinations and strings","no test combines or parses anything",[PF,QF]+PNT+SCA,[("do_if_eq! guards","src/macros/mod.rs")])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as o:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        o.write(json.dumps(x)+"\n")
