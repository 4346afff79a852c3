#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T="deterministic simulation with fault injection (seeded schedules, reference model, minimised replay)"
N={
"C01":"Seeded search over interleavings of 2-6 tasks sharing objects, switched at basic-block edges and memory accesses of library code; every result compared with an independent affine model and, where different or unmodelled, with the same operation alone in a new process. Also checks that the shared types are Send + Sync. Interleavings are sequentially consistent; big-integer kernels run uninterrupted.",
"C02":"Same world with stalls, spurious wake-ups, re-entrant and panicking call-backs and failing peers; deadlock is decided exactly (nobody can run), lack of progress by a bound of 10^8 steps per operation.",
"C03":"Each seed runs once to count allocations, then up to six times with allocation failures at existing places, together with panicking call-backs and rejected arguments; later and overlapping results must equal the model or lone execution, operands must keep their value. A mismatch that remains after removing the failures is not counted here.",
"C04":"Each history is repeated 5 times in one simulated process on a byte-exact heap; growth is confirmed by repeating the growing round under its recorded schedule 8 times. Bytes live are measured, not estimated.",
"C05":"Long random histories with object churn and address reuse; every outcome compared with the model and, on a difference, with the same operation on fresh operands in a new process (only a dependence on history is a violation).",
"C06":"Random histories of cloning, computing and updating in place; the value, encoding and printed form of every live handle are compared before and after each step of any task.",
"C07":"Encodings pass through a faulty channel or disk (flips, truncation, extension, swaps, other curves' bytes, garbage, boundary values); decoders must return an error or a valid value, in bounded steps and memory, and intact encodings must decode to what was encoded.",
"C08":"2-6 workers reduce a shared bag in orders and groupings decided by the schedule, with failing workers whose items are redone; every partial and final value compared with the affine model.",
"C09":"Simulated nodes with their own library instances, a lossy network and disks with torn and lost writes; agreement, equality with the model, and completion within a bounded number of events once faults stop.",
"C10":"Every object kind printed in several formats into sinks that fail, panic, stall or re-enter at seeded byte positions while other tasks run; result, received prefix and later text are checked.",
}
CLAIM=os.environ.get("CLAIM","C01 C02 C03 C04 C05 C06 C07 C08 C09 C10").split()
NA={
"P01":"A pure function of its operands: no schedule, fault, clock, I/O or history for a simulator to vary. Wrong arithmetic that all parties share is invisible to differential checks here; where histories reach it, C08 and C09 compare with the model.",
"P02":"A pure function of one element; nothing for a scheduler or fault to decide. The history- and schedule-dependent part (the shared precomputation) is C01, C03, C04 and C05.",
"P03":"A pure function of two points; the part that depends on order, grouping and history of representation is C05 and C08.",
"P04":"A pure function of a scalar and a point; the order- and grouping-dependent part is C08.",
"P05":"A pure function of one field element and fixed parameters; needs published vectors, not a simulator. Sharing and history are C01 and C05, agreement between parties C09.",
"P06":"A pure function of a point; representation dependence is C05, agreement across maps C09.",
"P07":"A statement about constants in the source; there is no execution to schedule.",
"P08":"A pure precondition check; that rejected operations leave no trace is C03.",
}
m=dict(version=1,setup_cmd="./build.sh",
 checks=[dict(property=k,quick_cmd=f"./check.sh {k} quick",thorough_cmd=f"./check.sh {k} thorough",technique=T,level="exploration",level_note=N[k]) for k in N if k in CLAIM],
 not_applicable=[dict(property=k,reason=v) for k,v in NA.items()]+[dict(property=k,reason="check not built yet") for k in N if k not in CLAIM],
 notes="No hooks in /repo: instrumentation is added by RUSTC_WRAPPER when the harness compiles /repo. Replay a violation with ./replay.sh FILE.")
json.dump(m,open(os.path.join(os.path.dirname(__file__),"..","MANIFEST.json"),"w"),indent=1)
