IDS = ['C%02d' % i for i in range(1, 20)]
PROVED = set(IDS) - {'C17'}
LEVELS = {i: 'proof' if i in PROVED else 'other' for i in IDS}
TECH = {i: 'contract-based deductive verification (Verus) of the functions extracted from /repo/src on every run; bounded oracle supplies failing inputs' for i in IDS}
_P = ('Verus discharges every obligation of every function of the crate (Debug/Display impls aside), extracted from /repo/src on this run, for all inputs and all iterations; the property is the postconditions of the public functions over the inductive invariant winv. '
      'Assumed: the shim contracts for std and parking_lot, guards as references threaded through a ghost heap (one thread, no waiting), pointer beside its guard, pinned downcasts, the preconditions on callers listed in the evidence. ')
_B = 'Panics, index bounds, unchecked accesses, arithmetic and the type of every downcast are discharged obligations; validity of the raw pointers kept beside a guard is assumed, and "dropped exactly once" rests on ownership (every run checks that no file uses a primitive that leaks or duplicates a value, and what the storages hold after each call is a postcondition) and on a bounded search with drop counters (labelled bounded).'
NOTES = {i: _P + ('' if i in PROVED else _B) for i in IDS}
NA = {
 'C20': 'whether two live exclusive borrows may overlap is decided by the lifetimes in the signatures of Queryable/World::query, not by a pre- or postcondition of any call; the crate breaks it (known-findings.txt) and a repair needs another API',
 'C21': 'the verifier in reach (Verus) would need its own lock and permission types in place of parking_lot to say anything about interleavings or deadlock; contracts here treat a guard as an exclusive or shared reference and do not model waiting',
}
