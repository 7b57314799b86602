"""Generates /verif/properties.jsonl (kept as code so that long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for (n, m, w) in (state or [])],
            mechanism=[dict(name=n, where=w) for (n, w) in mech],
            observe_at=observe, hook_needed=None)))
L="pcollections/_list.py"; S="pcollections/_set.py"; D="pcollections/_dict.py"; Z="pcollections/_lazy.py"
AS="pcollections/abc/_seq.py"; AT="pcollections/abc/_set.py"; AM="pcollections/abc/_map.py"; AC="pcollections/abc/_core.py"; U="pcollections/util/_core.py"

prop("C01","A plist goes through every update history exactly as a list would",
 "For every history of updates (set, delete, drop, pop, append, prepend, insert, extend, remove, sort, reverse, clear, slicing, +, * and transient round trips) a plist holds exactly the same objects in the same order as a Python list put through the corresponding edits, each update returning the new list (pop: the removed item and the new list). An index or value that makes the list edit fail makes the update fail with the same kind of exception (IndexError, ValueError), except drop, which returns the list unchanged.",
 ["histories","inputs"],"every update sequence from every reachable list (grown at either end, any length including trie-node boundaries), every index in and out of range, repeated and equal elements",
 "test_api checks one call of each method and test_random one seeded 100-step run with in-range, non-negative indices; the outcome depends on the history (offset of the first element, direction elements are shifted in, size) and on index sign, so single samples do not cover it",
 [L,AS],[("choice of shift direction in delete/insert and offset update","plist.delete, plist.insert in "+L),("append/prepend at offset","plist.append, plist.prepend in "+L),("derived updates (pop, remove, sort, reverse, extend, +, *)","PersistentSequence in "+AS)],
 ["list(p) after each update","returned value / exception"],[("offset","trie key of element 0; moves below zero on prepend and up on delete(0)","plist slot in "+L)])

prop("C02","Indexing, slicing, iterating and searching any sequence agree with list",
 "For every reachable plist, tlist, llist and tllist: len, iteration, reversed, in, count, index(value, start, stop), every integer index and every slice (any start, stop and step, negative or absent, zero step an error) give what a Python list with the same contents gives, and a slice is a collection of the same type.",
 ["histories","inputs"],"all reachable sequences (any offset history) x all indices and all start/stop/step combinations around the bounds",
 "the tests use three in-range positive slices, non-negative indices and lists that never had elements removed from or added to the front, so wrap-around, offset and empty-range cases are not reached",
 [L,AS,Z],[("index and slice normalisation relative to the offset","__getitem__ of plist and tlist in "+L),("iteration across the offset-zero seam of the trie","__iter__ of plist and tlist in "+L),("count/index/contains/reversed","PersistentSequence and TransientSequence in "+AS)],
 ["values and exceptions of the read operations"])

prop("C03","A persistent collection never changes once it has been created",
 "Once created, a plist, pset, pdict, llist or ldict never changes its contents, order, length, hash, equality or printed form (apart from the states of lazy values, which repr shows), whatever is later done with it, with the collections it was made from, or with collections (persistent or transient) and iterators derived from it, including operations that fail. Distinct collections derived from a common ancestor never affect one another.",
 ["histories","inputs"],"every version tree of operations up to a depth: all old versions are re-examined after every operation on them or on any of their descendants",
 "the tests look at an old version right after one derived update, in a linear history; mutation through shared structure shows only for particular sharing patterns, later operations and branches",
 [L,S,D,Z],[("path copying in the trie; transients work on their own copy-on-write trie","assoc/dissoc on PHAMT, THAMT(phamt) in "+L+", "+S+", "+D),("transient() hands out a fresh transient","transient methods")],
 ["contents, len, hash, repr of every earlier version"])

prop("C04","A pset goes through every update history exactly as a set would",
 "For every history of add, discard, remove, pop, addall, discardall, removeall and clear, over any hashable elements including distinct elements whose hashes are equal, a pset has exactly the members (and length) a Python set would have, each iterated exactly once and keeping the first-added of equal elements; remove, removeall and pop raise KeyError exactly when the set would. Elements are iterated in order of insertion.",
 ["histories","inputs"],"every update sequence over an element alphabet with several elements per hash value, equal-but-distinct elements and hash 0, -1, -2 and maximal hashes, from every reachable set",
 "test_random draws small non-negative ints, whose hashes never collide, so the collision chains (insert at end, remove head, middle and tail) are never executed; which link breaks depends on the insertion/removal order",
 [S,AT],[("hash index plus collision chain threaded through the element table","pset.add, pset.discard, pset.__contains__ in "+S)],
 ["membership of every alphabet element, iteration, len"],[("collision chain","elements of equal hash linked through their next field","pset/tset element table in "+S)])

prop("C05","Set algebra and set comparison agree with Python sets for all operand kinds",
 "For any operands drawn from pset, tset, set and frozenset, on either side, |, &, -, ^ and the named methods union, intersection, difference, symmetric_difference give a set with the mathematically correct members and ==, !=, <, <=, >, >=, isdisjoint, issubset and issuperset answer as for Python sets (empty sets included; == with a non-set is False, not an error). A pset operand on the left yields a pset, a tset a tset (with a built-in set on the left of an operator, the result has the right operand's type), no operand is changed, and a later edit of a mutable operand or result never shows in the other.",
 ["inputs"],"all ordered pairs (and triples for the n-ary methods) of subsets of a small universe with hash collisions, x operand kinds x operators",
 "the tests compare three fixed sets and a few operator calls; results of equal size to the operand, empty operands, reflected operators and mixed kinds are not covered",
 [AT,U],[("operators implemented through a transient copy","PersistentSet and TransientSet operators in "+AT),("three-way comparison from the size of the intersection","setcmp in "+U)],
 ["members and type of the result; booleans; operands afterwards"])

prop("C06","A pdict goes through every update history exactly as a dict would",
 "For every history of set, drop, delete, pop, popitem, setdefault, update, setall, dropall, deleteall and clear, over any hashable keys including distinct keys whose hashes are equal, a pdict holds exactly the key-value pairs a Python dict would, in the dict's insertion order and under the first-inserted of equal keys. Lookup, get and in answer as for that dict, and KeyError is raised exactly when documented (delete, deleteall, pop without default, popitem on empty, indexing).",
 ["histories","inputs"],"every update sequence over a key alphabet with several keys per hash value, equal-but-distinct keys, None and falsy keys and values, from every reachable dict",
 "test_random uses integer keys without hash collisions and checks equality only; chain updates (overwrite in the middle, remove head, re-add), ordering and batch operations depend on history",
 [D,AM],[("hash index plus collision chain of entries","pdict.set, pdict.drop, pdict.pop, pdict.__getitem__ in "+D),("batch updates via a transient","PersistentMapping in "+AM)],
 ["items in order, lookups of every alphabet key, returned values and exceptions"],[("collision chain","entries of equal key hash linked through their next field","pdict/tdict entry table in "+D)])

prop("C07","Mapping views always show the mapping they came from",
 "For every reachable pdict, ldict, tdict and tldict, keys(), items() and values() have the length, iteration order, reverse order and membership answers of the corresponding dict views (values of the lazy kinds as computed results), key and item views compare and combine as sets do, and views of a transient follow its later changes.",
 ["histories","inputs"],"all reachable mappings (with collisions, removals, re-insertions, None values) x every view operation and probe",
 "the tests only list keys and values of freshly built dicts; membership in items/values, reversed order, set operations on views, and views of transients are untested",
 [D,Z],[("view classes and their per-entry projection","pdict_keys/items/values, tdict_keys/items/values in "+D+"; ldict_*/tldict_* in "+Z)],
 ["len, iter, reversed, in, ==, &, | of the views"])

prop("C08","A tlist is a faithful mutable list",
 "For every history of in-place edits (item assignment and deletion by integer index, append, prepend, insert, extend, pop, remove, sort, reverse, clear, +=, *=) and of the non-mutating +, * and copy, a tlist (and tllist) holds exactly the same objects in the same order as a Python list put through the same edits, with the same return values and the same kind of exception on failure, also when it is its own argument.",
 ["histories","inputs"],"every edit sequence from every reachable tlist (offset history, trie-node boundary sizes), every index in and out of range, self-arguments",
 "the tests run append/prepend/insert/pop/setitem on one random history; the remaining methods are never called on a tlist, and shifts depend on history and index",
 [L,AS],[("in-place shifting in __delitem__ and insert","tlist in "+L),("derived in-place operations","TransientSequence in "+AS)],
 ["list(t), return value, exception after every step"])

prop("C09","A tset is a faithful mutable set",
 "For every history of add, discard, remove, pop, clear, update/addall, discardall, removeall, |=, &=, -=, ^= and the *_update methods (also with the set itself as argument), over elements with and without equal hashes, a tset has exactly the members a Python set would have, iterates each once, and raises KeyError exactly when the set would.",
 ["histories","inputs"],"every edit sequence over an element alphabet with hash collisions and equal-but-distinct elements, from every reachable tset, including self-arguments",
 "test_random covers add/discard/remove of small ints only: no collisions, no in-place operators, no self-arguments",
 [S,AT],[("in-place chain maintenance","tset.add, tset.discard in "+S),("in-place operators","TransientSet in "+AT)],
 ["membership of every alphabet element, iteration, len, exceptions"])

prop("C10","A tdict is a faithful mutable dict",
 "For every history of item assignment and deletion, pop, popitem, setdefault, update, clear and copy, over keys with and without equal hashes, a tdict (and tldict) holds exactly the pairs a Python dict would, in insertion order and under the first-inserted of equal keys, with the same lookups, return values and KeyErrors (popitem removes some existing pair and returns it).",
 ["histories","inputs"],"every edit sequence over a key alphabet with hash collisions, equal-but-distinct keys and None values, from every reachable tdict",
 "test_random covers assignment and pop on collision-free integer keys in one history; chain edits, popitem, setdefault, update and clear on transients are untested",
 [D,AM,Z],[("in-place chain maintenance","tdict.__setitem__, __delitem__, pop in "+D),("derived in-place operations","TransientMapping in "+AM)],
 ["items in order, lookups, return values and exceptions"])

prop("C11","Transients and the persistents they come from or yield are isolated",
 "A transient made from a persistent collection (transient() or the constructor) starts equal to it; a persistent made from a transient (persistent() or the constructor), a copy of a transient, and the raw views of a lazy transient equal it at that moment and are of the right kind. From then on, editing any one of these objects, in any interleaving with further conversions, is never visible through any other, and no edit is ever lost.",
 ["histories"],"every interleaving of conversions and edits over two persistent and two transient handles, up to a depth, from empty, small, colliding and multi-node collections",
 "the tests edit a single transient of a single persistent once; aliasing depends on the interleaving of edits with persistent()/transient()/copy() (e.g. a returned original that no longer matches, nodes shared after a snapshot)",
 [L,S,D,Z],[("cached original returned by persistent() until the first edit","_orig handling in tlist, tset, tdict, tllist, tldict"),("copy-on-write ownership of trie nodes","THAMT(phamt) and THAMT.persistent() uses")],
 ["contents of all handles after each step; type of conversions"],[("original","the persistent a transient was made from, valid only while unedited","transient objects")])

prop("C12","Sequence equality and ordering are those of list",
 "plist, llist, tlist and tllist compare with each other and with list by ==, !=, <, <=, >, >= exactly as lists of the same elements do, for arbitrary elements: equality never requires elements to be orderable, and ordering is decided by the first position that differs and then by length. A sequence never equals a tuple, string or other non-list type, and ordering against such a type is a TypeError.",
 ["inputs"],"all pairs of sequences up to a length over an alphabet of orderable, unorderable, partially ordered, equal-but-distinct and self-unequal elements x all sequence kinds on both sides",
 "the tests compare integer lists only, for which ordering-based and equality-based comparison coincide",
 [AS,U],[("element-wise comparison","seqcmp in "+U+", __eq__/__lt__... in "+AS)],
 ["result or exception of the comparison"])

prop("C13","Equal collections have equal hashes and hashes never change",
 "Any two hashable collections that compare equal (plist/llist; pset/frozenset; pdict/ldict; with lazy values counted as their results) have equal hashes whatever histories produced them, and the hash of a collection is the same every time it is asked for, including before and after other collections are derived from it. Hence each can be found in a dict or set under any equal key.",
 ["histories","inputs"],"all pairs of reachable collections of the same content built by different histories, hashed at different moments, lazy values evaluated or not",
 "the tests only check that hash() returns an int; agreement between equal objects of different histories, kinds and evaluation states and cache staleness cannot be sampled",
 [L,S,D,Z,AS,AT,AM],[("cached hash per object","__hash__ in plist, pset, pdict"),("content hash","__hash__ in the abc classes")],
 ["hash(x) == hash(y) whenever x == y; dict lookup"],[("hash cache","filled on first use; must never carry over to a derived object","persistent objects")])

prop("C14","Updates that change nothing and empty results return the canonical object",
 "Adding a present element, discarding or dropping an absent one, setting a position or key to the object already there, union/addall/discardall/difference/intersection with no effect, setdefault on a present key, adding an empty list, copy() and (for a non-empty collection) a transient round trip without edits all return the very same persistent object; an update that does change something never returns the original. clear() and building or converting from something empty return the type's single empty instance, which always stays empty.",
 ["histories","inputs"],"every reachable collection x every no-op update; every empty-producing update, at every point of a history",
 "the tests assert identity for a handful of fresh objects; returning a stale original after real edits, or missing a real change that preserves the size, needs histories",
 [L,S,D,Z,AT,AM],[("identity short-cuts","set/add/discard/drop, union/difference/intersection, persistent() on unedited transients")],
 ["is-identity of the result; contents of type.empty"])

prop("C15","A lazy value is computed at most once and failures are not cached",
 "A lazy object calls its function, with exactly the given arguments, only when first requested; after the first successful call every later request returns that same object without calling again and is_ready() is true from then on and not before. If the function raises an Exception the request raises LazyError, nothing is cached, is_ready() stays false and a later request tries again (other exceptions, such as KeyboardInterrupt, pass unchanged, with the same effect; the text of a LazyError names the function and shows its arguments, and its traceback shows the function's own exception); this also holds when computations request other lazy objects, or themselves, while running.",
 ["histories","fault_sequences"],"every sequence of requests and success/failure answers of the function up to a length, and every small dependency graph of lazy objects (shared, nested, self-referential), requested in every order",
 "the tests request two always-succeeding lazies in one order; failure-then-retry, None or false results, nesting and re-entrancy are not exercised",
 [Z],[("value stored before the pending computation is dropped","lazy.__call__ in "+Z)],
 ["number of function calls, returned object, is_ready(), exception type"],[("pending computation","present until a call succeeds","lazy object in "+Z)])

prop("C16","Concurrent requests for a lazy value compute it exactly once",
 "When several threads request the same lazy value, directly or through shared lazy collections, in any interleaving, its function is successfully run exactly once, every thread obtains that one result (never a placeholder), is_ready() is never true before the result is obtainable, and no thread blocks forever (unless the functions themselves request one another in a cycle from different threads). If the function raises in one thread, that thread gets LazyError and the others still compute or receive a proper result.",
 ["schedules","fault_sequences"],"all thread interleavings (opcode granularity) of 2 and 3 threads up to a preemption bound, with succeeding, failing-once and nested computations",
 "the tests are single-threaded",
 [Z],[("check, lock, re-check, store value then clear pending","lazy.__call__ in "+Z)],
 ["function call count, per-thread results, blocked threads"])

prop("C17","Lazy values are evaluated only when requested",
 "Building, converting between, editing, slicing, snapshotting, measuring and printing (str, repr) llist and ldict collections (and editing their transients) evaluates no lazy value, other than sort, reverse, repetition and operations that read the items of one collection into another (extend, + or update with a lazy argument); and reading one item evaluates exactly that item and no other; full iteration, comparison and hashing evaluate each at most once. is_lazy, is_ready, getlazy and holdlazy (as_plist, as_pdict) report and expose the unevaluated objects without evaluating them, and ready_all evaluates all of them. holdlazy runs the __holdlazy__ method of any object that has one and passes on what it returns or raises; an object without one comes back itself, or gives TypeError if require_lazy is true.",
 ["histories","inputs"],"every lazy collection with every subset of lazy, already-evaluated and plain items x every operation sequence up to a depth, with evaluation counters",
 "test_lazy looks at two fixed collections and a few reads; which operations preserve pending values depends on the operation, position and construction route",
 [Z,L,D],[("raw storage of lazy objects and dereference on read only","llist, tllist, ldict, tldict in "+Z),("type-preserving constructors of derived objects","plist/pdict updates in "+L+", "+D)],
 ["evaluation counters of every lazy after each operation"])

prop("C18","Apart from laziness, llist and ldict are plist and pdict of the results",
 "Every read of an llist, ldict, tllist or tldict (items, iteration, views, get, pop, popitem, count, index, membership, comparison, hash) gives what the plain collection holding the already computed results gives and never hands out a lazy object of the collection, except through getlazy, holdlazy, as_plist, as_pdict and as_tdict. Updates, slices, deletions, conversions to transient and back and batch operations on a lazy collection return a lazy collection of the corresponding kind.",
 ["histories","inputs"],"every lazy collection with every subset of lazy items x every read and update, compared with the plain collection of the same results under the same history",
 "the tests check item access and list() of two-element collections; each of the other operations can leak a lazy object or fall back to the plain type in particular positions (ends, last element, batch routes)",
 [Z,L,D,AS,AM],[("dereferencing overrides","llist/ldict/tllist/tldict methods in "+Z),("result type chosen from the receiver","_new/clear/type(self) uses in "+L+", "+D+", abc")],
 ["values (deeply free of lazy objects), types of results"])

prop("C19","Constructors convert between all collection kinds without loss",
 "plist, tlist, llist, tllist, pset, tset, pdict, tdict, ldict and tldict accept any iterable (mapping kinds: any mapping, that is anything with keys(), or iterable of pairs, plus keywords of any name) or any collection of this library and return a collection of exactly the requested kind whose contents equal what list, set or dict build from the same argument. The argument is not changed, later changes to a mutable argument are not visible in the result, and wrong arguments raise TypeError.",
 ["inputs","histories"],"all source kinds (native, persistent, transient, lazy, generators, views; with any history) x all target kinds x contents up to a size",
 "the tests build from ranges, zips and a few literals; constructor fast paths depend on the source kind and its internal state (offset, collisions, edited transient, emptiness)",
 [L,S,D,Z],[("constructor fast paths per argument type","__new__ of plist, tlist, pset, tset, pdict, tdict")],
 ["type and contents of the result; source afterwards"])

prop("C20","Pickling and copying reproduce every collection",
 "pickle (every protocol), copy.copy and copy.deepcopy of any reachable collection of any of the ten kinds yield a collection of the same kind that is equal to it, with equal hash if hashable and the same iteration order, fully functional and independent of the original; empty persistent collections come back as the type's empty instance, and objects that occur several times within what is deep-copied or pickled (also in cycles through other objects) are again one object each. __json__ of a sequence or mapping gives the JSON text of the list or dict with the same contents.",
 ["histories","inputs"],"all reachable collections (any history, offsets, hash collisions, lazy items evaluated or not) x all pickle protocols and copy functions, followed by updates of the copy",
 "no test pickles or copies anything",
 [AS,AT,AM],[("reconstruction from the element list","__reduce__ in the abc classes")],
 ["type, equality, order, later updates of the copy"])

prop("C21","An operation that fails part-way leaves no trace in the collections involved",
 "If user code called during an operation (hash, equality or ordering of an element, an iterator, a sort key, a lazy function) raises, the exception reaches the caller (a lazy function's as LazyError), every persistent collection involved is unchanged, and a transient is either unchanged or, for operations that consume several items, changed by exactly the items before the failure. All collections stay fully usable afterwards.",
 ["fault_sequences","crash_points"],"every operation x every position k at which the k-th callback raises (Exception and BaseException) and, for persistents, an asynchronous exception at every bytecode of the library",
 "the tests never make user code raise; half-linked chains, shifted elements or lost counters show only for a failure at a particular callback",
 [L,S,D,AS,AT,AM,Z],[("all callbacks happen before the first write of an element","set/add/discard/insert implementations"),("updates of persistents go to a private transient","batch methods in the abc classes")],
 ["contents and a follow-up operation battery after the failure"])

prop("C22","Persistent collections can be used from several threads without locking",
 "When several threads concurrently read, hash, iterate, derive updates from, or make transients of the same persistent collection, in any interleaving, each operation returns what it would return if it ran alone and the shared collection is unchanged.",
 ["schedules"],"all interleavings (opcode granularity) of pairs of operations on one shared plist, pset, pdict, llist or ldict up to a preemption bound",
 "the tests are single-threaded",
 [L,S,D,AS,AT,AM],[("no state shared between operations except the idempotent hash cache","__hash__ caches; absence of module-level scratch state")],
 ["results per thread compared with sequential results"])

prop("C23","Iterators over a changing transient stop with an error, never with stale data",
 "After the membership of a tdict, tldict or tset changes (insert, delete, pop, popitem, update, clear, in-place operators), continuing an iteration over it or its views that has begun to yield elements never yields another one: it raises RuntimeError (or merely ends, if every element had been yielded already); replacing the value of an existing key does not disturb an iteration, which then yields every key once. An iteration over a tlist or tllist that is edited meanwhile raises, ends, or yields only items that are in the list at that moment. An iteration over any persistent collection is never affected by anything.",
 ["histories"],"every interleaving of iterator steps and edits up to a depth, over every iterator kind, including edits that empty and refill the collection",
 "no test edits a collection while iterating over it",
 [D,S],[("version counter compared on every step","tdict.__iter__ and _version in "+D),("trie iterator invalidation","THAMT iteration in "+S)],
 ["values or exception of each next() call"],[("version","advances on every key change","tdict in "+D)])

prop("C24","Mutation syntax on persistent collections is rejected or rebinds",
 "On every persistent collection, assigning or deleting items or slices and assigning attributes raises TypeError and changes nothing, and augmented assignment (+=, *=, |=, &=, -=, ^=) rebinds the name to a new collection while the old object, and every alias of it, stays as it was. Nothing in a persistent collection's public interface returns None in place of the updated collection.",
 ["inputs","histories"],"all persistent kinds and reachable contents x all mutation statements and public update methods",
 "test_immutable tries two or three statements on one fixed object per type and does not look at the object afterwards",
 [AC,L,S,D],[("raising setters","Persistent in "+AC)],
 ["exception type; aliases afterwards"])

prop("C25","Conversions are constant-time and updates touch only a logarithmic part",
 "Making a transient from a persistent collection, making a persistent from a transient without or after a single edit, and single-element updates (set, append, prepend, add, discard; dropping a key, or either end of a list) of a persistent collection, its len and single lookups do an amount of work and allocate an amount of memory bounded independently of (or logarithmically in) the size of the collection, because the versions share structure.",
 ["inputs","histories"],"collections of every size in a range that crosses several trie levels, with the work of each operation counted in executed library steps and allocated bytes",
 "the tests check results, not cost; a copy-everything implementation passes them",
 [L,S,D],[("wrapping the trie instead of copying it","transient/persistent methods; assoc/dissoc")],
 ["executed bytecode/C-call counts and allocated bytes per operation"])

prop("C26","The abstract base classes give correct default behaviour to any implementation",
 "A user-defined class that derives from one of the abstract collection classes (persistent or transient sequence, set, mapping) and implements only the documented required methods gets default versions of all other documented methods that behave as those of the library's own collection of that kind, whatever its internal representation.",
 ["programs","histories"],"minimal implementations of all six abstract classes over plain tuples/dicts x every default method x all small contents and arguments",
 "the test suite only uses the built-in collections, which override many defaults and share the internal attribute names that defaults might wrongly rely on",
 [AS,AT,AM,AC],[("mixin methods written against the required methods only","PersistentSequence ... TransientMapping in pcollections/abc")],
 ["results of default methods compared with list/set/dict"])

prop("C27","Comparison and printing helpers keep their documented contracts",
 "setcmp answers -1, 0, 1 for proper subset, equal, proper superset, None for disjoint non-empty sets and Ellipsis otherwise; seqcmp answers -1 or 1 by the first position that differs (NaN if neither element is less) and then by length, 0 if nothing differs; both reject other types with TypeError. seqstr joins the printed elements (of a mapping: \"key: value\") exactly; with maxlen it is complete when that fits and otherwise the longest prefix of the elements that fits together with a final ellipsis, never longer than maxlen. str() of a collection is that with a limit of 60 (waiting or ready lazy values of llist, ldict and tldict shown as <lazy>) and repr() shows everything in order, both between [| |] or {| |} for persistent and [< >] or {< >} for transient collections.",
 ["inputs"],"all pairs of small sets and sequences of all kinds; all sequences of element widths up to a bound x all maxlen values",
 "no test calls the helpers or str()",
 [U,AS,AT,AM,Z],[("setcmp, seqcmp, seqstr",U),("__str__/__repr__","abc classes and "+Z)],
 ["returned codes and strings"])

prop("C28","Collections keep alive only what they contain",
 "A persistent or transient collection keeps alive only the objects it contains: once every other reference is gone, elements, keys, values and lazy objects that were replaced, removed, dropped, popped or cleared from it (or that were only in versions, transients, views and iterators that no longer exist), and equal duplicates that were not stored, can be garbage-collected, whatever history of updates, conversions and failed operations led to it. A computed lazy object has released its function and arguments, and requests that fail, however often repeated, leave nothing behind.",
 ["histories"],"all update, conversion, read and failure histories up to a depth from all kinds of starts, every operation repeated, and all ways of shrinking large collections, with the liveness of every object that went through them observed afterwards",
 "no test looks at object lifetimes; a reference forgotten in a trie slot, a hash chain, a cache or an exception shows only after a particular history",
 [L,S,D,Z,AS,AT,AM],[("slots removed from the tries together with their index entries","set/delete/discard/drop implementations"),("function and arguments dropped when the value is known","lazy.__call__ in "+Z)],
 ["liveness through weak references; traced memory after repetition"])

prop("C29","Operations may be nested through the user code they call",
 "If user code called during an operation on a persistent collection (hash, == or ordering of an element, an iterator, a sort key, the function of a lazy value) itself reads, hashes, iterates, compares or derives updates or transients from the same collection, the outer and the inner operation each give what they give alone, and the collection is unchanged. If user code called during an edit of a transient reads that transient, it sees consistent contents (length, iteration, lookups and conversions agree): those before the edit, or those after a whole number of its items; the outcome of the edit is not affected. When an edit of a transient lets go of an item whose finalizer reads or edits that transient, the finalizer sees, and the transient ends up with, what it would with list, set or dict.",
 ["schedules","histories"],"every operation x every call-back it makes x every operation run inside that call-back (and a third inside that one's), for all kinds; every edit of a transient x every item it lets go of x what that one's finalizer does",
 "the tests use elements whose hash and == do nothing; shared scratch state, half-made changes and caches filled in between show only when an operation runs inside another at a particular call-back",
 [L,S,D,Z,AS,AT,AM],[("no state shared between operations except the idempotent hash cache","__hash__ caches"),("all look-ups of an edit happen before its writes","tset.add/discard, tdict.__setitem__/__delitem__")],
 ["results of all nested operations compared with the results alone; consistency of what is read in between"])

prop("C30","Arguments are taken and refused as list, set and dict take and refuse them",
 "Every kind of object that Python's list, set and dict take as an argument is taken with the same effect: positions and slice bounds may be any integer object (bool, subclasses of int, anything with __index__), and constructors, extend, update, addall, setall, dropall, union, difference and their like take any iterable (generators, objects with only __iter__ or only __getitem__, objects whose __len__ lies, strings, views, all built-in and library collections) and any mapping (anything with keys(), as for dict) or iterable of pairs. What they refuse is refused with the same type of exception (floats, strings and None as positions: TypeError; non-iterables, unhashable elements and keys, wrong numbers of arguments: TypeError; an item that is no pair: as dict.update; an exception raised by the argument itself: passed on), leaving a persistent collection unchanged and a transient with the items before the refused one.",
 ["inputs","histories"],"every operation that takes a position, an iterable, a mapping, a key or flags x dozens of unusual arguments of each sort, for all ten kinds and along histories of such operations",
 "the tests pass ints, lists and dicts only",
 [L,S,D,Z,AS,AT,AM],[("positions normalised before use","__getitem__/set/insert/delete/drop/pop/index in _list.py and abc/_seq.py"),("iterables consumed once, pairs unpacked","extend/update/addall/setall in all files")],
 ["outcome, exception type and the contents afterwards compared with list, set and dict"])

prop("C31","The language and the standard library take the collections for their kind",
 "The persistent, transient and lazy sequences, sets and mappings (and subclasses of them) are the kinds of collection they claim to be: unpacking, star arguments, match statements, loops, comprehensions, formatting, truth, membership, operators and in-place operators with built-in collections, built-in functions and constructors, and the standard library's tools that work through the sequence, set or mapping interface (itertools, functools, operator, collections, heapq, bisect, random, statistics, string, eval/exec with a mapping as namespace, ...) give with a collection exactly what they give with the list, set or dict of the same contents, exceptions included; in-place users (shuffle, insort, ChainMap, augmented item assignment, exec) have the same effect on a transient as on the built-in kind; and no use changes a persistent collection.",
 ["programs","histories"],"every use in a menu of some 270, in all states reachable by short edit histories, for ten kinds and their subclasses",
 "the tests call the methods of the collections and little else; which special methods and which behaviours of them the interpreter and the library rely on shows only in their use",
 [L,S,D,Z,AS,AT,AM],[("protocol methods and ABC bases","__iter__/__len__/__contains__/__getitem__/__reversed__/keys/get/setdefault/pop/... in all classes")],
 ["results and contents compared with list, set and dict"])

prop("C32","Lazy values survive requests that are interrupted at any point",
 "If an asynchronous exception (such as the KeyboardInterrupt of a signal handler) stops a request of a lazy value, made directly or through a list or dict in any way, at any point at which the interpreter can deliver one, the exception does no harm beyond the request: every lazy value involved can still be requested by every thread (no lock stays held), a value that is ready is never computed again, one that is not ready is computed by the next request, all later requests give the one object its function returned, and the collections work on.",
 ["crash_points","fault_sequences"],"every way of requesting x every point of the library at which an asynchronous exception can arrive x every such point of the request after that",
 "no test interrupts anything; whether a lock, a half-set value or a flag is left behind depends on the one call after which the exception arrives",
 [Z],[("the value is set before it counts as ready, and the lock is held by a with statement","lazy.__call__ in "+Z)],
 ["requests by another thread and by the same one after the interrupt; number of runs; identity of the values"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
