import json,subprocess,os
D = r'''# Model checking pecl-teds

## 1. What is checked, and how

pecl-teds is a PHP extension: ~20 collection classes (five sequence classes over four storage layouts, hash/tree/sorted-vector
maps and sets, heaps, pair lists, immutable and lazy collections) and a set of functions (`stable_compare`, `strict_hash`,
`binary_search`, iterable helpers). It is single threaded and writes no files, so there are no thread schedules or crash points. What
varies is the **history of operations** applied to an object, the **internal representation** reached by that history (capacity, ring
offset, element width, hash slots and chains, tree shape and colours, elements already cached), the **positions of open iterators**,
the **user code that runs in the middle of an operation** (callbacks, destructors, error handlers, source iterators,
`jsonSerialize`, ...) and the **point at which that user code throws**. These are the dimensions the checks enumerate.

All 25 properties are decided by the same family: exhaustive enumeration of executions within stated bounds, **directly on the
real code**. The extension is compiled from `/repo`'s working tree (build.py logic in `vc.py`, never inside `/repo`), loaded in PHP,
and every explored history is executed on it in lock step with a deliberately plain reference model written in PHP (arrays, linear
search, `usort` with an independent definition of the documented order in `lib/model.php`). Since every model transition *is* an
implementation transition, conformance of model and implementation is not a separate step: a trace counts as validated only when
every intermediate return value, exception class, count and all read views agreed (`traces_validated_against_impl`).

### Exploration engines (`lib/core.php`)
* `Explorer::bfs` - explicit-state search. The state key is the model state plus the *implementation's* observable representation
  (capacity, tree shape and colours from `debugGetTreeRepresentation`, heap layout from `values()`, shadow of the ring offset/slot
  layout/storage width). Objects cannot be snapshotted, so a state is re-created by replaying its shortest history; the replay must
  reproduce the same key (otherwise a violation: nondeterminism). Runs to closure (fixed point) of the bounded space. At the end of
  **every** transition, also one that leads to a state already seen, a *distinguishing suffix* (`tail`) is executed - fill the
  reported capacity, compare, drain from both ends - so that hidden corruption which the key cannot see is not merged away.
* `Explorer::dfs` - every sequence of operations to a depth, no deduplication (no abstraction to trust).
* `Cases::run` - enumeration of every tuple of a product space (content x way of constructing x operation x second operation /
  callback / fault point ...).
* Data independence: element-agnostic code (Vector, Deque, MutableIterable, tree/sorted shape) is explored with always-fresh values, so
  that a state is (size, representation), and every mix-up of positions is visible because all values differ. Code that looks at values
  (widths, hash, order) is explored with boundary and pairwise-confusable values instead.

### Builds and oracles
* `asan`: gcc `-fsanitize=address`, Zend allocator off (every emalloc its own redzoned block), `_erealloc2` replaced by a worst-case
  version that always moves and copies only the promised bytes (`lib/shim.c`). Any report, crash, hang (60 s of processor time per case) or silent exit
  is a violation attributed to the history being executed. ASan fills freed blocks, so a read through a stale pointer is visible as a wrong value too.
* `zmm`: -O2, Zend allocator on; memory-balance jobs (C20) compare `memory_get_usage()` before and after.
* `ub`: `asan` + UBSan with trapping `__builtin_unreachable`; a release build compiles `ZEND_ASSERT`/`ZEND_UNREACHABLE` to exactly
  that, so a false assertion is undefined behaviour. Used by C25 only, so that the other checks judge visible behaviour only.
A violating job is repeated with tracing; the history/case id goes to `out/<prop>-<hash>.json`, is replayed alone, and
`python3 vc.py replay <file>` reproduces it. A crash that does not repeat is reported as an error (exit 2), never as a violation.

Nothing looks at source text. Checks see only the compiled behaviour through the public PHP API (including the debug
methods the extension itself exports for trees).

## 2. Properties

`quick` bounds below; `thorough` raises sizes/depths (see the `bound` strings in `systems/*.php`, copied to the evidence). Wall times on 8 cores.

| id | deciding exploration (quick) | oracle | ~s |
|---|---|---|---|
| C01 Vector, C02 Deque, C03 IntVector, C04 LowMemoryVector, C05 BitVector | BFS to closure over (size, capacity, ring offset / width history / bit content) up to 14 / 12 / 6 / 5 / 6 elements with *all* operations at *all* offsets, odd offset types and out-of-range ones; DFS of all 3-operation sequences (2 for BitVector); every single core operation at sizes 7..129 around powers of two in 6-9 ways of constructing; sizes beyond 2^8 and 2^16 incl. grow-shrink-grow swings; all ordered pairs of width-boundary values through every storing route, each boundary value searched | PHP array model; byte/word views recomputed from bits (C05) | 22, 24, 36, 58, 42 |
| C06 hash map/set | BFS to closure over slot layouts (gaps, chains of keys colliding in the low 6 hash bits) up to 10 slots; DFS over pairwise confusable keys; BFS over ordered contents; all fill/remove/refill patterns (every subset for n<=9) | insertion-ordered list with `===`+NAN equality | 36 |
| C07 tree map/set | BFS to closure over **all reachable red-black trees** (shape+colours) of <= 9 nodes: insert in every gap, remove/update every node, pops; DFS over confusable keys | sorted list under the independent order; red-black invariants on the exported tree | 6 |
| C08 sorted-vector map/sets | BFS over sizes and over all subsets of pools (incl. integer width boundaries), every list x way of constructing | sorted unique list | 9 |
| C09 heaps | BFS to closure over all reachable heap layouts, all permutations up to 6, drained two ways | multiset + order | 4 |
| C10 MutableIterable | BFS over (size, capacity) <= 18, DFS depth 4, repeated keys | list of pairs | 32 |
| C11 immutable/empty | every content <= 3 entries x every mutator/array write/re-construction x every iterator position, all readers after each | frozen model | 7 |
| C12 CachedIterable | BFS to closure over (elements fetched, source state, positions of two iterators) for 10 kinds of source; source throws at every protocol call; source calls back into the cache at every protocol call | exactly-once laziness model that records every call the source receives | 9 |
| C13 iterators | BFS over every content x every pair of iterator positions x every mutation; foreach with every pair of changes in its body at every step; iterators outliving collections, released in every order; clones churned under open iterators | position-adjusting iterator model (per documented policy) | 37 |
| C14 stable_compare, C15 strict_equals/hash/unique, C16 helpers, C17 binary_search | all pairs/triples of 113 values of all types and arrays/strings/ints at boundaries; every short list x callback x fault point; PHP references inside every input; arrays in every key order, with holes and of growing length; every sorted list x layout x target x comparer | independent definitions (`lib/model.php`), polyfills from the stubs | 2, 9, 3, 6 |
| C18 round trips | every class x content x way of constructing x copying route (serialize, `serialize()` methods, var_export, clone, `__set_state`, json...) x operations on both sides afterwards; C01-C10 also clone and unserialize each reached state and operate on the copy | model content | 22 |
| C19 malformed data | every payload array <= 3 entries over 9 values and key patterns; every binary payload <= 4 bytes over an alphabet x tag; every truncation/deletion/24 replacements of valid strings; objects used before they are initialised; every sequence <= 4 of confusable, unsorted or repeated elements through every decoder | throw or usable valid collection; invariants checked by use; no crash | 19 |
| C20 lifetimes | every operation (pairs of operations) x element flavours; alive set (WeakReference/WeakMap) = reachable set after each step; cycles through every slot collected (also when only the key or only the value is part of the cycle, and with a foreach left open); request heap balance; every failing construction point; and **every history and case of C01-C13, C15-C19, C21-C24 executed again** with the number of allocated bytes compared (`Leak` in `lib/core.php`) | liveness model, heap balance | 150 |
| C21 re-entrancy | every operation that can run user code x every operation run from the k-th destructor/callback/handler/source call, from a fiber suspended inside a callback, from helper functions' callbacks, and callbacks that remove elements whose own destructors re-enter or throw | no report/crash; usable, self-consistent object afterwards | 41 |
| C22 exception safety | every public method and array syntax x argument tuples (incl. wrong types), quiet and throwing error handlers; fault at every protocol call of every constructor source | views unchanged if it threw; the original exception arrives | 80 |
| C23 aliasing | every export/derivation/input route x every modification on either side; references in inputs and payloads | value semantics | 16 |
| C24 views | every class x content x construction x operation, all read views compared pairwise, including the engine's own (foreach, spread, list(), iterator_to_array, array cast, `??`) and appending to an exported list | model content | 10 |
| C25 undefined behaviour | the histories of C01-C24 (quick: all but the largest ~20 job families) on the `ub` build; functional mismatches ignored | sanitizers and trapping assertions | 142 |

Large collections: `lib/scale.php` names elements by number (number order = key order), so the model stays a native array and every class is also
enumerated at sizes 65..1025, 4097 and 65537 (construction order x way x element kind x operation at every power-of-two boundary position, drained
and refilled in each direction: C06-C12; copies and their peak memory: C18, C23; views: C24; liveness of each stored object: C20).

**Why tests cannot settle these:** the existing phpt tests each run one history; most defects found (section 4) needed a particular
representation (wrapped ring, full hash table with gaps, over-allocated then shrunk storage), a second operation after the first
misbehaved silently, or user code running in the middle.

**Not applicable:** none; the family applies to every property listed. What it cannot reach is stated as limits below.

## 3. Limits
* Bounds: sizes, depths and value pools as stated. Beyond them we rely on data independence and on jobs at growth boundaries.
* 64-bit little-endian, NTS, PHP 8.3.6 only: the `WORDS_BIGENDIAN`, 32-bit and `ZTS` branches are not compiled here.
* Allocation failure and sizes near `MAX_VALID_OFFSET` end in a PHP fatal error and are not explored.
* C25 does not detect reads of uninitialised memory that have no other symptom (MSan would need an instrumented PHP).
* Cycles through `InternalIterator` objects and `WeakReference`s cleared during destruction are not explored.

## 4. Genuine defects found
%(FIXN)d were repaired by `fix:` commits (all stable tests pass; list in `known_findings.json`, status `fixed`, by property:
%(FIXBY)s). Three are pinned by existing tests or too invasive and recorded as known findings:
* **BV-SEARCH** (C05, C24): `BitVector::indexOf($b)`/`contains($b)` answer for `!$b`; `tests/BitVector/indexOf.phpt` pins it.
* **SIVS-REMOVE** (C08): `SortedIntVectorSet::remove()` returns false even when it removed; pinned by `addRemove.phpt`.
* **RECON-LEAK** (C20): a value inserted by the very iterator `__construct()` is consuming leaks.
The checks decide these exact behaviours separately (a run must be consistent with either the documented or the recorded reading),
so any other deviation of the same method is still a violation.

## 5. False alarms corrected while building
* PHP keeps back-referenced values alive when an *outer* `unserialize()` fails, and does not run destructors then: C20 skips duplicates in that
  variant and judges liveness by WeakReference.
* A second `__construct(iterable)` on an empty collection is accepted by several classes: not an "operation" for C22.
* `CachedIterable::fromPairs` takes arrays only; `CachedIterable` is uncloneable.
* `json`/`var_dump` recursion started from inside an element hook is PHP's own protection, excluded from C21 `elem`.
* pushFront/unshift with several arguments is repeated front insertion (documented by tests), not block insertion.
* `$deque[bad] = x` throws RuntimeException in array syntax (pinned); maps throw OutOfBoundsException for missing keys.
* Heap `values()` order is internal layout; only the multiset and the draining order are specified.
* Removal of the current element: sequences, sorted vectors and trees move the iterator to the predecessor, hash tables to the successor.
* Comparing arrays that contain themselves ends in PHP's nesting fatal error: avoided, hashing them is checked instead.
* The UBSan oracle was kept out of C01-C24: an assertion is not part of what those properties promise.

## 6. Planted bugs
Each directory of `seeded/` was written from the property text and the code, compiles, passes the stable tests and has a demonstration.
"caught by" is the check of its own property (run on the patched tree with `tools/mkseed.py check`).

%(SEEDS)s

Seeds that were missed at first and what was added: `deque-contains-two-segments` (C24 gained ring rotations as a way of constructing),
`deque-shrink-offset-only` (C02 likewise), `vector-unset-shrinks-before-moving` (worst-case `_erealloc2`), `vector-unserialize-keeps-reference`
(payloads sharing slots by reference in C23)%(MISSED)s.

`tools/mutate.py` (development aid) generates hundreds of mutants per file, drops those the stable tests kill, and lists the ones no job reports;
each survivor was read and either explained as equivalent or turned into a stronger alphabet (section 7).

## 7. Mutation-testing notes
%(MUT)s

## 8. Layout
`vc.py` build/run/evidence; `lib/` engines, models, alphabets; `systems/cNN.php` one per property; `tools/` authoring aids (`mkprops.py` ->
properties.jsonl, `claims.json`+`mkmanifest.py` -> MANIFEST.json, `mkfixed.py` -> known_findings.json, `mkseed.py`, `mutate.py`, `cov.py`); `known_findings.json`.
No hooks were added to `/repo`: every `/repo` commit is an unguarded `fix:`.
'''
k=json.load(open('/verif/known_findings.json'))
fx=[e for e in k if e['status']=='fixed']
import collections
by=collections.Counter(e['property'] for e in fx)
rows=['| planted bug | property | needs | caught |','|---|---|---|---|']
res=json.load(open('/verif/tools/seedresults.json')) if os.path.exists('/verif/tools/seedresults.json') else {}
for s in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%s)); rows.append('| %s | %s | %s | %s |'%(s,m['property'],m['needs'].replace('|','/')[:160],res.get(s,'yes')))
ex=json.load(open('/verif/tools/designnotes.json')) if os.path.exists('/verif/tools/designnotes.json') else {}
open('/verif/DESIGN.md','w').write(D.replace('%(FIXN)d',str(len(fx))).replace('%(FIXBY)s',', '.join('%s %d'%x for x in sorted(by.items()))).replace('%(SEEDS)s','\n'.join(rows)).replace('%(MISSED)s',ex.get('missed','')).replace('%(MUT)s',ex.get('mut','(see git history)')))
