import json,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
kf=[json.loads(l) for l in open('/verif/known-findings.jsonl')]
approach={
'C01':'Vector versus a reference sequence after every step: size/empty, every index from both ends, front/back, iteration; int, one-byte, 16-byte and lifetime-tracked elements.',
'C02':'Array versus its reference contents for N = 1..; every constructor; index symbolic where the bound text says so.',
'C03':'Deque versus a reference sequence, block sizes 1..; pushes/pops at either end, symbolic index; long histories drive the block map through growth, shrink and recentring.',
'C04':'Queue adapter versus a FIFO reference, over its default deque (block size 32, crossing blocks) and other sequences.',
'C05':'Stack adapter versus a LIFO reference.',
'C06':'Singly linked list versus a reference sequence, tail observable through back()/push_back.',
'C07':'Doubly linked list versus a reference sequence read from both ends.',
'C08':'Rings of intrusive nodes versus a reference cyclic order, every insert/remove position.',
'C09':'Heap versus a reference multiset. Elements are (key, tag) pairs: keys stay symbolic, so the solver decides every sift comparison; tags make identity (nothing lost, duplicated, invented) a fact of the path.',
'C10':'sort/build on ranges of (key, tag) pairs with guard elements around the range.',
'C11':'Min/MaxStack versus a reference stack; the extreme value is compared with all elements inside, symbolically.',
'C12':'BST versus a branch-free symbolic reference set; keys symbolic, so every tree shape and removal case arises as a path.',
'C13':'Trees of symbolic keys in every insertion order, erase at every position (lifetime-tracked, unassignable, over-aligned elements); successor and remaining contents compared.',
'C14':'AVL tree versus the symbolic reference set, as C12.',
'C15':'After each operation the shape is reconstructed from pre-order and in-order visits through the public API, heights and balance are computed from it and compared with height().',
'C16':'Map versus a symbolic reference association (key -> value).',
'C17':'Disjoint set versus an explicit partition of the elements.',
'C18':'String versus a reference character sequence; operand lengths and characters arbitrary.',
'C19':'For each container (reference model per container, harness/zoo.hpp): build, copy by construction/assignment/self-assignment onto targets in different states, then arbitrary operations on either side; both are compared in full.',
'C20':'As C19 with move construction, move assignment, swap and pass-through, including empty sources, then reuse of the source.',
'C21':'Containers run on a checked allocator: block size on release must match, elements must lie inside live blocks, malloc must not be called, nothing may remain; every memory access of the library is bounds-checked by the engine.',
'C22':'Elements register construction, use and destruction; the engine reports any use outside the lifetime, double construction/destruction and leftovers.',
'C23':'Iterator laws for every pair of positions of every container; for_each/find/distance on subranges.',
'C24':'Pre- and in-order determine the tree (distinct keys); post-order is recomputed from them and compared with callback and iterator visits of all three orders.',
'C25':'Pool-level oracle: address range learnt by allocating the whole pool; disjointness, alignment, containment, contents of live blocks after every step; request sizes symbolic in `any` and `sym`.',
'C26':'Reference map of the pool\'s free 8-byte units; free size, largest block, served-iff-fits, coalescing after merge; request sizes symbolic in `any`, `bad`, `sym`.',
'C27':'The zoo models on StaticMemAllocator, on the ENABLE_SMA default allocator and on the smemory aliases, pairs of containers sharing a pool; deque with adjacent blocks; the ENABLE_SMA port on a fragmented 1 MB pool.',
'C28':'Order axioms over symbolic operand triples (ints of several widths, pointers incl. null and symbolic 64-bit addresses); containers of pointers and with greater; swap of container pairs.',
'C29':'A reference into the container is passed to its own operation, for every element of every state; lifetime-tracked elements expose reads of released storage.',
'C30':'Every tree shape (choice of root per interval), rotations at every node, reference traversals by independent recursion.',
'C31':'A metering allocator counts live bytes and requests; the bound is asserted after every step.',
'C32':'Comparator objects with an arbitrary parameter (rotated orders: the numbers from p upwards first, then those below); contents handed on by copy, assignment, move or swap to a container with another parameter, then more operations; service and iteration order compared under the parameter.',
'C33':'An allocator that refuses the f-th request (once or for good); `vp_stop_ok` marks from when on a stop is legitimate: the engine then ends the path at a failed library assertion or an access below 4096, and any path that goes on is checked against the reference contents. Misuse: `vp_stop_ok`, the misuse, then `vp_fail`.',
'C34':'Pointers and iterators to every element are kept and compared with what iteration and lookup meet after every step; the engine reports a read through a pointer whose element was released.',
'C35':'Elements and comparators that count; bounds in terms of log2 of the size with slack factors; keys symbolic, so that the solver covers every path through the structure.',
'C36':'The engine counts, at every call, how many activations of the same function are on the stack (`vp_rec_reset`, `vp_rec_max`); natively the same count comes from -finstrument-functions. Bounds as in the statement, with a small constant.',
'C37':'The container object and its storage lie in `vp_alloc` blocks; between `vp_readonly(true)` and `(false)` the engine treats any store to them, their release, and any store to static data as a violation; natively the blocks are write-protected pages and static data is compared. Absence of writes by a reader makes every schedule of readers race free, so no schedule has to be enumerated. Another instance is read first so that data initialised at first use does not count.',
'C38':'A recording allocator over static memory; the element count is a 64-bit symbolic variable, the product is computed by the library, the assertion compares the int it passes on with the exact product. `vp_stop_ok` only on the side of the split where the product exceeds the interface.',
'C39':'Models of inner containers (zoo.hpp) inside an outer model; after every step every inner container is compared in full; lifetime tracking and allocator balance catch shallow copies, double and missing destruction.',
'C40':'Two containers (or four of different kinds) of one type live on one allocator that the harness implements: five placement policies (gapless ascending or descending, alternating, reuse of the youngest or oldest released block) and two fillings of fresh and released storage. Every interleaving of operations on the two is executed and each is compared with its own model after every step; then either dies first. Malloc headers, which keep blocks apart natively, are thereby out of the picture.',
'C41':'The same histories instantiated for 18 element types; values are unconstrained in all their bits (64-bit variables narrowed, floating point carried as bit patterns) and compared in full; addresses of elements are checked against the alignment of the type. Ordered types go through heap, trees, Map and extreme-value stacks against models using the type\'s own comparison.',
'C42':'Containers of 130, 258 and 66000 elements are built step by step by the real code, one element arbitrary at a picked position next to a power of two or an end; every element is read back by iteration and by index, the container copied, drained and refilled. Loops run concretely (about 10^7 to 10^8 instructions per path), the solver decides the arbitrary element and the key comparisons. Ordered containers restrict the arbitrary key to a few ranges (below all, above all, in the middle), which is stated as an assumption.',
'C43':'Interleavings are reduced to disjointness: if no operation of one thread touches a byte that another thread writes, all schedules are equivalent to running the threads one after the other. The engine brands the blocks of one container (`vp_apart`) and reports any read, write or release of them, and any write to static data, while the other container is constructed, modified by every short history with arbitrary arguments, read, copied, assigned, moved and destroyed; also where one is a copy of the other. Replayed natively with the pages of the other container inaccessible and static data compared.',
}
exec(open('/tmp/gen/design_extra.py').read())
out=[]
w=out.append
w('''# DESIGN: solver-based checking of DStruct

## Machinery

`engine/dsym.cpp` is a symbolic executor for LLVM IR written for this task (KLEE style). `check.py ID`

1. lowers `harness/ID.cpp`, which includes the library's real headers from `/repo`, with clang 18 to bitcode (templates instantiated, `-O1` without IR passes, then only `sroa`), so the encoding is regenerated from the current source on every run;
2. executes every entry point symbolically: harness inputs (`vp_int`, `vp_u8`, `vp_choice`, ...) are SMT variables, both sides of every branch that the path condition allows are explored, every assertion, assumption, address, division, shift and signed overflow on symbolic data is decided by Z3 (QF_BV; order-only constraints also through an equivalent integer encoding; small-domain conditions by exhaustive evaluation of the variables involved) for all values at once. Memory is object based: out-of-bounds, use after free, uninitialised reads that reach a decision, misalignment, null access, wrong-size release, double release, calls through bad pointers, non-termination (per-path instruction limit) and unbounded recursion are violations;
3. an entry counts as decided only when all paths were explored (`exhaustive: true` in the evidence); each entry names labels that must be reached, so a vacuous harness is an error, not a pass;
4. a violation comes with a model of the path condition; it is replayed on natively compiled code (ASan+UBSan, plain, MSan, several fills of fresh memory) and only then reported (`VIOLATION`, with a replay script under `evidence/replay`). A counterexample that does not reproduce is reported as INCONCLUSIVE, never as a violation;
5. models of explored paths are sampled and replayed natively as well, comparing a hash of the observable outcome with the engine's (`traces_validated_against_impl`): a check of the engine itself on every run.

Exit codes: 0 held on everything explored, 1 violation, 2 no verdict (build failure, budget, vacuity).
`--tier thorough` raises the bounds (`DEEP(quick, thorough)` in the harnesses) with a 7200 s budget.
No hooks in `/repo`: harnesses use public API only, so behaviour-preserving edits do not disturb them.

The oracles are independent reference models in the harness (sequences, branch-free symbolic sets, partitions, maps of free units), never a second copy of the library's algorithm. Histories are bounded: the operation at each step is a symbolic choice; values are arbitrary machine words. Keeping the keys of ordered containers symbolic means that the *order type* of the keys is decided by the solver, so all n! insertion orders (and ties) are covered with one harness.

What is outside: sizes and histories beyond the bounds below, element types other than those instantiated, element copy operations that throw, multi-threading (the library claims none), `SMA_LOGD` logging, and code generation other than clang/gcc on x86-64. Each entry's exact bound is the text after `::` in its harness, repeated in the evidence file.

## Properties, oracle and bounds

''')
for p in props:
    i=p['id']; src=open(f'/verif/harness/{i}.cpp').read()
    w(f"### {i} {p['title']}\n\n{approach[i]}\n")
    for a in re.findall(r'//@assume (.*)',src): w(f"Preconditions: {a}.\n")
    for l in re.findall(r'//@(?:entry|deep) (.*)',src):
        h,b=l.split(' :: '); w(f"- `{h.split()[0]}`: {b}")
    w('')
w('''## Not applicable

None. Every property is decided by the solver within the stated bounds.

## Genuine defects found and repaired

All of these were found by the checks on the original tree (or by reading while writing them, then confirmed by the check) and repaired with one `fix:` commit each; `known-findings.jsonl` lists them as fixed. No finding is left open.
''')
for k in kf: w(f"- {k['property']} `{k['commit']}`: {k['text'].split(' ',3)[3]}")
w(EXTRA)
import os,glob
if os.path.exists('/tmp/gen/results.json'):
    rs=json.load(open('/tmp/gen/results.json'))
    out.append('## Planted bugs (seeded/) and the checks that catch them')
    out.append('')
    out.append('| bug | property | needs | caught by |'); out.append('|---|---|---|---|')
    for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
        i=m.split('/')[-2]; j=json.load(open(m)); r=rs.get(i,{})
        out.append(f"| {i} | {j['property']} | {j['needs']} | "+(f"{r['prop']} `{r['entry']}`" if r.get('rc')==1 else '**missed**' if r else 'not run')+' |')
    out.append('')
open('/verif/DESIGN.md','w').write('\n'.join(out)+'\n')
