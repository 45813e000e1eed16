EXTRA='''
## Judgement calls: behaviour not claimed

- `XValueStack::begin()/end()` iterate the internal stack including the saved extreme values (and an initial placeholder); the iteration order of Min/MaxStack is therefore not claimed.
- `Heap::operator[]` is 1-based on the internal array; not claimed.
- `AVLTree::push` and `Map::push` of a present key stop with an assertion by design; pushes are given absent keys.
- `abs` of the most negative int, removal from an empty container, indices out of range: preconditions.
- `StaticMemAllocator` does not promise to coalesce across the small-block limit; the coalescing property is stated per side.
- AVL traversal callbacks receive the node payload wrapper (`.val`), which is what the library's own tests use.

- `spec/DStructSpec.hpp` holds the allocator interface (`AllocSpec`, the type specs); checks of this task treat `spec/` as a test directory, so nothing is repaired there: the refusal of inexpressible sizes (C38) sits in Vector and the deque instead.

## Encoding details worth knowing

- Harness directives: `//@native -O0` (or other flags) sets how the replay binary is built; C37 replays at -O0 because a store the compiler proves dead is otherwise gone from the replay although the IR the engine executed has it. `//@native_all` replays every path model instead of a sample.
- Engine built-ins used by harnesses: `vp_stop_ok` (from here on the library may stop by an assertion), `vp_readonly` (stores into the marked blocks and into static data are violations), `vp_rec` (recursion depth and number of calls observed), `pick` (a selector whose values are explored as separate paths), `vp_u8/vp_i32/...` (symbolic values).
- Floating point: `float`/`double` elements are moved, stored and compared bit for bit; arithmetic on concrete values is carried out by the engine; a symbolic operand of floating point arithmetic or ordering is split into its values, so that a path which would need many of them ends inconclusive, not quiet.
- `engine/support.c` (compiled to IR by setup.sh and linked into every harness) gives the C library functions the library or a change to it may call (strings, memory, abs, floor, ...); calls to anything else make the check inconclusive. `harness/C00.cpp` is a self-test of the engine (`python3 check.py C00`; not a property, not in the manifest): by-value copies, overflow and bit intrinsics, floating point, C string functions, overlapping copies.
- `functions_encoded` in the evidence lists functions by name with the number of template instances (thousands of mangled names would not tell more).

## How the checks were tried

- Planted bugs: the table below; each was written from the property text and the code, kept whether or not a check caught it at first.
- Behaviour-preserving refactorings: three complete rewrites of the working tree (scratch copies: helpers extracted, loops rewritten, statements reordered, members initialised differently, conditions inverted, early returns, recursion turned into iteration) on which all checks have to stay quiet; what raised alarms there was corrected in the harnesses (see below).
- Size: `harness/far.hpp` (entries `far` of C01-C07, C09-C20, C22-C24, C34) grows one container to 70000 elements (node containers in C19/C20: 33000 and 17000, C22: 5000, C15, C24 and C34: 20000) with one arbitrary element and checks after every operation; it answers two planted bugs that showed only past 4096 and 65535 elements. The other elements are fixed there, so these entries decide all values of one element at two (thorough: five) positions, not all contents.
- Coverage survey: line and branch-direction coverage of core/, memory/ and port/ was collected in the engine over all checks; what was left one-sided is unreachable (code behind an assertion, branches an invariant decides).
- Mutation survey (`tools/mutate.py DIR JOBS`): single-token and single-statement mutants of the library, each in a scratch copy, built, tested with the existing tests; mutants that pass those are given to the checks of the affected component. Survivors are looked at one by one: either equivalent (recorded as such) or answered by a stronger entry (`C35 storage` came from one).

## False alarms corrected while building

- Storage bound of the String: `resize` reserves 15 characters, the bound has that constant.
- C26 `large`: request sizes must be multiples that leave no small remainder, otherwise small and large pieces coexist and the stated coalescing does not apply.
- C27: an empty linked list holds no memory, so "memory is in use" is only a reachability label.
- C29: see Min/MaxStack iteration above.
'''
