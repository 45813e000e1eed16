import json
P=[]
VEC='core/ds/array/Vector.hpp'; ARR='core/ds/array/Array.hpp'; DEQ='core/ds/queue/DoubleEndedQueue.hpp'; QUE='core/ds/queue/Queue.hpp'
STK='core/ds/stack/Stack.hpp'; XVS='core/ds/stack/XValueStack.hpp'; EMB='core/ds/linked-list/EmbeddedList.hpp'; LL='core/ds/linked-list/LinkedList.hpp'
SL='core/ds/linked-list/SinglyLinkedList.hpp'; DL='core/ds/linked-list/DoublyLinkedList.hpp'; HEAP='core/ds/Heap.hpp'; MAP='core/ds/Map.hpp'
BSTB='core/ds/tree/BinarySearchTreeBase.hpp'; BST='core/ds/tree/BinarySearchTree.hpp'; BT='core/ds/tree/BinaryTree.hpp'; EBT='core/ds/tree/EmbeddedBinaryTree.hpp'; TB='core/ds/tree/tree-base.hpp'
AVL='core/ds/tree/AVLTree.hpp'; UF='core/ds/set/DisjointSet.hpp'; STR='core/ds/string/BasicString.hpp'; SMA='memory/StaticMemAllocator.hpp'
COM='core/common.hpp'; UT='core/utils.hpp'; IT='core/Iterator.hpp'; ALG='core/algorithm.hpp'; SPEC='spec/DStructSpec.hpp'; PORTL='port/libc/libc-dstruct-port.hpp'; PORTS='port/static-memory/sma-dstruct-port.hpp'; TOP='dstruct.hpp'; TOPS='dstruct-static.hpp'
def p(id,title,st,over,q,why,files,mech):
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':q},'why_tests_cant':why,'anchors':{'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}})
H=['histories','inputs']
p('C01','A Vector is the sequence its operations describe','After any history of push, pop, write, resize, clear and range construction, a Vector has exactly the elements and the order those operations describe: size, emptiness, both ends, every index (negative ones count from the end) and forward iteration agree. Growing, shrinking and reallocation never lose, duplicate, reorder or alter an element.',H,'every operation history with arbitrary element values, for int, one-byte, 16-byte and lifetime-tracked element types; pop and end access only on a non-empty Vector, index in range','vector.cpp pushes 0..9, pops, and reads them back; reallocation boundaries, shrink-on-pop, resize in both directions and their combinations are infinitely many histories.',[VEC,COM],[('growth and shrink of the storage',VEC+': push_back, pop_back, resize'),('element construction in raw storage',COM+': construct, destroy')])
p('C02','An Array holds exactly N elements, each where it was written','An Array of N elements has size N, is never empty for N >= 1, and every index (negative ones count from the end), both ends and iteration see the element last written there and no other. Construction from a fill value, a list of values or nothing initialises every element as stated.',['inputs','configurations'],'every N checked, arbitrary values and arbitrary valid indices, several element types','array.cpp writes one fixed pattern to arrays of size 5 and 10; index arithmetic must hold for every index and value.',[ARR],[('index arithmetic and fill',ARR+': operator[], constructors')])
p('C03','A double-ended queue is the sequence its operations describe','After any history of pushes and pops at either end and clears, a double-ended queue holds exactly the elements those operations describe, in order: size, emptiness, both ends, every index (negative from the end) and iteration agree. Its internal blocks growing, shrinking and being recentred never lose, duplicate, reorder or alter an element.',H,'every history with arbitrary values, for several block sizes and element types; pop and end access only when non-empty','double-end-queue.cpp runs a handful of fixed push/pop loops; the block map is recentred and resized at many combinations of begin and end position no fixed loop reaches.',[DEQ],[('block map growth, shrink and recentring',DEQ+': _resize, _only_init'),('position arithmetic across blocks',DEQ+': iterator operators')])
p('C04','A Queue hands elements out in the order they were put in','For any interleaving of push and pop, a Queue delivers every element exactly once and in insertion order; front, back, size, emptiness and iteration always describe the elements still inside.',H,'every interleaving of push and pop with arbitrary values, over the shipped queue and over other underlying sequences','queue.cpp pushes 10 and pops 10; lengths that cross and recross a block boundary depend on the history.',[QUE,DEQ],[('adapter operations',QUE+': push, pop, front, back')])
p('C05','A Stack hands elements out in reverse order of insertion','For any interleaving of push, pop and clear, a Stack delivers the most recently pushed remaining element; top, size, emptiness and iteration always describe the elements still inside.',H,'every interleaving of push, pop and clear with arbitrary values, over Vector and other underlying sequences','stack.cpp pushes and pops one fixed sequence.',[STK,VEC],[('adapter operations',STK+': push, pop, top')])
p('C06','A singly linked list is the sequence its operations describe','After any history of pushes and pops at the front, pushes and pops at the back and clears, a singly linked list has exactly the elements and order those operations describe, and size, emptiness, both ends and iteration agree. The tail always stays the last element, whichever operation emptied or refilled the list.',H,'every history with arbitrary values and several element types; pop and end access only when non-empty','linked_list.cpp pushes and iterates fixed lists; the tail bookkeeping depends on which mix of front and back operations empties and refills the list.',[SL,LL,EMB],[('tail bookkeeping',SL+': push_back, push_front, pop_front, _pop_back, clear'),('size bookkeeping',LL+': push_front, pop_front')])
p('C07','A doubly linked list is the sequence its operations describe','After any history of pushes and pops at either end and clears, a doubly linked list has exactly the elements and order those operations describe; size, emptiness, both ends, forward and backward iteration agree.',H,'every history with arbitrary values and several element types; pop and end access only when non-empty','linked_list.cpp pushes and iterates fixed lists; the two link directions can disagree after histories it never runs.',[DL,LL,EMB],[('ring maintenance',DL+': push_back, pop_back, clear'),('link editing',EMB+': add, del')])
p('C08','Intrusive links: insert and remove edit exactly the ring they are told to','Inserting a node behind another makes it its successor and leaves the relative order of all other nodes unchanged; removing a node takes out that node only. Both directions of a doubly linked ring, node-to-link conversions and the node contents stay consistent after any sequence of edits.',H,'every sequence of insertions and removals at any position over any number of nodes within the bound, with several rings at once','embedded_list.cpp builds two fixed rings.',[EMB],[('link editing',EMB+': SinglyLink_::add/del, DoublyLink_::add/del'),('node/link conversion',EMB+': to_node, to_link')])
p('C09','A heap / priority queue always serves the extreme element','For any history of push and pop and any strict weak order, the top of a heap is an element that no other element of the heap precedes, and pop removes exactly one such element. Nothing pushed is lost, duplicated, altered or invented; size, emptiness and iteration describe exactly the elements inside.',H,'every history of push and pop and construction from every range, arbitrary keys with ties, min- and max-order','heap.cpp pushes one fixed permutation; the sift paths taken depend on the relative order of all keys (n! cases) and on ties.',[HEAP],[('sift up and down',HEAP+': _adjust_up, _adjust_down'),('heapify',HEAP+': range constructor')])
p('C10','Heap sort orders a range and heap build only permutes it','Sorting any range leaves it in the order of the comparator and building makes it a heap; both yield a permutation of the original elements and touch nothing outside the range.',['inputs'],'every range length within the bound, every arrangement of arbitrary keys with ties, min- and max-order, sub-ranges','heap.cpp sorts one fixed array.',[HEAP],[('sorting and building',HEAP+': sort, build, _adjust_down')])
p('C11','A MinStack/MaxStack is a stack that always knows its extreme element','For any history of push, pop and clear, top is the most recently pushed remaining element and the extreme value is the minimum (maximum) of the elements inside, ties included. Repeated extreme values and refilling after it was emptied do not disturb either.',H,'every history with arbitrary values (ties included), int, one-byte and lifetime-tracked elements, both orders','xvalue_stack.cpp pushes two monotone sequences; ties and re-established extremes never occur in it.',[XVS,STK],[('saved extreme values',XVS+': push, pop, getXValue')])
p('C12','A binary search tree is an ordered set','After any history of push, pop and clear, a binary search tree contains exactly the keys pushed and not removed since, each once; pushing a present key and removing an absent one change nothing. Size, emptiness, membership lookup and ascending iteration agree with that set.',H,'every history with arbitrary keys, duplicates and absent keys included, for several element types and orders','binary_search_tree.cpp inserts one fixed set and removes some of it; the shape of the tree and the removal case hit (leaf, one child, two children, root) depend on all keys and the order of operations.',[BSTB,BST,BT,EBT],[('insertion and removal',BST+': _insert, _delete, _try_to_delete'),('lookup',BSTB+': _find')])
p('C13','Erasing through an iterator removes that element and yields its successor','Erasing through an iterator of a binary search tree, AVL tree or Map removes exactly the element it denotes, whatever its position and number of children, and returns an iterator to the next larger element or the end. All other elements, their order and the tree invariants remain, so that a whole tree can be erased while iterating.',H,'every tree of arbitrary keys in every insertion order within the bound, every erase position, chains of erasures, element types that cannot be assigned or are over-aligned','erase is called once or twice on fixed trees.',[BSTB,BST,AVL,MAP],[('erase',BST+': erase; '+AVL+': erase, _delete_by_target')])
p('C14','An AVL tree is an ordered set','After any history of push (of an absent key), pop and clear, an AVL tree contains exactly the keys pushed and not removed since, each once; removing an absent key changes nothing. Size, emptiness, membership lookup and ascending iteration agree with that set through every rebalancing.',H,'every history with arbitrary distinct keys, for several element types and orders','avl_tree.cpp inserts fixed sequences; which of the rotation cases occurs on insertion and on removal depends on all keys and their order.',[AVL,BSTB,EBT],[('rebalancing',AVL+': _check_and_balance, _rebalance_after_delete'),('removal',AVL+': _delete, _delete_by_target, _swap_node')])
p('C15','An AVL tree stays balanced','After every insertion and removal the heights of the two subtrees of every node of an AVL tree differ by at most one, so that its height is logarithmic in its size, and the height it reports is its height.',H,'every history of insertions and removals with arbitrary keys within the bound, plus long fixed histories','avl_tree.cpp checks the height of a few fixed trees after insertions.',[AVL,EBT],[('height bookkeeping and rotations',AVL+': _update_height, rotations; '+EBT+': left_rotate, right_rotate')])
p('C16','A Map holds one value per key, in key order','After any history of insertion, indexing, assignment, removal, erasure and clear, a Map associates each key with the value last stored for it and holds no other key; indexing an absent key inserts a default value, lookup and constant indexing insert nothing. Iteration yields the entries once each in ascending key order, and size and emptiness agree.',H,'every history with arbitrary keys and values, several key and value types and orders; insertion by push of absent keys only','map.cpp uses a dozen fixed keys.',[MAP,AVL],[('lookup and insertion by key',MAP+': operator[], find, push, pop'),('key order',MAP+': KVCMPKey')])
p('C17','A disjoint set maintains exactly the equivalence its connects generate','Two elements are connected if and only if a chain of connect operations joins them, and the number of sets is the number of classes of that equivalence. Queries change nothing observable, and representatives agree exactly for connected elements.',H,'every sequence of connects and queries over every pair of elements within the bound, every size','disjoint_set.cpp joins a fixed list of pairs.',[UF],[('union and path handling',UF+': connect, union_set, find')])
p('C18','A String is a zero-terminated character sequence','After construction, assignment, appending, concatenation, push_back, writing and clear, a String holds exactly the characters those operations describe, in order, for empty and non-empty operands and for a String appended to itself. Its size counts them, iteration and indexing see them, and its C string is those characters followed by a terminating zero. Two Strings compare equal exactly if they have the same characters.',H,'every operand length within the bound with arbitrary characters, every history of the operations','string.cpp compares a few literals; terminator handling depends on lengths around the growth steps and on empty operands.',[STR,VEC],[('terminator maintenance',STR+': push_back, operator+=, clear, c_str')])
p('C19','Copies are equal to their source and independent of it','A copy made by construction or assignment of any container has exactly the contents of its source, also when the target held something else or is the source itself. Afterwards no operation on one of the two changes, invalidates or releases anything of the other, in whichever order they are modified and destroyed.',H,'every container, every source history and every following history on either side within the bound, arbitrary values','copying is exercised for a few containers with fixed contents, and hardly ever followed by changes to both sides.',[VEC,ARR,DEQ,SL,DL,HEAP,XVS,BST,AVL,MAP,UF,STR],[('copy semantics',COM+': DSTRUCT_COPY_SEMANTICS and each container'),('deep copy of trees',BT+': copy')])
p('C20','Moving transfers the contents and leaves a reusable source','Move construction, move assignment and swap of any container give the target exactly the contents of the source, also from and to empty containers; a container moved to itself or swapped with itself keeps its contents. The source remains valid and independent: it is empty for the containers that can be empty, and can be filled, assigned and destroyed like a new one.',H,'every container, every source and target state and every following history on either side within the bound','moves are exercised once or twice with non-empty sources; use of the moved-from object is not.',[VEC,ARR,DEQ,SL,DL,HEAP,XVS,BST,AVL,MAP,UF,STR],[('move semantics',COM+': DSTRUCT_MOVE_SEMANTICS and each container')])
p('C21','A container takes storage from its allocator only and gives all of it back','Every container obtains all of its storage from the allocator it was instantiated with, keeps its elements inside that storage, and returns every block exactly once with the size it was requested with. After its destruction nothing is left; no access goes outside the blocks it holds.',H,'every container with a custom and with the default allocator, every history including copy, move and swap within the bound','tests do not observe the allocator; a mismatched size, a block from elsewhere or a leak shows only under specific histories.',[COM,SPEC,VEC,ARR,DEQ,SL,DL,HEAP,XVS,BST,AVL,MAP,UF,STR,PORTL],[('typed allocation',SPEC+': AllocSpec'),('storage release',VEC+', '+DEQ+', '+BT+': clear')])
p('C22','Elements are constructed once before use and destroyed once after','A container constructs every element it holds exactly once before using it, destroys it exactly once when it is removed, replaced, cleared or the container goes, and never reads, assigns or destroys anything that is not a live element. Elements are only handled through their own copy operations, so types that own resources work.',H,'every container of lifetime-tracked elements, every history including copy, move, swap and iterator erasure within the bound','most tests use int, for which a missing or double construction or destruction is invisible.',[COM,VEC,DEQ,SL,DL,HEAP,XVS,BSTB,BST,AVL,MAP],[('construction and destruction',COM+': construct, destroy'),('node handling',BT+': copy, clear; '+AVL+': _real_delete')])
p('C23','Iterators visit every element once, in order, and obey the iterator laws','For every container, iteration from begin to end visits each element once in the order of the container, begin equals end exactly when it is empty, pre- and post-increment (and decrement, addition, subtraction and distance where offered) agree with each other, and equality means same position. Const and mutable iteration agree; for-each and find over any subrange visit and find exactly what the definition says.',['inputs','histories'],'every container, contents with arbitrary values, every pair of positions within the bound','tests only run begin-to-end loops on fixed contents.',[IT,ALG,VEC,ARR,DEQ,SL,DL,BT,BST,AVL,STR],[('iterators',IT+': PrimitiveIterator; '+DEQ+', '+SL+', '+DL+', '+BT+': iterators'),('algorithms',ALG+': for_each, find; '+IT+': distance')])
p('C24','Tree traversals are the three orders of one tree','On every binary search tree and AVL tree, pre-, in- and post-order visits are consistent orders of one and the same tree, each reaching every element exactly once, and the in-order is ascending. Callback traversal and iteration agree in each of the three orders, from every position, on any shape, the empty tree included.',H,'every tree of arbitrary keys in every insertion order within the bound, before and after removals','the tests print traversals of one fixed tree.',[EBT,BT,BST,AVL],[('next functions and recursive traversals',EBT+': next_*, *_traversal'),('start of a traversal',BT+': first_node, begin, traversal')])
p('C25','The static allocator hands out disjoint, aligned blocks and keeps off them','Every block the static memory allocator hands out is aligned, lies inside its pool with the full requested size and overlaps no other live block, for every request size. Neither allocation, release nor merging ever changes the contents of a block that is handed out.',H,'every history of requests (any size), releases of any live block and merges within the bound, for several pool and small-block sizes','static_mem_allocator.cpp allocates and frees in a few fixed patterns; which free list serves a request and how blocks are split depends on the whole history.',[SMA],[('free lists and splitting',SMA+': allocate_d, insert_mem_block_to_list_d'),('merging',SMA+': memory_merge_d')])
p('C26','The static allocator accounts exactly and loses no memory','The free size is always the pool minus the handed-out blocks rounded to the alignment, the reported largest free block is a block that can actually be allocated, and a request is served if and only if it fits that block; refused or invalid requests change nothing. Merging never loses memory or shrinks the largest block, and afterwards neighbouring free small blocks are combined, so that any small size that fits a free stretch is available; a pool no larger than the small-block limit, or one split into large blocks only, is one block again once everything is released and merged.',H,'every history of requests, releases and merges within the bound, every request size including zero, negative and huge, for several pool and small-block sizes','the existing test checks the free size after a few fixed patterns; fragmentation is a function of the whole history.',[SMA],[('accounting',SMA+': allocate_d, deallocate_d, max_free_mblock_size'),('merging',SMA+': quick_mem_memory_merge_d, mem_pool_memory_merge_d')])
p('C27','The containers work on static memory and give all of it back','With the static memory allocator as their allocator, through the ready-made static-memory aliases, or with the static-memory configuration of the library, all containers behave as specified and use no heap memory. Several containers can share one pool without disturbing each other, the pool is whole again when they are gone, and the configured port serves any request that fits the free memory, merging if it has to, and stops the program on any other.',['configurations','histories','inputs'],'every container kind, pairs of containers interleaved on one pool, every history within the bound with arbitrary values, every release order of a split pool','the static-memory configuration is exercised by a few fixed examples; sharing one pool between containers and running it into fragmentation is not.',[TOPS,PORTS,SMA,'port/dstruct-port.h'],[('aliases',TOPS),('port',PORTS+': allocate, deallocate')])
p('C28','Comparators are strict weak orders and helpers do what they say','The default comparators are strict weak orders on every operand type, the descending one the exact converse of the ascending one, with a null pointer before every other pointer; ordered containers instantiated with them order accordingly. Maximum, absolute value and swap are exact for every operand, swap of two containers exchanges their contents, and swapping anything with itself changes nothing.',['inputs','configurations'],'every operand triple of several types including null pointers, every pair of container states within the bound; the absolute value of the most negative integer excluded','only a couple of values are ever compared; null pointers are not.',[UT,MAP,HEAP,BSTB],[('comparators and helpers',UT+': less, greater, max, abs, swap'),('key comparison',MAP+': KVCMPKey')])
p('C29','An element of a container may be passed to the container\'s own operations','Passing a reference to an element of a container to one of its own operations (pushing, resizing with it as fill value, assigning, looking up, removing, appending a String to itself) has the same effect as passing a separate equal value. This holds also when the operation reallocates, rebalances or removes that very element.',H,'every container, every element of every state within the bound, arbitrary values','no test passes an element of the container as the argument.',[VEC,DEQ,SL,DL,HEAP,XVS,STR,BSTB,AVL,MAP],[('arguments taken by reference across reallocation',VEC+': push_back, resize; '+DEQ+': push_back, push_front; '+XVS+': push'),('removal by reference',BST+': pop, _try_to_delete; '+AVL+': pop')])
p('C30','Embedded tree primitives keep order, links and contents','A rotation at any node that has the needed child keeps the in-order sequence, the contents and all parent links, lifts exactly that child, and is undone by the opposite rotation. The height is the longest root-to-leaf path, the three traversals and successor functions visit every node of any tree once in their order, and node, link and data addresses convert into each other.',['inputs','programs'],'every tree shape within the bound with arbitrary contents, every node, every pair of rotations','embedded_binary_tree.cpp builds one fixed tree.',[EBT,TB],[('rotations, height, traversals',EBT+': left_rotate, right_rotate, height, next_*'),('conversions',TB+': to_node, to_link, data_to_link')])
p('C31','The storage of a container is bounded by its contents','At every moment of any history of insertions and removals the storage a container holds is bounded by a constant multiple of the elements inside plus a constant: node containers hold one node per element, sequences a bounded number of slots per element, cleared Vectors, deques and linked structures no element storage. Steady use at constant size never grows it, growth requests storage only logarithmically often in contiguous containers, and a copy holds no more than its source.',H,'every container, every push/pop/clear history within the bound after growth to any size within the bound','tests never look at the storage held; unbounded growth under steady use passes all of them.',[VEC,DEQ,SL,DL,LL,BT,HEAP,XVS,STR],[('growth and shrink policy',VEC+': push_back, pop_back; '+DEQ+': push_*, pop_*, _resize')])
p('C32','An ordered container orders by the comparator object it was given','A heap, search tree, AVL tree or extreme-value stack constructed with a comparator object orders by that very object: service order, iteration order, lookup, removal and extreme value follow it through every operation. A copy, a moved-to or a swapped container brings the order of its source along, whatever order it had before; the source of a copy keeps its own, and containers of one type with different orders do not influence each other.',['histories','inputs','configurations'],'every comparator of a parametrised family of strict weak orders (the parameter is arbitrary), arbitrary keys, every way of handing the contents on (copy, assignment, move, swap) followed by further operations','the tests only use stateless default comparators; a comparator that is dropped or replaced by a default one is invisible to them.',[HEAP,BST,AVL,XVS,BSTB],[('comparator held by the container',HEAP+': mCmp_d; '+BST+': mCmp_d; '+AVL+': mCmp_d; '+XVS+': mCmp_d'),('comparator handed on',HEAP+', '+BST+', '+AVL+', '+XVS+': copy and move semantics')])
p('C33','Exhausted memory and detected misuse stop the program','When the allocator refuses a request, an operation that needs the memory stops the program; every operation that completes, before or after the refusal, has its full effect and leaves the contents right, and nothing outside the storage held is touched. Removing from or reading the end of an empty Vector, Stack, extreme-value stack, heap or linked list (the front read excepted), indexing a Vector at or behind its size, constant lookup of an absent key in a Map and insertion of a present key into an AVL tree or a Map stop the program as well. Moving, clearing and destroying request no memory (Heap and String excepted).',['fault_sequences','histories','inputs'],'every failing request within the bound, transient or permanent, at every point of every operation history; every index behind the end, every absent or present key; platforms on which the first page is not accessible','tests never run out of memory and never misuse a container: the process would end.',[COM,SPEC,VEC,DEQ,SL,DL,LL,BT,AVL,MAP,HEAP,XVS,STR],[('null check on construction',COM+': construct, destroy'),('assertions',VEC+', '+LL+', '+SL+', '+DL+', '+MAP+', '+AVL+': DSTRUCT_ASSERT'),('stop',SPEC+': DSTRUCT_CRASH')])
p('C34','Elements of node containers and deques stay where they are','From its insertion to its own removal an element of a linked list, deque, Queue, AVL tree or Map lives at one address: pointers to it, and in AVL trees and Maps iterators too, keep denoting it whatever is inserted or removed around it, through every rebalancing and regrouping of blocks. Moving and swapping leave the elements of lists, deques, trees and Maps in place. In a search tree insertion relocates nothing and removal at most the next larger element.',H,'every history of insertions and removals within the bound with arbitrary keys, every element and every held pointer or iterator','no test keeps a pointer or an iterator across a change of the container.',[SL,DL,LL,DEQ,QUE,AVL,BT,BST,MAP],[('relinking instead of copying',AVL+': _swap_node, _delete_by_target; '+EMB+': add, del'),('blocks handed over, not elements',DEQ+': _resize')])
p('C35','An operation costs what its kind promises','The number of element comparisons and of element copies of an operation stays within its kind: logarithmic comparisons for heap push and pop and for find, insertion and removal in AVL trees and Maps, depth for search trees, linear for building a heap, n log n for sorting; amortised constant copies for Vector, Stack and extreme-value stack, constant copies for linked lists, deques and Queues, no copies for access and iteration; the requests made to the allocator, and the bytes requested, stay in proportion to the operations over every history of a sequence. Moving and swapping copy no more than a constant number of elements.',H,'arbitrary keys into containers of many sizes and shapes, every short history after every listed size; generous constant factors','tests never count; a lookup that visits every element or a push that copies the container returns the same results.',[VEC,DEQ,SL,DL,HEAP,AVL,BST,BSTB,MAP,XVS],[('paths taken',HEAP+': _adjust_up, _adjust_down; '+AVL+': _insert, _delete; '+BSTB+': _find'),('growth policy',VEC+': push_back, pop_back')])
p('C36','Recursion stays as shallow as the structure','No operation needs stack in proportion to the number of elements unless the structure itself is that deep: disjoint sets, heaps, AVL trees and Maps recurse at most logarithmically deep in their size, search trees at most once per level, and sequences, their adapters and Strings do not recurse at all. This holds for every operation, copying, clearing and destruction included.',H,'every chain, star and stride of connects and every short history of arbitrary ones; containers of many sizes filled in several orders plus arbitrary keys','tests use a handful of elements, for which a chain of calls as long as the container goes unnoticed; with a million elements it ends the process.',[UF,HEAP,AVL,BST,BT,EBT,VEC,SL,DL,LL,DEQ],[('union by rank, find',UF+': union_set, find'),('recursive walks',EBT+': *_traversal; '+BT+': copy, clear; '+AVL+': _insert, _delete')])
p('C37','Reading a container writes nothing','Reading a container (const members, iteration, traversal, lookup, copying from it, comparing, and the non-const forms of begin, index, front, back, top and find where they only read) changes no byte of the container, of its storage or of static data. So any number of readers may work at once in every schedule without locks, and a reference held by one is never disturbed by another; DisjointSet find and connected, which compress paths, are not reading.',['schedules','histories','inputs'],'every container in every state within the bound, every reading operation; absence of writes makes every interleaving of readers equivalent','tests are single-threaded, and a cached position or a lazily repaired field gives the same results to a single reader.',[VEC,ARR,SL,DL,LL,DEQ,QUE,STK,XVS,STR,HEAP,BT,BST,AVL,MAP,UF],[('const access and iteration',VEC+', '+LL+', '+DEQ+', '+BT+': const members'),('lookup',BSTB+': _find; '+MAP+': find, operator[]')])
p('C38','A size that cannot be requested is refused, never cut down','The allocator interface counts bytes as int. Whenever a container needs more than that for one request, the program stops; every other request is for exactly the bytes its elements need, the capacity reported is the capacity held, and the same size is given back on release.',['inputs','configurations'],'every 64-bit element count for construction, both forms of resize, copying and repeated resizing, several element sizes; every int for DisjointSet; growth of large elements to the limit; oversized deque blocks','tests never ask for gigabytes; a product cut to 32 bits yields a small block and writes behind it.',[VEC,UF,DEQ],[('growth',VEC+': resize, push_back'),('block size',DEQ+': _only_init, _resize')])
p('C39','Containers can hold containers','A container whose elements are themselves containers treats them as values: changing, assigning, swapping, removing or copying inner containers, or copying, moving and regrouping the outer one, affects exactly the containers named, and every inner container keeps its contents through reallocation and rebalancing. When the outer container goes, so do all inner ones, exactly once.',['histories','inputs','configurations'],'every history within the bound over many pairs (and triples) of outer and inner container kinds, with lifetime-tracked innermost elements','no test nests containers; shallow copies and missing destruction show only there.',[VEC,SL,DL,LL,DEQ,QUE,STK,XVS,STR,HEAP,AVL,BST,MAP,ARR,COM],[('elements handled by their own copy operations',COM+': construct, destroy; '+VEC+': resize; '+BT+': copy, clear'),('values created on access',MAP+': operator[]')])
p('C40','A container depends on its own history only','What a container holds and reports depends only on the operations applied to it: not on other containers, of the same type or on the same allocator, that live, change or die beside it; not on where the allocator places its storage (blocks next to each other, ascending or descending, released blocks handed out again at once); and not on what fresh storage contains.',['histories','configurations','schedules'],'every interleaving of operations on two or four containers within the bound, for five placement policies and two fillings of fresh storage, followed by the destruction of either','tests run one container at a time on malloc, whose header words keep blocks apart and whose placement is fixed for a given program; state shared between instances or addresses compared across blocks go unnoticed.',[VEC,SL,DL,LL,DEQ,QUE,STK,XVS,STR,HEAP,BT,BST,AVL,MAP,UF,COM],[('positions identified by address',DEQ+': iterators, _resize'),('links set before use',LL+': push_front; '+BST+': _insert; '+AVL+': _insert'),('state per instance',VEC+', '+HEAP+', '+XVS+': data members')])
p('C41','Elements of every type keep their value','A container of any copyable element type gives back every value exactly as it was put in, in all its bits, and keeps it at an address aligned for the type: all integer widths and signs, bool, enumerations, pointers and function pointers, floating point (as bit patterns), small, padded, large and over-aligned structures. Ordered containers order every ordered type by its own less-than over its whole range, and strings hold characters of every width and value.',['inputs','configurations','histories'],'every value of 18 element types in every sequence container through growth, access, writing, copying, moving and removal; every value of 13 ordered types (and 6 key and value pairs) in heaps, trees, Maps and extreme-value stacks','tests use int and char with small non-negative values; a narrowing, a signed comparison, a copy of the wrong size or a misplaced element of another type never shows.',[VEC,ARR,SL,DL,LL,DEQ,QUE,STK,XVS,STR,HEAP,BT,BST,AVL,MAP,COM,UT],[('construction of elements by type',COM+': construct (and its int specialisation), destroy'),('element access',VEC+', '+DEQ+', '+LL+': operator[], front, back'),('ordering',UT+': less, greater')])
p('C42','Containers stay exact far beyond every small count','The number of elements is limited by memory only: at hundreds and at tens of thousands of elements, past every power of two that a narrower counter, index, height, rank or link could hold, every container still holds exactly what was put in, in its order, counts it, finds it, copies it and gives it back. The same goes for the static allocator: pools, blocks and numbers of blocks of every such size are handled exactly.',['inputs','configurations'],'an arbitrary element at every position next to a power of two or an end, in every container of 130, 258 and (trees up to 300 in the quick tier) 66000 elements, filled and drained from every end','tests never hold more than a few dozen elements; a counter or index one byte or two bytes wide, or a growth step that goes wrong once, only shows at 128, 256, 32768 or 65536 elements.',[VEC,ARR,SL,DL,LL,DEQ,QUE,STK,XVS,STR,HEAP,BST,AVL,MAP,'core/ds/set/DisjointSet.hpp','memory/StaticMemAllocator.hpp'],[('growth',VEC+': _resize; '+DEQ+': growth of the block index'),('counters',LL+', '+DEQ+', tree headers: size members'),('ranks',  'core/ds/set/DisjointSet.hpp: union_set'),('block sizes','memory/StaticMemAllocator.hpp: size classes and pool list')])
p('C43','Threads that use different containers need no lock','No operation on a container (construction, modification, reading, copying, assignment, moving, destruction, sorting of a range) reads, writes or releases storage of any other container, copies of it included, and none writes data shared by containers, such as static variables. So threads that work on different containers need no lock against each other: every schedule gives what each thread would get alone.',['schedules','histories','inputs'],'every container kind, unrelated to another or a copy of it, with n elements and every short history of operations with arbitrary arguments, complete reading, copying, assignment, moving, destruction','the tests are single-threaded, and a hidden shared variable gives right results until two operations overlap.',[VEC,ARR,SL,DL,LL,DEQ,QUE,STK,XVS,STR,HEAP,BT,BST,AVL,MAP,'core/ds/set/DisjointSet.hpp',COM,UT],[('storage of its own',VEC+': resize; '+DEQ+': _only_init; copy and move operations of every container'),('no static state',DEQ+', '+HEAP+', '+UT+': function-local and static data')])
assert all(len(x['title'])<=80 for x in P), [x['title'] for x in P if len(x['title'])>80]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
M={'version':1,'setup_cmd':'bash setup.sh','checks':[{'property':x['id'],'quick_cmd':f"python3 check.py {x['id']} --tier quick",'thorough_cmd':f"python3 check.py {x['id']} --tier thorough",'technique':'symbolic execution of the library\'s LLVM IR with an SMT solver (bounded, exhaustive), counterexamples replayed natively','level':'model_checking','level_note':'decided for all inputs and histories within the bounds listed per entry point in harness/%s.cpp and in the evidence file; nothing is claimed beyond them'%x['id']} for x in P],'not_applicable':[],'notes':'No hooks in /repo: harnesses use the public API of the headers only. /repo carries %d fix: commits, listed in known-findings.jsonl.'%sum(1 for _ in open('/verif/known-findings.jsonl'))+''}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
