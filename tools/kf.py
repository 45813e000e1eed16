import json,subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s','caa7587..HEAD'],text=True).strip().split('\n')
M=[('copying a Vector must','C22','copying a Vector destroyed target slots that were never constructed'),
('Vector::push_back and resize','C29','v.push_back(v[i]) and v.resize(n, v[i]) read the element after its storage was released'),
('copying a SinglyLinkedList','C19','a copied list kept the source tail and lost elements on the next push_back'),
('SinglyLinkedList::push and pop','C06','push_front on an empty list / popping the last element left the tail dangling'),
('moving an empty linked','C20','moving from an empty list left target and source pointing into the source'),
('DisjointSet::connect','C17','connecting two already connected elements made a root its own child and changed the count'),
('XValueStack survives','C11','push 1, push 1, pop lost the minimum: ties were not saved but were restored'),
('BasicString("")','C18','BasicString("") read behind the terminator and had size 1'),
('a moved-from BasicString','C20','a moved-from String had no terminator and size -1'),
('BasicString += itself','C18','s += s never terminated'),
('DoubleEndedQueue compiles with','C21','deque with a custom allocator did not compile / took its map table from the default allocator'),
('begin() == end() for a Double','C23','begin() != end() for a deque that was never filled or was cleared'),
('a moved-to DoubleEndedQueue','C20','iterators of a moved-to deque walked the map table of the source'),
('DoubleEndedQueue does not construct','C22','deque blocks constructed elements nobody pushed; they were never destroyed'),
('BinarySearchTree deletes a node','C12','removing a node with two children removed or kept the wrong element'),
('BinarySearchTree::pop of an absent','C12','pop of an absent key dereferenced null / changed the size'),
('BinarySearchTree::push of an element','C12','push of a present key increased size()'),
('BinarySearchTree::erase finds','C13','erase computed the wrong node address for over-aligned elements'),
('copying a BinarySearchTree','C19','copying a BST did not compile / assigned into unconstructed nodes'),
('begin() of an empty tree','C23','begin() of an empty tree dereferenced null'),
('in-order and post-order','C24','in-order and post-order callback traversal recursed in pre-order order below the root'),
('post-order iteration','C24','post-order iteration skipped subtrees below right children'),
('AVLTree::begin/end honour','C24','AVLTree::begin/end ignored the requested traversal'),
('AVLTree and Map can be copied','C19','AVLTree and Map could not be copied or moved'),
('AVLTree::pop of an absent','C14','pop of an absent key decreased size()'),
('AVLTree::erase of the root','C13','erasing the root left the root pointer dangling'),
('AVLTree::erase and Map::erase','C13','erase did not compile for elements that can not be assigned (every Map entry)'),
('Map::operator[] const','C16','constant indexing did not compile'),
('StaticMemAllocator hands out','C25','blocks and list nodes were misaligned (pool alignment 4)'),
('StaticMemAllocator rejects','C26','allocate(0), negative and huge sizes corrupted the free lists and the accounting'),
('DoubleEndedQueue gives memory','C31','a short deque doubled its storage with every push/pop round and never shrank'),
('XValueStack::push accepts','C29','push of an element of the stack itself read released storage'),
('DoubleEndedQueue tells apart','C27','with blocks next to each other in static memory, deque iteration ended early and a resize could drop all elements'),
('memory_merge finds','C26','memory_merge missed an adjacent block of another size class behind a lower one'),
('disjoint set attaches','C36','sets joined in a row became chains (indices were compared instead of ranks): find in a chain of 1000000 elements overflowed the stack'),
('a Heap moved to itself','C20','a heap assigned to itself by move lost all its elements'),
('a request for more bytes','C38','Vector::resize(1u << 30) of ints requested 0 bytes, and the next push wrote behind the block')]
out=[]
for h,s in (l.split(' ',1) for l in reversed(log)):
    m=[x for x in M if s.startswith('fix: '+x[0])]; assert len(m)==1,(s,m)
    out.append({'status':'fixed','property':m[0][1],'commit':h,'text':f'fixed: property={m[0][1]} {h} {m[0][2]}'})
open('/verif/known-findings.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in out)); print(len(out))
