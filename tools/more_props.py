# continued from gen.py
prop('C10', 'Right iterator of a cursor yields the rest of the sequence in order',
     'Turning a cursor into iterators keeps the focused tree and gives a right iterator that yields every node after the focus exactly once, in sequence order, and then ends; folding it out applies the function to those nodes in that order, whether or not nodes are named.',
     'every tree and every cursor position', 'one test iterates from one fixed position', ['src/tree_cursor.rs'],
     [('up_discard / down_left walk', 'src/tree_cursor.rs IterR::next, into_iters, fold_out')],
     AI + ': words of the remaining sequence, loop invariants by fixpoint', TRUST + 'Trees without empty positions on the cursor path (a cursor never forced into an empty branch).', over=('inputs', 'histories'))
RZT = 'Scoped to raz trees as the library builds them: leaves hold at least one element, branch nodes have both sides and a level of at least 1 (level 0 is that of leaves). '
prop('C15', 'Tree metadata always summarises the tree\'s own branches',
     'The metadata of every raz tree (empty, from a vector, joined, mapped, built from an archive stack or unfocused) is that of its own top, and the metadata kept in every branch node built or rebuilt is computed from the actual data at the top of its left and right branch with the node\'s level and name. Leaves keep their elements when rebuilt.',
     'every tree, every metadata type', 'tests check counts of one or two fixed trees', ['src/raz.rs', 'src/tree_cursor.rs'],
     [('TreeUpdate::rebuild, treetop_meta, bin', 'src/raz.rs')], AI + ': metadata functions kept symbolic, every constructor compared with the rebuild rule', TRUST + RZT)
prop('C16', 'Counting metadata counts and positions by element index',
     'Count metadata of nothing, of a leaf and of a branch is the number of elements below it. Navigating by an index leads to the side in which that many elements precede the position, with the index relative to that side; an index past the end is rejected, the end marker always leads to the right end, and a leaf is split after exactly the given number of elements.',
     'every pair of counts and every index', 'tests focus at a few indices of one tree', ['src/raz_meta.rs'], [('Count', 'src/raz_meta.rs impl RazMeta for Count')],
     AI + ': linear arithmetic case analysis', TRUST)
prop('C17', 'Name metadata knows exactly the names below, and end positions work',
     'Names metadata of a node is the union of the names in both branches and the name given; a name leads to the side that knows it, to the node itself when both do, and nowhere otherwise. The left and right positions lead to the respective end for both Names and the trivial metadata, and split a leaf before or after all its elements.',
     'every set of names and every position', 'one test focuses by a single name', ['src/raz_meta.rs'], [('Names, ()', 'src/raz_meta.rs')],
     AI + ': set-valued map domain with loop synthesis', TRUST)
prop('C18', 'Raz tree folds see every element once and in order',
     'Every fold of a raz tree covers the whole tree: leaves contribute their elements in order, branches combine left before right (with their level and name where the fold offers them), left-to-right folds start from the initial value and pass each archive point between the data on its two sides. The empty tree gives no result, or the initial value.',
     'every raz tree, named or not, every function', 'tests sum and max one 12 element tree', ['src/raz.rs', 'src/level_tree.rs'], [('closures over the tree folds', 'src/raz.rs fold_up, fold_up_nl, fold_up_gauged, fold_lr, fold_lr_meta, fold_lr_archive')],
     AI + ': structural induction on top of the tree folds (C04, C05)', TRUST + RZT)
prop('C19', 'Raz tree map applies the function to each element in place',
     'Mapping a raz tree applies the function to every element in order, keeping leaves, levels and names, and summarises every branch and the whole tree from the mapped data.',
     'every raz tree, every function', 'one test maps one tree', ['src/raz.rs'], [('closure over Tree::map', 'src/raz.rs RazTree::map')],
     AI + ': structural induction on top of the tree map (C06)', TRUST + RZT)
prop('C20', 'Building a tree from an archive stack keeps elements and archive points',
     'Converting an archive stack to a raz tree, used as a sequence growing to the right or to the left, gives a tree whose elements and archive points (level and derived name) are those of the stack in sequence order, whose levels follow the convention and whose metadata is that of the tree; only stacks without elements give the empty tree, and the conversion never panics. memo_into is memo_from, and a value converted to its own type is itself.',
     'every archive stack, any levels and names, active section empty or not', 'tests convert two fixed stacks', ['src/raz.rs', 'src/memo.rs'],
     [('memoised mutual recursion from_stack', 'src/raz.rs MemoFrom<AtTail>, MemoFrom<AtHead>')],
     AI + ': induction hypothesis as contract of the recursive builder', TRUST + 'Archive levels between 1 and u32::MAX-1.', over=('inputs', 'histories'))
prop('C11', 'Editing a raz at its cursor is exact and leaves the other side alone',
     'A raz holds the elements to the left and to the right of its cursor. Pushing inserts exactly the given element next to the cursor on that side and reports the length of the unarchived section there; popping removes and returns exactly the element next to the cursor, reaching into the stored trees when needed, and gives nothing only when that side is empty; archiving moves no element and adds an archive point of that level and name exactly when the active section has elements. The other side never changes, and none of these panics.',
     'every raz: any stacks with archive points, any remaining trees on either side', 'tests edit near the ends of one small sequence', ['src/raz.rs', 'src/archive_stack.rs', 'src/tree_cursor.rs'],
     [('two archive stacks over two one-sided forests', 'src/raz.rs Raz push_left..archive_right')],
     AI + ': content words of stacks and forests, loop invariants by fixpoint, cursor moves by contract (C07)', TRUST + RZT, over=('inputs', 'histories'))
prop('C21', 'Looking at a raz shows the element next to the cursor and changes nothing',
     'Peeking to the left or the right of a raz cursor shows the element a pop on that side would return, nothing only when the side is empty. It needs no change to the raz and allocates or overwrites no incremental cell, so it never interferes with a computation around it.',
     'every raz: any stacks with archive points, any remaining trees on either side', 'tests peek in front of a few fixed elements', ['src/raz.rs', 'src/tree_cursor.rs'],
     [('peek by moving a copy of the cursor', 'src/raz.rs peek_left, peek_right')],
     AI + ': content words, loop invariants, cell allocation events', TRUST + RZT)
prop('C12', 'Focusing a raz tree splits its sequence at the requested place',
     'Focusing a raz tree gives a zipper whose left and right elements together are exactly those of the tree, in order, and it gives up only when the metadata rejects the position. Whatever the metadata, the search goes at each branch where the metadata says, asks further with the index it gave back, and splits the leaf reached by that index. With count metadata the zipper has exactly as many elements to its left as the index says (all of them for the end marker) and every index up to the length is found; a larger one is refused. The left and right end positions put everything on the other side, a name leads right in front of its archive point, and focusing left puts all elements to the right.',
     'every raz tree and every position', 'tests focus at a few indices of two small trees', ['src/raz.rs', 'src/raz_meta.rs', 'src/tree_cursor.rs'],
     [('metadata guided descent, cursor split', 'src/raz.rs focus, focus_left')],
     AI + ': content words, loop invariant on the position relative to the focus (linear arithmetic over word lengths), type-directed instantiation of the metadata', TRUST + RZT + 'Metadata in the tree is right (C15, C16, C17); a name occurs at most once; split_vec of a user metadata type returns two slices making up the vector. An index beyond a single-leaf tree panics as its documentation says.')
prop('C13', 'Unfocusing a raz yields exactly its elements in order',
     'Unfocusing a raz gives a tree that holds exactly the elements left of the cursor followed by those right of it, in order, wherever the cursor is and whatever is archived or still in the trees on either side; the metadata of the result is that of its own tree; and unfocusing never panics.',
     'every raz: any stacks with archive points, any remaining trees on either side', 'tests unfocus a few sequences of up to a dozen elements',
     ['src/raz.rs', 'src/tree_cursor.rs', 'src/archive_stack.rs'], [('sections joined into a tree one archive point at a time', 'src/raz.rs unfocus')],
     AI + ': content words, merged loop states with word-equation invariants, cursor moves and joins by contract (C07, C08)', TRUST + RZT, over=('inputs', 'histories'))
prop('C14', 'Unfocusing keeps every archive point in its place',
     'When the cursor is next to an element of an unarchived section, unfocusing keeps every archive point, with its level and derived name, at its place between the elements. When the cursor sits exactly on an archive point, at most that one point is lost and all the others are kept in place.',
     'every raz, split by whether the unarchived sections, the archived ones and the forests are empty', 'tests look at levels and names of one or two results',
     ['src/raz.rs', 'src/tree_cursor.rs', 'src/archive_stack.rs'], [('pending level and name carried from one section to the next', 'src/raz.rs unfocus')],
     AI + ': content words with archive points, pending-archive-point predicates in loop invariants', TRUST + RZT)
prop('C22', 'Names of one operation never collide and come from the structure itself',
     'Folding, mapping, building from archive stacks and folding out an iterator identify each memoised step and each incremental cell by a name of its own: within one operation the names used for its recursive steps and cells are pairwise different, they are all derived from the name stored in the node or archive at hand, memoised steps never use that name itself, and an unnamed node is handled without any name.',
     'every tree, archive stack and iterator, named or not', 'tests run whole computations; a collision only shows when a particular change is propagated', ['src/level_tree.rs', 'src/tree_cursor.rs', 'src/memo.rs'],
     [('memoised steps and cells', 'src/level_tree.rs fold_up_meta, fold_lr_meta, map; src/memo.rs MemoFrom; src/tree_cursor.rs fold_out')],
     AI + ': names as terms, all thunk and cell events of every trace partition compared', TRUST + 'Deriving names (forks and pairs) is injective.', over=('inputs', 'schedules'))
prop('C23', 'A memoised step is keyed on all the data it depends on',
     'Everything a memoised step of folding, mapping, converting an archive stack or folding out an iterator depends on is part of its key; only the function values of the caller are passed outside the key. A step can therefore never be reused for other data.',
     'every memoised step of the library, every run', 'stale reuse only shows for particular edits between two runs of the same computation', ['src/level_tree.rs', 'src/tree_cursor.rs', 'src/memo.rs', 'src/archive_stack.rs', 'src/skiplist.rs', 'src/trie.rs'],
     [('calls of engine::thunk', 'src/level_tree.rs, src/tree_cursor.rs, src/memo.rs')],
     AI + ' of captured and spurious values, and a type rule at every call of engine::thunk', TRUST, over=('inputs', 'histories', 'schedules'))
prop('C29', 'Generated levels are never the level of a leaf',
     'Levels drawn for new branches (gen_branch_level, inc_level and random NegBin levels) are at least 1 whatever the random numbers are; random NegBin levels are at most 64. Drawing a level never panics. For both kinds of Level (NegBin and usize) the next greater and the next lesser level are exactly one step away, and l_min and l_max are the least and the greatest value of the type.',
     'every value the random number generator can yield', 'a zero level has small probability in a faulty variant, and its effect is a structure that is merely not canonical', ['src/level_tree.rs', 'src/lib.rs', 'src/trees.rs'],
     [('gen_branch_level', 'src/level_tree.rs'), ('inc_level', 'src/lib.rs'), ('Rand for NegBin', 'src/trees.rs'), ('Level for NegBin and usize', 'src/trees.rs')],
     AI + ': bit-level abstract domain (each bit zero, one or free)', TRUST)
prop('C26', 'The skip list is a finite map',
     'A skip list maps each key to what was last set for it: after extending (putting, removing) a key, looking it up gives exactly the value set (nothing after removal), and every other key maps to what it did before, whether or not keys share hash bits or whole hashes; extending and removing return what the key mapped to before. A new list maps nothing, archiving changes no mapping, lookups change nothing, and no operation panics for a path length of at least 1.',
     'every history of updates, every assignment of hashes to keys', 'the test draws random keys of one path length and would rarely exercise colliding prefixes or collisions of whole hashes', ['src/skiplist.rs'],
     [('path-copying update and search', 'src/skiplist.rs FinMap for Skiplist: emp, ext, put, rem, get, archive; build_path_rec')],
     AI + ': induction hypothesis as contract of the recursive search, each pair of hashes of up to four bits and representative pairs of 8 to 64 bits; compositions of calls with symbolic keys and values where the representation differs', TRUST + 'Hashing is a function of the key, and equal keys have equal hashes. Path lengths up to four bits are enumerated, 8, 16, 32 and 64 by representative hashes (each first differing bit), with up to three keys per hash.', over=('inputs', 'histories'))
prop('C27', 'Cells of a skip list never share a name',
     'Each update of a skip list allocates exactly one cell, whose name is made from the current name of the list and a number not used since that name was set; archiving sets the new name for later cells. So no cell of an earlier version is ever overwritten as long as the names given are distinct. Looking up and archiving allocate nothing.',
     'every history of updates and archivings', 'overwriting a shared cell only shows when an old path is followed afterwards', ['src/skiplist.rs'],
     [('name_pair(self.name, self.cntr)', 'src/skiplist.rs ext, archive')],
     AI + ': cell events of every trace partition, names as terms, counter in linear arithmetic', TRUST, over=('inputs', 'histories'))
prop('C24', 'Equality, hashing and cloning treat every part of a value',
     'Two values of a library type are equal only if all their parts are equal, and every value equals itself. Equal values hash equally; hashing depends neither on the order of a hash map nor on random numbers. A clone equals the original in every part and cloning allocates no incremental cell. (Trie leaves are documented to be compared by the hash of their contents and are left out of the first claim.)',
     'every pair of values of every library type', 'tests compare a few equal values and hardly ever unequal ones', ['src/raz.rs', 'src/raz_meta.rs', 'src/level_tree.rs', 'src/tree_cursor.rs', 'src/stack.rs', 'src/archive_stack.rs', 'src/trie.rs', 'src/skiplist.rs', 'src/trees.rs'],
     [('change propagation stops where an old and a new value are equal', 'all implementations of PartialEq, Hash and Clone')],
     AI + ' of hand-written implementations, type-directed rule for derived ones', TRUST)
prop('C25', 'Library operations depend on nothing but their arguments',
     'No operation of the library reads the clock, the environment, random numbers, thread-local or global mutable state, hides mutable state inside its values or overwrites an existing incremental cell: its result is a function of its arguments and of the cells reached from them. Random numbers are drawn only from a generator passed in, or by inc_level, which is documented to, and nothing else in the library uses it.',
     'every function of the library and every path through it', 'a hidden dependency shows only in another process, after many calls or in another order of calls', ['src/'],
     [('pure operations under change propagation', 'every function of src/ outside tests')],
     'effect analysis over compiler MIR: calls, globals, thread-locals and field types of every body, call graph for the functions allowed to draw random numbers', 'Trusts the list of effectful functions of std, rand and adapton; adapton itself keeps the engine state.', over=('inputs', 'histories', 'schedules'))
prop('C30', 'Every sequence of the evaluation harness is one LIFO sequence',
     'The accumulator lists of the evaluation harness (List, RcList, VecList, RcVecList), the vector, the archive stack and the raz behave the same through the sequence interface: a new sequence is empty, pushing adds exactly the one given element as the newest, popping removes and returns exactly the newest element, reaching through names, articulations and archive points, and gives nothing only when the sequence is empty; archiving with or without a name or level keeps all elements in place, with a name it makes one cell of that name. None of these panics.',
     'every sequence of each kind, with names, articulations and archive points anywhere', 'tests push and pop a few elements of two of the kinds', ['eval/src/accum_lists.rs', 'eval/src/interface.rs'],
     [('list and vector-list implementations', 'eval/src/accum_lists.rs'), ('stack and raz implementations', 'eval/src/interface.rs')],
     AI + ': structural induction over the list types, content words, cell events', TRUST, over=('inputs', 'histories'))
prop('C31', 'Evaluation harnesses build, edit and compute exactly what was asked',
     'The harness types EvalVec, EvalIRaz, EvalRazNameIndex and EvalIAStack hold exactly the data given: inc_empty nothing, inc_from that data in its order, inc_init exactly size newly drawn elements. append and extend add one batch of exactly the requested number of new elements at the end, insert adds such a batch together at one place, and nothing else of the collection changes. The raz harnesses make an archive point after every datagauge-th element, counted over all edits of the harness, the points after every datagauge*namegauge-th element are named and the others are not, and no harness uses a name it made a second time. Computations are those of the library on the tree held with the functions given; for a vector they are the maximum, the reverse, the map in order and the left fold from the given value. An action runs exactly one primitive, with exactly the data, sizes, gauges and functions it was made with; Mapper, MFolder and HFolder run it in the namespace given, and finish in a different one made from that name; FFolder, MFolder and HFolder apply the finishing function once, to the result of the fold; Compute2 runs its second part on the result of its first and returns all times in order. None of these panics, for gauges of at least 1 and, for insert, a collection that is not empty (for the name index: that has a name).',
     'every collection, batch size, gauge, name, function and result; archive points for pairs of edits with small gauges and batches', 'no test reads what the harness builds; the benchmarks only time it', ['eval/src/eval_vec.rs', 'eval/src/eval_iraz.rs', 'eval/src/eval_raz_name_index.rs', 'eval/src/eval_iastack.rs', 'eval/src/actions.rs', 'eval/src/primitives.rs'],
     [('vector harness', 'eval/src/eval_vec.rs'), ('raz harnesses', 'eval/src/eval_iraz.rs, eval/src/eval_raz_name_index.rs'), ('actions', 'eval/src/actions.rs')],
     AI + ': content words of the collections over contracts of the raz operations, event order of primitives and namespaces; archive points by abstract execution at given gauges', TRUST, over=('inputs', 'histories'))
prop('C32', 'The test runners perform and record exactly the steps asked for',
     'EditComputeSequence, in both forms, creates its data once, computes on it, and then for each of the given number of changes edits the data left by the step before and computes on the edited data, and does nothing else; its result lists have one entry for the creation and for each edit, and one for each computation, in the order of the steps, the times reported by the steps in edits and computes. BuildTest builds, for each count i, one collection whose size is the multiplier to the power i, with the gauges and coordinator given, edits each of them once with the batch size given, and records the times of each in order. The element types are the numbers they wrap: GenSmall draws values below 100, Gen10k below 10,000, sums are sums and conversions keep the number. The example tree iraztree_depth_4 holds the elements 1 to 16 in order, in eight sections of two, with seven differently named archive points at the levels 1, 4, 2, 6, 3, 5, 4. None of these panics.',
     'every creator, editor, computation, multiplier and drawn number; runs of bounded numbers of changes', 'no test reads the results of a run', ['eval/src/test_seq.rs', 'eval/src/test_build.rs', 'eval/src/types.rs', 'eval/src/examples.rs'],
     [('runners', 'eval/src/test_seq.rs, eval/src/test_build.rs'), ('element types', 'eval/src/types.rs'), ('example', 'eval/src/examples.rs')],
     AI + ': order and operands of the steps over contracts of creators, editors and computations, at given numbers of changes', TRUST, over=('inputs', 'histories'))
prop('C33', 'Work below named parts is memoised',
     'Folding a tree up or left to right and mapping it do the recursion on each branch of a named node as a memoised step on that branch; folding out an iterator does the rest after a named node as a memoised step; building a tree from an archive stack does the part from each named archive point on as a memoised step. So after an edit, a part below an unchanged name can be reused instead of being computed again.',
     'every tree, iterator and archive stack, named or not', 'results are the same without memoisation, only reuse is lost, and no test counts reused steps', ['src/level_tree.rs', 'src/tree_cursor.rs', 'src/raz.rs', 'src/memo.rs'],
     [('memoised recursion', 'src/level_tree.rs fold_up_meta, fold_lr_meta, map; src/tree_cursor.rs fold_out; src/raz.rs MemoFrom')],
     AI + ': each recursive call matched with the memoised step that makes it, on every trace partition', TRUST, over=('inputs', 'histories'))
prop('C28', 'A trie made from a hash map holds exactly that map',
     'The empty trie holds nothing; a trie made from a hash map holds exactly that map. Searching a leaf gives what its map has for the key, searching a branch gives what searching the branch on the side of the lowest bit of the hash gives with the remaining bits, left for 0, and never panics. The union with an empty trie is the other trie, and the union of two tries does not panic.',
     'every map, key, hash and trie', 'no test uses the tries at all', ['src/trie.rs'],
     [('hash trie', 'src/trie.rs find, empty, from_hashmap, union')],
     AI + ': structural induction over the trie, map domain', TRUST + ' The union of two tries that are not empty is unfinished in the code and a recorded finding; tries with branches cannot be built through the public interface.', over=('inputs',))
