#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are maintained here)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("P01","Behaves as an ordered map over every history",
  "After any sequence of insertions, lookups, in-place updates and removals, every lookup returns the value most recently stored under that key and nothing for a key that is absent, every insertion returns the value it replaced (or nothing when the key is new, keeping the originally stored key when it is not), and the reported length and emptiness equal the number of distinct keys present. No such sequence panics or fails to terminate. This holds however many levels the tree has and however sparse removals have left it.",
  ["histories","inputs"],
  "every key, value and operation sequence, over every shape of tree such sequences can build",
  "The random test uses one-byte keys with 64-entry nodes, so it never leaves a two-level tree and never empties an inner node; the other tests insert or delete consecutive integers. Wrong separator keys, splits of inner nodes and insertion into gaps left by removal in deeper trees are never reached.",
  ["src/lib.rs","src/branch.rs","src/leaf.rs","src/search.rs","src/entry.rs","src/array.rs"],
  [("search down by high keys","src/branch.rs Branch::get / get_mut, src/search.rs find_key, walk_path, path_for"),
   ("insert with node splitting","src/search.rs PathedPointer::insert, push_last; src/entry.rs VacantEntry::insert; src/lib.rs split_root"),
   ("size bookkeeping","src/lib.rs PalmTree::remove, src/entry.rs VacantEntry::insert, OccupiedEntry::remove_entry")],
  [("size","number of entries","src/lib.rs PalmTree"),("keys","upper bound of each child","src/branch.rs Branch")],
  ["PalmTree::insert","get","get_mut","remove","len","is_empty","Index","iter"])

p("P02","Removal takes exactly one entry and leaves the rest usable",
  "Removing a key, or the lowest or highest entry, hands back exactly the stored key and value of that entry, and nothing when there is no such entry. All other entries stay reachable by lookup, by iteration and by range, and the key can be inserted again later. This holds up to and including the removal of every entry, in any order, from a tree of any depth.",
  ["histories","inputs"],
  "every initial content and every order of removals, with insertions in between",
  "Tests remove ascending runs from trees where the emptied inner nodes are never inserted into or searched again; emptying an inner node's last child and then inserting, searching or ranging in the gap is not exercised.",
  ["src/lib.rs","src/search.rs","src/leaf.rs","src/branch.rs","src/array.rs"],
  [("remove through a path, unlinking emptied nodes","src/search.rs PathedPointer::remove"),
   ("lowest / highest path","src/search.rs PathedPointer::lowest, highest"),
   ("array removal","src/array.rs Array::remove, src/leaf.rs remove_unchecked")],
  [("stack","path from root to the entry","src/search.rs PathedPointer")],
  ["PalmTree::remove","remove_lowest","remove_highest","OccupiedEntry::remove","iter","range"])

p("P03","An entry handle is equivalent to lookup plus insert or remove",
  "Asking for the entry of a key reports it occupied exactly when the key is present; an occupied entry exposes the stored key and value and can replace, mutate or remove exactly that entry; a vacant entry exposes the given key, inserts exactly that pair and returns a reference to the value it stored. An entry that is dropped unused changes nothing. Reference, length and contents agree afterwards, including when the insertion splits nodes on any number of levels.",
  ["histories","inputs"],
  "every tree shape, every key and every way of using the handle",
  "The two entry tests walk consecutive integers; the reference returned by a vacant insertion that splits several levels, and entries for keys in gaps between nodes, are not checked.",
  ["src/entry.rs","src/search.rs","src/lib.rs"],
  [("cursor kept in the handle","src/entry.rs Entry::new, src/search.rs PathedPointer::exact_key"),
   ("insertion result cursor","src/search.rs PathedPointer::insert -> value_mut; src/entry.rs VacantEntry::insert")],
  [("cursor","leaf and index of the entry","src/entry.rs")],
  ["PalmTree::entry","VacantEntry","OccupiedEntry"])

p("P04","Iteration yields every entry once, in order, from both ends",
  "Iterating over a tree, by shared or mutable reference, yields every entry exactly once in ascending key order from the front and descending order from the back, under every interleaving of front and back steps and of the standard iterator methods (nth, last, count, folding, collecting, size hint and so on), and then keeps returning nothing. A copy of a shared iterator continues independently from the same position. This holds for every tree that insertions and removals can produce, including emptied ones.",
  ["histories","inputs"],
  "every tree shape and every interleaving of next and next_back",
  "Tests drain a bulk-loaded tree purely forward or purely backward; interleavings and sparse deep trees are not tried.",
  ["src/iter/ref_iter.rs","src/iter/mut_iter.rs","src/iter/mod.rs","src/search.rs"],
  [("stepping a path forward and back","src/search.rs PathedPointer::step_forward, step_back"),
   ("end detection by comparing both ends","src/iter/ref_iter.rs Iter::next, next_back; src/iter/mut_iter.rs")],
  [("left,right","both ends of what remains","src/iter")],
  ["iter","iter_mut","IntoIterator for &PalmTree and &mut PalmTree","Iter::clone"])

p("P05","A range yields exactly the entries within its bounds",
  "For every combination of included, excluded and open bounds, a range over the tree yields exactly the entries whose keys lie within the bounds, in order, from either end, under any interleaving and with every standard iterator method, by shared and by mutable reference, whether or not the bounds are keys in the tree. It panics exactly when the start is greater than the end, or both bounds exclude the same key. This holds for every tree that insertions and removals can produce.",
  ["histories","inputs"],
  "every tree shape, every pair of bounds of every kind, every interleaving of next and next_back",
  "The random test uses only start-inclusive, end-exclusive ranges over two-level trees, and tests cover one inclusive end bound that is a key of the tree; bounds in gaps, excluded starts and bounds falling in regions emptied by removal are not settled.",
  ["src/iter/mod.rs","src/search.rs","src/iter/ref_iter.rs","src/iter/mut_iter.rs"],
  [("bounds to paths","src/iter/mod.rs paths_from_range"),
   ("bound searches","src/search.rs key_or_higher, higher_than_key, key_or_lower, lower_than_key, find_key_or_next, find_key_or_prev")],
  [],["range","range_mut"])

p("P06","Mutable references reach exactly the entry they were asked for",
  "A write through a mutable lookup, index, iterator, range or entry changes the value of exactly the entry it was obtained for, is seen by every later read, and changes no other entry and no key. A mutable iterator or range never hands out two references to the same value.",
  ["histories","inputs"],
  "every tree shape, key, range and subset of values written",
  "The existing tests never write through a mutable iterator, range, entry or lookup.",
  ["src/lib.rs","src/branch.rs","src/leaf.rs","src/search.rs","src/iter/mut_iter.rs","src/entry.rs"],
  [("mutable descent","src/branch.rs Branch::get_mut, src/leaf.rs Leaf::get_mut"),
   ("mutable cursor access","src/search.rs value_mut, into_entry_mut; src/iter/mut_iter.rs")],
  [],["get_mut","IndexMut","iter_mut","range_mut","OccupiedEntry::get_mut","into_mut"])

p("P07","Consuming a tree yields every entry once from both ends",
  "Turning a tree into an iterator hands over every entry exactly once, ascending from the front and descending from the back, under every interleaving of steps and standard iterator methods, with the exact remaining count reported at every step, and then keeps returning nothing. It always terminates, and abandoning it part-way releases the remaining entries.",
  ["histories","inputs"],
  "every tree shape, every interleaving of next and next_back and every point of abandonment",
  "The only test drains a bulk-loaded tree forward; taking from the back of a tree with more than one leaf is never done.",
  ["src/iter/owned.rs","src/leaf.rs","src/search.rs"],
  [("draining leaves from both ends","src/iter/owned.rs OwnedIter::next, next_back; src/leaf.rs pop_front, pop_back")],
  [("remaining","entries not yet handed over","src/iter/owned.rs")],
  ["IntoIterator for PalmTree","OwnedIter::size_hint","ExactSizeIterator::len"])

p("P08","Bulk construction equals inserting one by one",
  "Building a tree from an ascending sequence, from a standard ordered map, by collecting or by extending gives a tree with the same contents, length and later behaviour as inserting the pairs one at a time into the same starting tree, for every number of entries. Bulk loading a sequence that is not strictly ascending panics in debug builds.",
  ["inputs"],
  "every number of entries (so every combination of full, partial and single-child nodes on each level) and every key order",
  "Loads in tests have round sizes (64, 65536, 131072) and only lookups or iteration follow; the unordered-input check is never tested.",
  ["src/lib.rs","src/branch.rs","src/leaf.rs"],
  [("bottom-up load","src/lib.rs PalmTree::load, push_stack, trim_root"),
   ("ordering validation in debug builds","src/lib.rs PalmTree::load last_record"),
   ("element-wise construction","src/lib.rs FromIterator, Extend, From<BTreeMap>")],
  [],["load","From<BTreeMap>","FromIterator","Extend"])

p("P09","Merging and appending compute a biased union",
  "Merging two trees, appending one to another or adding them yields exactly the union of their keys in ascending order; for a key in both, the whole entry comes from the left tree for left-biased operations and from the right tree for right-biased ones, and addition is right-biased. This holds for any two trees, including empty, emptied, disjoint, overlapping and equal ones, and the result behaves as any other tree.",
  ["inputs","histories"],
  "every pair of trees and every relative order and overlap of their keys",
  "No test exercises merging, appending or addition at all.",
  ["src/lib.rs","src/iter/merge.rs","src/iter/owned.rs"],
  [("two-way merge with equality skipping","src/iter/merge.rs MergeIter"),
   ("bias comparators","src/lib.rs merge_left_from, merge_right_from"),
   ("in-place append","src/lib.rs append_left, append_right, AddAssign")],
  [],["merge_left","merge_right","merge_left_iter","merge_right_iter","append_left","append_right","Add","AddAssign"])

p("P10","Every key and value is owned once and released once",
  "Over every sequence of operations, each key and value given to or copied by the tree is released exactly once: never twice, never while still stored or after it was handed back, and never forgotten once the tree and its iterators are gone. No operation reads memory that is uninitialised, released or out of bounds, and all node memory is returned.",
  ["histories","inputs"],
  "every sequence of safe operations, including partly consumed and abandoned iterators",
  "All tests use plain integers, for which leaks, double releases and stale reads are invisible.",
  ["src/array.rs","src/leaf.rs","src/branch.rs","src/branch/node.rs","src/pointer.rs","src/search.rs","src/iter/owned.rs"],
  [("manual element moves","src/array.rs insert, insert_pair, remove, pop, steal_from"),
   ("node drop","src/leaf.rs Drop, src/branch.rs Drop, src/branch/node.rs"),
   ("type-erased pointers","src/pointer.rs")],
  [("length","initialised prefix of each array","src/leaf.rs, src/branch.rs")],
  ["Drop of keys, values and nodes during any API call"])

p("P11","A clone is independent of its original",
  "After cloning a tree, with any of the pointer kinds, nothing done to either tree through any operation - insertion, removal, entries, mutable lookup, mutable iteration or ranges, consumption, merging, appending - changes what the other one contains or how it behaves. Both start equal, and each keeps working after the other is gone.",
  ["histories","inputs","configurations"],
  "every tree shape, every pointer kind, every operation on either copy, in either order",
  "Tests only use the exclusively owned pointer kind and only clone to consume the copy; the sharing pointer kinds are never instantiated.",
  ["src/lib.rs","src/pointer.rs","src/branch.rs","src/search.rs","src/iter/owned.rs","src/iter/mut_iter.rs","src/entry.rs"],
  [("copy on write","src/pointer.rs Pointer::make_mut, PointerKind::clone; src/branch.rs Branch::clone"),
   ("un-sharing before mutation","src/lib.rs, src/entry.rs, src/iter")],
  [],["Clone for PalmTree with Unique, Shared and SyncShared"])

p("P12","Results do not depend on node sizes, pointer kind or element type",
  "For every supported node size (four and up, even or odd, equal or different for inner and leaf nodes), every pointer kind, and every key or value type including zero-sized and over-aligned ones, the same sequence of operations gives the same results.",
  ["configurations","histories","inputs"],
  "every supported configuration and element layout, with any operation sequence",
  "Tests instantiate a single configuration: 64-entry nodes, exclusively owned pointers, integer elements.",
  ["src/config.rs","src/array.rs","src/branch.rs","src/leaf.rs","src/pointer.rs","src/branch/node.rs"],
  [("node size parameters","src/config.rs TreeConfig"),("splitting at half the length","src/branch.rs Branch::split, src/leaf.rs Leaf::split"),
   ("type-erased child pointers","src/branch/node.rs Node, src/pointer.rs cast_into")],
  [],["PalmTree<K, V, C> for user-defined C: TreeConfig"])

p("P13","Comparison, hashing and printing depend on contents alone",
  "Two trees compare equal exactly when they hold the same entries, however they were built and whatever was removed on the way; equal trees hash alike and print alike; ordering between trees is the lexicographic ordering of their entry sequences, and all comparison forms agree with each other.",
  ["histories","inputs"],
  "every pair of contents and every pair of histories leading to them",
  "No test compares, hashes or prints trees.",
  ["src/lib.rs","src/iter/ref_iter.rs"],
  [("element-wise comparison","src/lib.rs PartialEq, Eq, PartialOrd, Ord, Hash, Debug")],
  [],["==","cmp","partial_cmp","Hash","Debug"])

p("P14","Pointer kinds keep the owned-pointer contract",
  "For each of the three pointer kinds and any pointee type: reading yields the value stored; a mutable borrow changes it for this handle only, leaving every clone as it was; converting to a raw pointer and back is the identity; cloning then dropping in any order releases each value exactly once and never touches released memory.",
  ["inputs","histories","configurations"],
  "every value, every pointee layout in the stated list and every short sequence of clone, write, convert and drop",
  "The thread-safe and reference-counted kinds are never instantiated by any test.",
  ["src/pointer.rs"],
  [("type-erased Box, Rc and Arc","src/pointer.rs Unique, Shared, SyncShared")],
  [],["PointerKind trait methods of Unique, Shared, SyncShared"],
  "cfg(kani) around the prefetch intrinsic in src/arch.rs, whose nightly form does not compile under the model checker's compiler")

p("P15","The merge iterator is a lazy stable two-way merge",
  "Given two iterators that are ascending under the supplied ordering test, the public merge iterator yields every element of either exactly once in ascending order, except that for elements the supplied equality test pairs up only one of the two is yielded - the one the ordering test prefers. It takes elements from its inputs one at a time and keeps returning nothing after both are exhausted. The standard iterator methods and its size hint agree with what stepping yields.",
  ["inputs"],
  "all pairs of ascending sequences, every overlap, strict and non-strict ordering tests",
  "No test uses it.",
  ["src/iter/merge.rs"],
  [("choice and equality skip","src/iter/merge.rs MergeIter::merge, choose_next, check_eq, next")],
  [("next","which side is due","src/iter/merge.rs")],
  ["MergeIter::merge","Iterator for MergeIter"])

p("P16","The alternative insertion and lookup agree with the standard ones",
  "Recursive insertion and linear lookup give the same results as ordinary insertion and lookup, leave trees that behave identically under every later operation, and can be mixed freely with all other operations, on any tree including full, sparse and emptied ones.",
  ["histories","inputs"],
  "every tree shape, key and mixture of both forms",
  "No test calls either; they are only benchmarked.",
  ["src/lib.rs","src/branch.rs","src/leaf.rs","src/search.rs"],
  [("recursive insertion","src/lib.rs insert_recursive, src/branch.rs Branch::insert, src/leaf.rs Leaf::insert"),
   ("linear search","src/search.rs find_key_linear, src/branch.rs get_linear, src/leaf.rs get_linear")],
  [],["insert_recursive","get_linear"])

p("P17","A panic in user code never corrupts memory",
  "If a key comparison, the cloning or destruction of a key or value, or an iterator supplied by the user panics at any point of any operation, then afterwards no key or value is released twice, none is used after release, and the tree can still be searched, iterated and dropped without touching invalid memory. A tree on which only lookups, iteration or a failed search were interrupted is unchanged.",
  ["fault_sequences","histories","inputs"],
  "every point at which a user callback can panic, in every operation, on every tree shape",
  "No test uses a panicking callback.",
  ["src/array.rs","src/branch.rs","src/leaf.rs","src/search.rs","src/entry.rs","src/lib.rs"],
  [("moves and lengths updated around callbacks","src/array.rs clone, clone_with; src/search.rs PathedPointer::insert, push_last; src/branch.rs Clone")],
  [],["any operation whose K: Ord + Clone + Drop or V: Clone + Drop implementation, or whose source iterator, panics"])

p("P18","An inconsistent ordering never corrupts memory",
  "If the key type's comparison gives arbitrary, inconsistent answers, operations may return arbitrary results or panic but never release a key or value twice, use one after release, or touch invalid memory, and they terminate.",
  ["inputs","histories","fault_sequences"],
  "every sequence of answers the comparison can give",
  "No test uses an inconsistent ordering.",
  ["src/search.rs","src/branch.rs","src/leaf.rs","src/entry.rs","src/iter/owned.rs"],
  [("index computations bounded independently of answers","src/search.rs find_key, find_key_or_next, find_key_or_prev; src/leaf.rs binary_search results")],
  [],["insert","get","remove","entry","iter","into_iter with an arbitrary Ord"])

p("P19","Trees cross threads only when their contents may",
  "A tree can be sent to or shared with another thread only if its keys, values and pointer kind allow that; in particular trees of non-thread-safe keys or values and reference-counted trees stay on their thread.",
  ["programs"],
  "every key, value and pointer-kind type",
  "Unit tests cannot assert that a program is rejected for every element type.",
  ["src/pointer.rs"],
  [("unsafe Send/Sync impls","src/pointer.rs Pointer")],
  [],["Send and Sync of PalmTree"])

p("P20","Thread-safe trees can be shared across threads",
  "Clones of a thread-safe tree held by different threads, or one such tree read by several threads through shared references, can be read, cloned, changed, consumed and dropped concurrently: under every schedule, and everything the memory model lets a thread see, each operation returns what it would if each thread had a copy of its own, no two accesses race, nothing panics, and every value and every block of memory is released exactly once.",
  ["schedules","inputs"],
  "every interleaving of operations on clones, or on one shared tree, in different threads, and all keys",
  "No test is multi-threaded, and a test runs one schedule of many.",
  ["src/pointer.rs","src/lib.rs","src/branch.rs","src/search.rs","src/iter/owned.rs"],
  [("atomic reference counting","src/pointer.rs SyncShared"),("copy before write","src/pointer.rs make_mut; src/search.rs"),("thread-safe reads","src/lib.rs get, iter, clone")],
  [],["SyncPalmTree clones on different threads","&SyncPalmTree shared by threads"])

p("P21","Nothing is copied unless it is shared",
  "Looking at a tree (lookup, iteration, ranges, comparing, hashing, printing) never clones a key or value. Building, updating, merging or consuming a tree that shares nothing with a clone moves its values and never clones one, and writing through references or consuming it clones no key either. Cloning a tree whose pointer kind is shared clones no key or value (with the unique kind each value once), and all later changes to the two trees together clone each value at most once.",
  ["inputs","histories"],
  "every history of clones and operations, on every tree shape and pointer kind",
  "No test counts clones, and results are the same when something is copied needlessly.",
  ["src/pointer.rs","src/branch.rs","src/leaf.rs","src/search.rs","src/lib.rs","src/iter/owned.rs","src/iter/mut_iter.rs","src/entry.rs"],
  [("copy on write","src/pointer.rs make_mut; src/branch.rs Clone"),("moving between nodes","src/array.rs steal_from, push, pop, insert_pair")],
  [],["clones made of keys and values by each operation"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
