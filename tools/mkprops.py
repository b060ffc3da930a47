#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles and statements)."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/mathic/"+f for f in files],
            **({"state":[dict(name=a,meaning=b,where="src/mathic/"+c) for a,b,c in state]} if state else {}),
            mechanism=[dict(name=a, where="src/mathic/"+b) for a,b in mech],
            **({"observe_at":observe} if observe else {}))))

p("Q01","Binary-heap queue returns a maximum and conserves its entries",
  "For every sequence of single and range pushes, pops, replacements of the top entry, and clears on the heap priority queue (deduplication off), reading or popping the top yields an entry that no stored entry exceeds in the configured order, and the stored entries are always exactly the multiset pushed (with replacements applied) minus those popped. Size, emptiness and traversal of all entries agree with that multiset.",
  ["inputs","histories","configurations"],"all entry types with a strict weak order, all operation histories, both index modes",
  "No test in the suite instantiates the heap; a sampled history cannot cover all tree shapes and tie patterns.",
  ["Heap.h","ComTree.h"],[("sift the hole down to a leaf, then the value up","Heap.h: Heap::moveHoleDown / moveValueUp"),("push/pop/decreaseTop","Heap.h: Heap::push, pop, decreaseTop")],
  [("_tree","complete binary tree; no entry exceeds its parent","Heap.h: Heap::_tree")])
p("Q02","Tournament-tree queue returns a maximum and conserves its entries",
  "For every sequence of single and range pushes, pops, replacements of the top entry, and clears on the tournament-tree priority queue, reading or popping the top yields an entry that no stored entry exceeds in the configured order, and the stored entries are always exactly the multiset pushed (with replacements applied) minus those popped. Emptiness and traversal of all entries agree with that multiset.",
  ["inputs","histories","configurations"],"all entry types with a strict weak order, all operation histories, both index modes, across capacity growth",
  "No test instantiates the tournament tree; pointers between leaves and players survive growth only by argument, not by sampling.",
  ["TourTree.h","ComTree.h"],[("replay of matches on the path to the root","TourTree.h: TourTree::push, pop, decreaseTop"),("growth keeps player pointers valid","TourTree.h: TourTree::reallocate")],
  [("_tree/_players","every inner node points to the winner of its two children; leaves and players point to each other","TourTree.h")])
p("Q03","Geobucket queue returns a maximum and conserves its entries",
  "For every configuration of the geobucket priority queue without deduplication (front tracking, premerging, collapsing the maximum, bucket storage, bucket base and minimum size) and every sequence of single pushes and pushes of ranges in descending order, pops, replacements of the top entry, and clears, reading or popping the top yields an entry that no stored entry exceeds, and the stored entries are always exactly the multiset pushed (with replacements applied) minus those popped. Size and emptiness agree with that multiset.",
  ["inputs","histories","configurations"],"all flag combinations, all entry sequences, all interleavings of operations",
  "No test instantiates a geobucket; the flag combinations select different code and the merge cascades depend on the history.",
  ["Geobucket.h","GeoFront.h"],[("merge into the smallest bucket with room","Geobucket.h: Geobucket::insert"),("front tracking","GeoFront.h: GeoFront<C,true>, GeoFront<C,false>"),("bucket merge","Geobucket.h: Geobucket::merge, mergeToNonEmpty, mergeToEmpty, moveToEmpty, addBucket")],
  [("buckets","each bucket sorted with its largest entry last","Geobucket.h"),("front","points to a bucket holding an overall maximum","GeoFront.h")])
p("Q04","Ordered-set queue returns a maximum and conserves its entries",
  "For every sequence of single and range pushes and pops on the ordered-set priority queue, reading or popping the top yields an entry that no stored entry exceeds in the configured order, and the stored entries are always exactly the multiset pushed minus those popped, entries that compare equal included. The queue is empty exactly when that multiset is.",
  ["inputs","histories"],"all entry types with a strict weak order and all operation histories",
  "No test instantiates this queue.",
  ["StlSet.h"],[("insertion into an ordered multiset, erase of its first element","StlSet.h: StlSet::push, pop, top, empty")])
p("Q05","Deduplicating queues combine equal entries without losing content",
  "With deduplication enabled, the heap and the geobucket may replace two stored entries that compare equal by the configured combination of the two and by nothing else, so the total content of the queue (entries mapped into any commutative accumulation that the combination respects) equals the content pushed minus the content popped. The top is still a maximum, and the reported size is the number of entries stored.",
  ["inputs","histories","configurations"],"both queues, all configurations with deduplication, all histories with ties at any position",
  "No test enables deduplication; the interesting histories combine ties deep in the structure with partially moved paths.",
  ["Heap.h","Geobucket.h","GeoFront.h"],[("restore moved entries then reuse the last one","Heap.h: Heap::moveValueUp"),("dedup during merges and in the front","Geobucket.h: Geobucket::merge; GeoFront.h: GeoFront insertion and maximum search")])
p("Q06","Queues touch only storage they own and release all of it",
  "No sequence of valid operations on the priority queues and the complete-tree storage reads or writes outside the storage they own, uses storage after release, releases storage twice or leaks it, including across growth, clearing, copying, moving and swapping where these are offered.",
  ["inputs","histories","configurations"],"all histories, capacities and growth steps",
  "The suite never instantiates these classes, and memory errors appear only at particular sizes.",
  ["ComTree.h","Heap.h","TourTree.h","Geobucket.h","GeoFront.h"],[("growth copies all entries then swaps","ComTree.h: ComTree::increaseCapacity"),("bucket growth and release","Geobucket.h: Geobucket::addBucket; GeoFront.h: reserveCapacity")])
p("T01","Complete-tree storage: index algebra and contents are those of the tree",
  "In the complete binary tree storage, in both index modes, the parent of each child is the node itself, siblings and next/previous are mutually inverse, and every node in use maps to its own distinct entry slot. Appending, removing the last entry, growing, copying, moving, swapping and clearing preserve every other entry at its position, and a moved-from or cleared tree is empty and usable.",
  ["inputs","histories","configurations"],"all node indices, sizes, capacities; entry sizes that are powers of two in fast mode and any size otherwise",
  "No test uses the tree directly.",
  ["ComTree.h"],[("index arithmetic","ComTree.h: ComTree::Node"),("growth, copy, move","ComTree.h: constructors, increaseCapacity, swap")])
p("T02","Triangular bit array behaves as independent cells",
  "The triangular bit array behaves as a map from all pairs row < column < columns to bits: adding a column yields new cells all false and changes no existing cell, setting a cell changes exactly that cell, and the unordered accessors address the cell of the larger and the smaller index in whichever order they are given.",
  ["inputs","histories"],"all column counts, all cells, all orders of set, add and read",
  "One test fills a small triangle with a fixed pattern; independence of all cells in all histories is not sampled.",
  ["BitTriangle.h"],[("column vectors","BitTriangle.h: addColumn, bit, setBit, bitUnordered, setBitUnordered")])
p("T03","Hash table is a map with stable handles",
  "The hash table behaves as a finite map under the configured key equality: inserting an absent key stores it and reports success, inserting a present key reports failure, returns the existing entry and leaves its value alone, and lookup finds exactly the present keys, and removing through a handle removes exactly that key. Handles stay valid and keep their key and value while other keys are inserted or removed, including across growth, for every hash function consistent with equality.",
  ["inputs","histories","configurations"],"all key sequences, hash functions with arbitrary collisions, initial table sizes",
  "Two tests insert a handful of keys with well-behaved hashes.",
  ["HashTable.h"],[("chain walk on insert, lookup and removal","HashTable.h: insert, lookup, remove"),("rehash of all chains","HashTable.h: grow")],
  [("mHashTable","bin i holds exactly the nodes whose masked hash is i","HashTable.h")])
p("R01","Pair queue yields pairs in order, each live pair exactly once",
  "For every history of adding columns, popping and retiring indices, the pair queue's top is a pair that no other remaining pair precedes in the configured order, and every pair that is added is popped exactly once unless one of its indices was retired before. No pair involving a retired index is returned after the retirement.",
  ["inputs","histories","configurations"],"all column contents in the required order, all interleavings of add, pop and retire",
  "Tests exercise a few fixed column layouts; interleaved retirements and ties are sampled at a handful of points.",
  ["PairQueue.h"],[("columns merged through a tournament tree","PairQueue.h: addColumnDescending, pop"),("retired rows are skipped","PairQueue.h: Column::incrementRowIndex, retireIndex")])
p("R02","Pair queue pair data is created for and destroyed with its pair",
  "For every history with a configuration that does not throw, each pair-data object that the pair queue constructs is destroyed exactly once and for the pair of indices it was computed for, the data returned for the top pair was computed for exactly that pair of indices, and destroying or emptying the queue leaves none alive.",
  ["inputs","histories"],"all histories of add, peek, pop, retire and destruction",
  "One test counts constructions on one short history.",
  ["PairQueue.h"],[("construct/compute/destruct of pair data","PairQueue.h: Column constructors, incrementRowIndex, setTop..., ~PairQueue")])
p("D01","Divisor masks never rule out a true divisor",
  "Whenever one exponent vector divides another, the divisibility-mask test of their masks, computed by the same calculator, does not rule the division out; this holds for every number of variables and however the calculator was built, from any set of entries or by default, and combining masks by intersection never makes a mask test reject what it must admit.",
  ["inputs","configurations"],"all variable counts, all exponent vectors, all calculator states reachable by rebuilding",
  "No test computes a mask; a wrong bit shows only for particular exponents against particular thresholds.",
  ["DivMask.h","DivMask.cpp"],[("bit i is set iff exponent of its variable exceeds its threshold","DivMask.h: Calculator::compute"),("a & ~b == 0","DivMask.h: canDivide")])
p("D02","List divisor search is exact",
  "For every list of entries, option setting (sorted, masks, storage kind) and query, the list divisor finder returns a divisor exactly when a stored entry divides the query and the entry returned is stored and divides it; the all-divisors and all-multiples searches report exactly the stored entries that divide, or are multiples of, the query, each once, and stop as soon as the receiver asks.",
  ["inputs","histories","configurations"],"all entry sets, queries, option settings, insertion orders and rebuild points",
  "No test queries a list finder.",
  ["DivList.h","DivMask.h"],[("linear or sorted scan with mask pre-check","DivList.h: findDivisor, findAllDivisors, findAllMultiples")])
p("D03","List removal removes exactly the requested entries",
  "Removing multiples from the list divisor finder removes exactly the stored multiples of the given entry and reports each removed entry once, removing an element removes one stored equal entry and tells whether there was one, and insertion, rebuild and moving to the front keep all and only the remaining entries; size agrees.",
  ["inputs","histories","configurations"],"all entry sets, orders and option settings",
  "No test removes from a list finder.",
  ["DivList.h"],[("compaction during removal","DivList.h: removeMultiples, removeElement, insert, rebuild")])
p("D04","Tree divisor search is exact",
  "For every set of entries, option setting (leaf size, sorted leaves, masks, packed or binary nodes, divisor cache, rebuilds) and query, the k-d tree divisor finder returns a divisor exactly when a stored entry divides the query and the entry returned is stored and divides it; the all-divisors search reports exactly the stored divisors, each once, and stops as soon as the receiver asks.",
  ["inputs","histories","configurations"],"all entry sets, insertion orders, option settings, queries",
  "One test checks non-interference of a no-op configuration with exactly fixed settings.",
  ["KDTree.h","BinaryKDTree.h","PackedKDTree.h","KDEntryArray.h"],[("descent skips only subtrees that cannot contain a divisor","BinaryKDTree.h / PackedKDTree.h: findDivisor, findAllDivisors"),("leaf scan","KDEntryArray.h: findDivisor, findAllDivisors"),("divisor cache","KDTree.h: findDivisor")])
p("D05","Tree multiples search and removal are exact",
  "For every tree state and query, the all-multiples search of the k-d tree divisor finder reports exactly the stored multiples of the query, each once; removing multiples removes exactly the stored multiples and reports each once, removing an element removes one stored equal entry and tells whether there was one. Afterwards the size is the number of remaining entries, all of which are still found, and removed entries are never returned by a query.",
  ["inputs","histories","configurations"],"all entry sets, insertion orders, option settings, removal sequences",
  "No test removes from a tree or searches multiples.",
  ["KDTree.h","BinaryKDTree.h","PackedKDTree.h","KDEntryArray.h"],[("removal visits all subtrees that may hold multiples","BinaryKDTree.h / PackedKDTree.h: removeMultiples, removeElement"),("size bookkeeping","KDTree.h: reportChanges")])
p("D06","Tree insertion, splitting and rebuilding keep every entry findable",
  "Inserting entries into the k-d tree divisor finder, singly in any order, with the leaf splits this causes and any manual or automatic rebuild, keeps the stored entries exactly the inserted multiset (less removals), each reached once by a full traversal; clearing leaves it empty and usable. Splitting a full leaf separates entries by an exponent threshold so that neither side is empty, or raises the documented error if all of them have equal exponents.",
  ["inputs","histories","configurations"],"all insertion orders, leaf sizes, number of variables, rebuild points",
  "No test inserts enough entries to split a leaf and then checks all of them.",
  ["KDTree.h","BinaryKDTree.h","PackedKDTree.h","KDEntryArray.h"],[("split of a full leaf","KDEntryArray.h: split"),("insertion path and mask update","BinaryKDTree.h / PackedKDTree.h: insert, rebuild")])
p("C01","Name lookup by prefix resolves exactly",
  "Resolving a name in a registry returns the name itself if it is registered, otherwise the single registered name that starts with it; if none does an unknown-name error is raised, and if several do (and none is equal) an ambiguous-name error. Listing by prefix yields exactly the registered names with that prefix in increasing order, and creating by name yields the product registered under that name or nothing (or the unknown-name error where that is promised).",
  ["inputs","configurations"],"all sets of distinct registered names, all prefixes including empty ones and names that are prefixes of others",
  "No test registers a name.",
  ["NameFactory.h"],[("linear scan and prefix compare","NameFactory.h: createNullOnUnknown, namesWithPrefix, uniqueNameWithPrefix, create")])
p("C02","Command lines are parsed completely and faithfully",
  "Parsing a command line creates the action whose name the first token resolves to, hands the non-empty tokens before the first dash token to the action in order, and then gives every option token's resolved parameter the following token as its argument if that does not start with a dash, and an empty argument otherwise. Every non-empty token is consumed exactly once in order, or an error is raised: for an empty line, an unknown or ambiguous name, or an argument where an option was expected.",
  ["inputs"],"all token sequences, all registered actions and parameters",
  "No test parses a command line.",
  ["CliParser.cpp","CliParser.h","Action.cpp","NameFactory.h"],[("split at the first dash token","CliParser.cpp: CliParser::parse"),("default rejection of direct options","Action.cpp: Action::directOptions")])
p("C03","Command-line parameters accept exactly their value language",
  "An integer parameter accepts exactly the canonical decimal numerals of its range and then holds that number, and reports an error for every other text; an on/off parameter turns on for an empty argument or 'on', off for 'off', and reports an error for every other text leaving its value alone; a string parameter holds its argument unchanged. The textual value of a parameter, given back to it, reproduces the value.",
  ["inputs"],"all argument strings: signs, leading zeros, blanks, overflow, embedded garbage, empty",
  "No test processes a parameter.",
  ["IntegerParameter.cpp","BoolParameter.cpp","StringParameter.cpp","CliParameter.cpp"],[("parse then compare printed form","IntegerParameter.cpp: processArgument"),("exact comparison","BoolParameter.cpp: processArgument")])
p("F01","Number formatting is exact",
  "Thousands separators are placed before every group of three digits from the right and nowhere else, without altering the digits; one-decimal, ratio, percentage, SI-prefix and byte-unit renderings show the value rounded to one decimal in the unit chosen, using the largest offered unit for anything beyond it; zero denominators are rendered as '0/0' or '?/0', and fixed-width percentages are padded on the left to six characters.",
  ["inputs"],"all unsigned 64-bit numbers and non-negative finite ratios within range",
  "No test formats a number.",
  ["ColumnPrinter.cpp"],[("digit grouping","ColumnPrinter.cpp: commafy"),("unit selection","ColumnPrinter.cpp: withSIPrefix, bytesInUnit"),("rounding","ColumnPrinter.cpp: oneDecimal, ratioInteger, ratioDouble, percent*")])
p("F02","Columns are printed aligned and complete",
  "Printing columns of text emits one output line per row up to the longest column, each with every column's prefix, its text padded on the configured side to the widest row of that column, and its suffix; every character of every column's text is printed exactly once in its row. A repeat-to-end-of-line mark pads its row with the given character instead of blanks.",
  ["inputs","configurations"],"all column counts, texts with empty, short, long and missing rows, both alignments, prefixes, suffixes and repeat marks",
  "No test prints columns.",
  ["ColumnPrinter.cpp"],[("width pass and row pass","ColumnPrinter.cpp: ColumnPrinter::print")])
p("F03","Displayed messages are wrapped at the console width without losing words",
  "Displaying a message prints all its words in order, starting every output line with the given prefix and the source line's indentation, breaking lines only at blanks and at the message's own line ends, and exceeding the console width only when a single word cannot fit.",
  ["inputs"],"all messages and prefixes",
  "No test displays a message.",
  ["display.cpp"],[("word wrap","display.cpp: Printer")])
with open(os.path.join(D,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if s:
    for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80,x["title"]; assert x["statement"].count(". ")<=2
print(len(P))
