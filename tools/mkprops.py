#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
I='include/lru/'; N=I+'internal/'
BC=N+'base-cache.hpp'; CA=I+'cache.hpp'; TC=I+'timed-cache.hpp'; LA=N+'last-accessed.hpp'
UI=N+'base-unordered-iterator.hpp'; OI=N+'base-ordered-iterator.hpp'; BI=N+'base-iterator.hpp'
ST=I+'statistics.hpp'; SM=N+'statistics-mutator.hpp'; CB=N+'callback-manager.hpp'; WR=I+'wrap.hpp'
INF=N+'information.hpp'; TIN=N+'timed-information.hpp'; UT=N+'utility.hpp'; HA=N+'hash.hpp'; OP=N+'optional.hpp'
ER=I+'error.hpp'; EN=I+'entry.hpp'; IR=I+'insertion-result.hpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
HI="every cache state reachable by any history of public operations, every key, value and capacity"
p('C01','The number of stored keys never exceeds the capacity',
 "After every public operation - construction, insertion, emplacement, update, capacity change, shrink, range or list assignment, copy, move, swap - a cache holds at most as many keys as its capacity, and a cache of capacity zero stores nothing. size, capacity, space_left, is_full and is_empty always agree with each other and with the keys actually stored.",
 ['histories','inputs'],HI+", including capacities 0 and 1",
 "The tests drive a few fixed sequences with capacities 0, 1, 2, 5, 10, 11 and 128; the bound has to hold after every sequence.",
 [BC],[('capacity test before eviction',BC+':_insert_new_key/_is_too_full'),('evict while above the new capacity',BC+':capacity(size_t)'),('zero-capacity early return',BC+':insert/emplace')],
 [('_map','the entries',BC),('_capacity','the bound',BC)],['size()','capacity()','space_left()','is_full()','is_empty()'])
p('C02','Inserting into a full cache evicts exactly the least recently used key',
 "When a new key is inserted or emplaced into a cache that is full, exactly one stored key disappears, and it is the one whose latest insertion, update or successful lookup is the oldest; the new key is present afterwards and every other key keeps its value. While there is room, or when the key is already stored, an insertion removes nothing.",
 ['histories','inputs'],HI,
 "Tests evict in caches of two elements after two or three operations; the victim must be right after every history of insertions, lookups, updates and erasures.",
 [BC],[('reuse of the front node',BC+':_evict_lru_for'),('order queue',BC+':_order')],[('_order','keys from least to most recently used',BC)],['contains()','ordered iteration'])
p('C03','Recency changes only by insertions, updates and successful lookups',
 "Every insertion or update of a key and every successful contains, find, lookup or operator[] on it makes that key the most recently used one and leaves the relative order of all other keys as it was. Failed lookups, erasing other keys, iterating or dereferencing iterators, validity and expiry queries, comparisons and the size and statistics accessors leave the order of the keys unchanged.",
 ['histories','inputs'],HI+", for both cache classes, const and non-const access",
 "Tests check the order after a handful of operations on two or three keys.",
 [BC,CA,TC],[('splice to the end of the queue',BC+':_move_to_front'),('find() of both caches',CA+':find, '+TC+':find')],[('_order','recency order',BC)],['ordered iteration','front()','back()'])
p('C04','Key index and recency order always describe the same set of keys',
 "At the end of every public operation, ordered iteration visits every stored key exactly once from least to most recently used, unordered iteration visits the same keys, lookups find exactly those keys, and front() and back() return the most and the least recently used key. This holds after any history including updates, evictions, erasures through keys or iterators, clearing, copies, moves and swaps.",
 ['histories','inputs'],HI,
 "The two containers are kept in step by hand at each mutation; tests compare them on a few short sequences and never after copying.",
 [BC,CA,INF],[('entry stores its queue position',INF+':order'),('queue stores references to the keys in the map',BC+':_order'),('_erase pairs',BC+':_erase')],[('_map/_order','index and order',BC)],['ordered_begin()..ordered_end()','begin()..end()','front()','back()'])
p('C05','All lookup functions agree and return the value last stored for the key',
 "contains, find, lookup and operator[], const and non-const, give the same hit or miss verdict for a key in any state, and a hit yields the value most recently inserted, emplaced or assigned for exactly that key; for a key that is not stored they return false, return the end iterator, and throw KeyNotFound respectively. The answer never depends on which keys were accessed before.",
 ['histories','inputs'],HI,
 "The last-accessed shortcut makes the answer depend on the previous operation; tests only try a few pairs of operations.",
 [BC,CA,TC,LA],[('shortcut for the last accessed key',BC+':contains/lookup'),('map search',CA+':find')],[('_last_accessed','shortcut to the most recently accessed entry',BC)],['contains()','find()','lookup()','operator[]'])
p('C06','No operation uses erased, evicted, foreign or past-the-end storage',
 "Whatever the history, no public operation reads, writes, compares or hands out a key, value or list position of an entry that was erased, evicted or cleared, that belongs to another cache, or that lies past the end, and no operation reads an uninitialised or null internal pointer. In particular the shortcut to the most recently accessed entry is dropped or redirected whenever that entry goes away.",
 ['histories','inputs'],HI+"; destruction of other caches at any point",
 "Use after free and aliasing between caches stay silent in ordinary test runs, and need a particular order of accesses and erasures.",
 [BC,LA,TC,UI,OI],[('invalidation on erase and clear',BC+':_erase/clear'),('_reassign_references after a copy',BC),('LastAccessed pointers',LA)],[('_last_accessed','raw pointers into the map',LA)],['any operation'])
p('C07','Insertion reports and stores exactly what it was given',
 "insert and emplace (with single arguments or with tuples) of a key that is not stored add the key with the given value and return true with an iterator to it; for a stored key they replace its value and return false with an iterator to it. No other key or value changes, except for the eviction of the least recently used key of a full cache, and with capacity zero nothing changes and the result is false with the end iterator.",
 ['histories','inputs'],HI+", every constructor argument combination",
 "Tests insert a few keys into almost empty caches and do not look at the other entries.",
 [BC,IR],[('insert and emplace',BC+':insert/emplace'),('InsertionResult',IR)],[],['InsertionResult','lookup()'])
p('C08','Erasure removes exactly the named entry and reports it truthfully',
 "erase(key) removes the key if it is stored, returning true, and otherwise changes nothing and returns false; erasing through an ordered or unordered iterator removes exactly the entry it points to, expired or not, and throws InvalidIterator for the end iterator without changing anything. All other keys keep their values, their order and their iterators.",
 ['histories','inputs'],HI+", with the erased key being the last accessed one or not, both cache classes",
 "Tests erase by key from caches with one element; erasure through iterators is not tested at all.",
 [BC],[('erase overloads',BC+':erase'),('_erase',BC+':_erase')],[],['erase()','size()','iteration'])
p('C09','Shrinking, clearing and capacity changes keep exactly the most recent keys',
 "shrink(n) keeps the min(n, size) most recently used keys with values and order unchanged and leaves the capacity alone; setting the capacity to n does the same and then reports capacity n; clear removes every key and nothing else. Growing the capacity or shrinking to a size not below the current one changes no key.",
 ['histories','inputs'],HI+", every n",
 "Tests shrink caches of two or three elements.",
 [BC],[('shrink',BC+':shrink'),('capacity',BC+':capacity'),('_erase_lru',BC)],[],['size()','capacity()','ordered iteration'])
p('C10','A copy is complete and independent of its source',
 "Copy construction and copy assignment, from const or non-const caches and by any initialisation syntax, give a cache with the same keys, values, order, capacity, time to live, statistics object and callbacks, and leave the source unchanged; self-assignment changes nothing. Afterwards no operation on one of the two, including its destruction, is visible through the other's contents.",
 ['histories','inputs','programs'],HI+" for source and destination; const and non-const sources; later operations on either",
 "Only the capacity and equality of an empty copy are tested; independence only shows when both caches are used after the copy.",
 [BC,CA,TC,UT],[('copy constructor and assignment',BC+':BaseCache(const BaseCache&)/operator='),('_reassign_references',BC),('overload constraints',CA+', '+TC)],[],['copies, then any operation'])
p('C11','Move and swap transfer the whole state and leave both caches usable',
 "Swapping two caches exchanges their keys, values, order, capacity, time to live, statistics object and callbacks completely; move construction and move assignment give the target everything the source had. Both caches involved remain consistent caches with a well-defined capacity, and iterators and references keep denoting the same entries.",
 ['histories','inputs'],HI+" for both caches",
 "Tests swap two one-element caches and check only the capacity of a moved-to cache.",
 [BC,TC],[('swap',BC+':swap, '+TC+':swap'),('move by swap',BC+':BaseCache(BaseCache&&)/operator=(BaseCache&&)')],[],['swap()','move construction','move assignment'])
p('C12','Range and list construction and assignment store exactly the given pairs',
 "Constructing from, inserting or assigning a range, iterator pair or list processes every pair once and in order, as single insertions would, and insert returns how many keys were new; assignment first drops the old contents and raises the capacity to the range's length if that is larger, and never lowers it. Ranges passed as lvalues are left unmodified.",
 ['histories','inputs'],"ranges of any length and content, lvalue, const lvalue and rvalue; any prior cache state",
 "Tests use one range of three distinct keys and never look at an lvalue source again after assignment.",
 [BC,CA,TC],[('range insertion',BC+':insert(Range)'),('range assignment',BC+':operator=(Range), _clear_and_increase_capacity'),('constructors',BC)],[],['insert()','operator=','constructors'])
p('C13','An expired entry is never served by a timed cache',
 "Once strictly more than the time to live has passed since a key was last inserted or updated, contains returns false, find returns end, lookup and operator[] throw, is_valid returns false and iterator accessors throw KeyExpired for it, whichever key was accessed before; until then it is served normally. Expiry is measured on a monotonic clock.",
 ['histories','inputs'],HI+"; every elapsed time",
 "Time-dependent tests sample two or three instants around one time to live and are excluded from the stable set as flaky.",
 [TC,TIN,BC],[('_has_expired',TC),('_last_accessed_is_ok/_value_for_last_accessed overrides',TC),('steady clock',N+'definitions.hpp')],[('insertion_time','start of the time to live',TIN)],['contains()','find()','lookup()','is_valid()','iterator access'])
p('C14','Only inserting or updating a key starts its time to live',
 "Every insertion and every update of a key in a timed cache, by insert, emplace, range insertion or construction, restarts that key's time to live at the time of the call. Lookups, iteration, recency changes, copying, moving, swapping and operations on other keys do not change when a key expires.",
 ['histories','inputs'],HI,
 "No test updates a key of a timed cache and waits, or copies a timed cache.",
 [TC,TIN,BC],[('timestamp taken on construction',TIN),('update of an existing entry',BC+':_move_to_front')],[('insertion_time','start of the time to live',TIN)],['has_expired()'])
p('C15','Expiry queries and clear_expired are exact',
 "clear_expired removes every expired key and no other one and returns how many it removed, all_expired is true exactly if no stored key is unexpired, and has_expired is true exactly for stored expired keys, by key or by iterator, and false for absent keys and end iterators. This holds for every recency order of the keys, and none of the queries changes the cache.",
 ['histories','inputs'],HI+", in particular when recency order and age order differ",
 "Tests never look up a key between inserting and expiring, so age order and recency order always coincide.",
 [TC],[('clear_expired',TC),('all_expired',TC),('has_expired',TC)],[],['clear_expired()','all_expired()','has_expired()'])
p('C16','Every lookup counts as exactly one access with the right outcome',
 "While statistics are monitored, each call of contains, find, lookup or operator[] registers exactly one access for its key - a hit if the key was served, a miss otherwise - in both cache classes, on every internal path. Insertions, updates, erasures, iteration, expiry queries, resizing and copying register nothing.",
 ['histories','inputs'],HI,
 "Fast and slow paths register separately; tests check one state per function and no expired key.",
 [BC,CA,TC,SM],[('_register_hit/_register_miss',BC),('fast path',BC+':contains/lookup'),('find',CA+', '+TC)],[('_stats','mutator for the statistics object',BC)],['stats()'])
p('C17','Statistics totals and per-key counts are consistent',
 "In a statistics object accesses always equal hits plus misses, in total and per key, and a registered hit or miss changes only the totals and, if the key is monitored, that key's own counter by one. monitor never resets an existing key, unmonitor, reset_key and the accessors throw UnmonitoredKey for unmonitored keys, reset_all zeroes every monitored key, and an attached statistics object is the very one supplied and shared.",
 ['histories','inputs'],"every statistics history, every set of monitored keys, every attachment order",
 "Tests register a few hits and misses on one object; reset_key, reset_all and re-monitoring are untested.",
 [ST,SM,I+'key-statistics.hpp',BC],[('StatisticsMutator',SM),('Statistics',ST),('monitor/stop_monitoring/shared_stats',BC)],[('_total_accesses,_total_hits,_key_map','counters',ST)],['Statistics accessors'])
p('C18','Callbacks fire exactly once per lookup, with the right arguments',
 "Each lookup that hits calls every registered hit callback once with the key and its current value and every access callback once with the key and true; each that misses calls every miss callback once with the key and every access callback once with false, in registration order and before the lookup returns. No other operation calls callbacks, the statistics and the callbacks see the same outcome, and cleared callbacks are not called while those of other kinds stay registered.",
 ['histories','inputs'],HI+", any number of callbacks of each kind",
 "Tests register one callback of a kind at a time; ordering, multiplicity and independence of kinds are unchecked.",
 [CB,BC],[('hit/miss/_call_each',CB),('_register_hit/_register_miss',BC)],[('callback containers','registered callbacks',CB)],['callbacks'])
p('C19','Iterator access is checked and always yields the current position',
 "entry(), key() and value() of every iterator type throw InvalidIterator at the end position and KeyExpired for an expired entry without touching storage that does not exist, and otherwise return references to the key and value stored at the iterator's current position, also after increments, decrements, copies, moves, assignments and swaps of iterators. operator* and operator-> yield the same entry and never throw; is_valid and throw_if_invalid agree with this.",
 ['histories','inputs'],"every iterator type, position and history of iterator operations, both cache classes",
 "Each iterator caches an entry; stale caches appear only after particular sequences of dereference and move, which tests barely sample.",
 [UI,OI,BI,BC,TC],[('cached entry reset on movement',UI+':operator++, '+OI+':operator++/--'),('throw_if_invalid',BC+', '+TC),('BaseIterator copy/move/swap',BI)],[('_entry','cached entry',BI)],['entry()','key()','value()','operator*','operator->'])
p('C20','Iterator conversions and comparisons denote the same element',
 "Converting an iterator to const, or an unordered iterator to an ordered one, gives an iterator at the same element; converting a past-the-end unordered iterator throws InvalidIteratorConversion and leaves the target of an assignment unchanged. Equality between any two iterators of one cache, mixed kinds in either operand order included, holds exactly if they denote the same element or are both past the end, and inequality is its negation.",
 ['histories','inputs'],"all pairs of iterator kinds, positions and operand orders",
 "Tests compare iterators of caches with one or two elements.",
 [UI,OI,BI],[('conversion constructors',OI),('operator== family',OI+', '+UI)],[],['iterator construction','operator==','operator!='])
p('C21','Iterators and references to other entries survive every operation',
 "An iterator or a reference to a key's value stays valid and keeps denoting that key until that key itself is erased, evicted or cleared: lookups, updates, reordering, insertions and removals of other keys and swaps never re-create or relocate an entry.",
 ['histories','inputs'],HI,
 "Tests hold an iterator or a reference across at most one later operation and check just its key.",
 [BC,CA,TC],[('reordering by splice',BC+':_move_to_front'),('node based map',N+'definitions.hpp')],[],['iterators and references held across operations'])
p('C22','Const access cannot modify a cache and keys cannot be modified at all',
 "Through a const cache, a const iterator or any key accessor no public function gives out a non-const reference, pointer or iterator to a stored value or key, and none converts const iterators or entries back to mutable ones. Keys stored in a cache are never reachable as mutable objects through any public function.",
 ['programs'],"every well-typed client program",
 "Tests are well-typed programs that compile; they cannot show that offending programs do not.",
 [BC,UI,OI,BI,EN],[('const overloads',BC),('ValueType of const iterators',BI),('const Key&',EN)],[],['types of public members'])
p('C23','Rvalue arguments are moved, lvalue arguments are copied and left alone',
 "emplace and rvalue ranges construct keys and values from exactly the arguments given, forwarding rvalues as rvalues, without copying a key or value for a new entry; insert, lvalue ranges and lvalue arguments never move from or modify what the caller passed. Nothing passed in is read after it has been moved from.",
 ['inputs','programs'],"every argument value category, new and existing keys, both cache classes",
 "The move-awareness tests count copies for new keys of LRU::Cache only, never inspect sources, and skip assignment and updates.",
 [BC,UT,INF,TIN],[('forward_as_tuple/construct_from_tuple',BC+':emplace, '+UT),('range insertion',BC+':insert(Range&&)')],[],['arguments after the call'])
p('C24','The supplied hash and equality functions decide every key comparison',
 "Every place where a cache decides whether a key is stored or is the last accessed one uses the hash and equality objects supplied at construction, and hash_function() and key_equal() return these; copies, moves and swaps carry them along with the contents.",
 ['inputs','configurations'],"every hash and equality functor, stateful ones included",
 "One test counts the calls of a custom equality function on one key.",
 [BC,LA],[('constructor initialisers',BC+':BaseCache(size_t,...)'),('LastAccessed::operator==',LA)],[],['custom functors'])
p('C25','A wrapped function is called only on a miss and its result is returned',
 "Calling a wrapped function returns what the original function returned for equal arguments: the original is called exactly once, with the caller's arguments, if the argument tuple is not served by the attached cache, and not at all otherwise, and every result is stored for later calls under that argument tuple.",
 ['histories','inputs'],"every function, argument list and capacity or time to live, 0 included",
 "Tests wrap two unary lambdas and compare a few calls.",
 [WR,HA,UT],[('wrap closure',WR+':wrap'),('tuple hash',HA)],[],['results and call counts of wrapped functions'])
p('C26','Each wrapped function owns its cache and its cache arguments',
 "Every function returned by wrap or timed_wrap has its own cache, configured with exactly the arguments given to wrap, however often and from which temporaries it was made; results of one wrapped function are never returned by another, even if both wrap functions of the same type. A wrapper never refers to arguments whose lifetime ended.",
 ['programs','inputs'],"every set of wrapped functions, equal types and temporaries included",
 "Every test wraps a lambda of its own type; sharing shows up only between wrappers of equal type.",
 [WR],[('captured cache arguments',WR),('storage of the cache',WR)],[],['wrapped functions'])
p('C27','Documented exceptions reach the caller and leave the cache unchanged',
 "Each documented error condition - missing or expired key, empty cache, invalid iterator or conversion, unmonitored key, no statistics - raises its own documented exception type, which the caller can always catch, and the failed operation leaves keys, values, order and capacity as they were. No exception is raised when the condition does not hold.",
 ['histories','inputs'],HI,
 "Tests check that some of the exceptions are thrown, but not the state afterwards; front() and back() of an empty cache are never called.",
 [BC,CA,TC,ER,ST,OI],[('throw sites',BC+', '+CA+', '+TC+', '+ST),('exception types',ER)],[],['exceptions'])
p('C28','Lookups, insertions and erasures take constant time',
 "contains, find, lookup, operator[], erase, insert and emplace of a single key perform a fixed number of hash table operations and never walk over the stored keys; asking for a key that was the last one accessed, as in contains followed by lookup, performs no operation on the hash table of stored keys in the second call.",
 ['inputs','histories'],"every cache size and state",
 "Functional tests do not observe cost; a linear scan passes them all.",
 [BC,CA,TC],[('last-accessed shortcut',BC+':contains/lookup'),('entry stores its queue position',INF)],[],['call graph and loops of each operation'])
p('C29','Every public header and member compiles in every supported configuration',
 "Each public header can be included alone, and every public member function and iterator operation of Cache, TimedCache and Statistics can be instantiated, with the standard optional type as well as with the built-in replacement, and with key and value types that are only copyable, hashable and equality comparable.",
 ['configurations','programs'],"both optional configurations, every public header, every public member",
 "The test build disables std::optional, includes everything at once and instantiates only the members it calls.",
 [I+'lru.hpp',TC,ST,OP,BI],[('optional selection',OP),('includes',TC)],[],['compiler diagnostics'])
p('C30','A throwing key, value or allocation leaves the cache consistent',
 "If copying or assigning a key or value, or allocating memory, throws during an insertion, emplacement or update, the exception reaches the caller and the cache is left consistent: key index and recency order describe the same keys, the size does not exceed the capacity and no internal shortcut refers to a missing entry.",
 ['fault_sequences','histories'],HI+"; a fault at every point where user code or an allocation may throw",
 "No test injects a failure.",
 [BC],[('order of map and queue updates',BC+':insert/emplace/_insert_new_key')],[],['cache state after an exception'])
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
open('properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
