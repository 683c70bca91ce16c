import sys
prop = (sys.modules.get("props") or sys.modules["__main__"]).prop
DS = 'library/datastructure/'
prop('C01', 'Point-update segment tree answers every interval product and search exactly',
     'For every monoid (possibly non-commutative) and every history of construction and point assignments, reading an element returns the last value assigned to it, and the product over any interval, prefix, suffix or the whole sequence equals the left-to-right product of the current elements (identity when empty). A search from a left end returns a position up to which the predicate holds on the product and beyond which it fails by one more element or the sequence ends; the search from a right end is the mirror image. No operation within its documented index range accesses memory out of bounds or changes any other element.',
     ['inputs', 'histories'], 'every monoid, every predicate true on the identity, every length up to 2^29, every sequence of construction, element assignments and queries',
     'Tests sample a few lengths with commutative integer operations; ordering errors and boundary levels of the implicit tree only show for non-commutative products or particular index patterns.',
     [DS + 'segment_tree/segment_tree.hpp', 'library/util/update_proxy_object.hpp'],
     [('bottom-up interval walk', DS + 'segment_tree/segment_tree.hpp operator()'), ('leaf-to-root recomputation', DS + 'segment_tree/segment_tree.hpp update_from'), ('climbing and descending search', DS + 'segment_tree/segment_tree.hpp max_right/min_left')],
     ['segtree'], ['segtree'])
prop('C02', 'Fenwick trees keep every range sum and prefix product exact under updates',
     'For every abelian group and every history of construction and element updates (addition, subtraction, increment, assignment and compound assignment through an element), the sum over any half-open interval and each single element equal the values obtained on a plain array with the same updates. For every commutative monoid the prefix-query variant returns the product of exactly the elements before the end index after any history of construction and point multiplications. No access leaves the tree.',
     ['inputs', 'histories'], 'every abelian group / commutative monoid, every length below 2^30, every update history',
     'A lowest-set-bit step that is wrong for one index pattern, or a linear-time construction in the wrong order, still passes small or power-of-two samples.',
     [DS + 'fenwick_tree/fenwick_tree.hpp', DS + 'fenwick_tree/fenwick_tree_prefix.hpp', 'library/util/update_proxy_object.hpp'],
     [('add/sum climbs by lowest set bit', DS + 'fenwick_tree/fenwick_tree.hpp add, sum'), ('linear construction', DS + 'fenwick_tree/fenwick_tree.hpp constructor'), ('prefix variant', DS + 'fenwick_tree/fenwick_tree_prefix.hpp')],
     ['fenwick'], ['fenwick'])
prop('C03', 'Union-find always represents the partition generated by its merges',
     'After any sequence of merges and queries, two elements are reported as connected exactly when they are linked by the merges performed, the reported size is the number of elements of the component, all members of a component share one representative that belongs to it, and merging returns true exactly when two components were joined. The linked variant enumerates a component as a list that starts at the requested element and contains every member exactly once.',
     ['inputs', 'histories'], 'every number of elements and every interleaving of merge, same, size, representative and component queries',
     'Path compression and union by size interact over long histories; a wrong size or link surfaces only after particular merge orders.',
     [DS + 'union_find/union_find.hpp', DS + 'union_find/linked_union_find.hpp'],
     [('two-pass path compression', DS + 'union_find/union_find.hpp root'), ('union by size', DS + 'union_find/union_find.hpp merge'), ('cyclic member lists', DS + 'union_find/linked_union_find.hpp')],
     ['uf'], ['uf'], only={'uf': ['UnionFind::root', 'uf_ctor', 'uf_root', 'uf_index', 'uf_merge', 'uf_same', 'uf_size', 'lu_ctor', 'lu_merge', 'lu_comp']}, suites=['plain', 'linked', 'plain_long'],
     bounded=['UnionFind::groups() is covered by the replay program only'])
prop('C04', 'Rollback union-find restores earlier partitions exactly',
     'Undoing the last successful merge restores precisely the partition, representatives and sizes that held before it, for any depth of history; rolling back restores the state at the last snapshot (or construction), however many merges lie in between, and a snapshot itself changes no query result. Queries and failed merges never change the state, and every query between those steps answers as a plain union-find would.',
     ['inputs', 'histories'], 'every number of elements and every sequence of merge, undo, snapshot, rollback and queries',
     'The property is about arbitrary histories of paired writes to an undo log; tests exercise a few.',
     [DS + 'union_find/undo_union_find.hpp'],
     [('undo log of two entries per merge', DS + 'union_find/undo_union_find.hpp merge, undo, rollback'), ('search without path compression', DS + 'union_find/undo_union_find.hpp root')],
     ['uf'], ['uf'], only={'uf': ['UndoUnionFind::root', 'uu_ctor', 'uu_root', 'uu_merge', 'uu_same', 'uu_size', 'uu_undo', 'uu_snapshot', 'uu_rollback', 'uu_merge_undo']}, suites=['undo', 'undo_long'],
     bounded=['groups() is covered by the replay program only'])
prop('C05', 'Weighted union-find reports the group difference implied by the merges',
     'For every group (possibly non-commutative) and every history of merges with a distance, the reported difference between two connected elements equals the product of the distances along the merges that connect them; in particular merging x and y with distance d makes the difference from x to y equal d, differences compose along any path, and a merge inside one component changes nothing. Connectivity, sizes and representatives are those of the partition generated by the merges.',
     ['inputs', 'histories'], 'every group, every number of elements, every interleaving of merges and queries',
     'Path halving rewrites potentials lazily; order and sign mistakes cancel for commutative groups or shallow trees, which is what tests use.',
     [DS + 'union_find/weighted_union_find.hpp'],
     [('potential update while halving paths', DS + 'union_find/weighted_union_find.hpp root, weight'), ('root distance and its inverse', DS + 'union_find/weighted_union_find.hpp merge')],
     ['uf'], ['uf'], only={'uf': ['WeightedUnionFind::root', 'WeightedUnionFind::weight', 'wu_ctor', 'wu_root', 'wu_weight', 'wu_merge', 'wu_diff', 'wu_same', 'wu_size']}, suites=['weighted', 'weighted_long'],
     bounded=['groups() is covered by the replay program only'])
prop('C06', 'Lazy and dual segment trees apply a function to exactly the requested range and report exact range products',
     'For every monoid and every set of functions that act on it, distribute over its product and compose: after any history of range applications, point applications, assignments and queries, the lazy segment tree shows at each position the initial or last assigned value with exactly the later functions covering that position applied in order; the product over any half-open range (also prefix, suffix and whole) is the left-to-right product of those values; the boundary searches return an end where the predicate holds and fails one further (or the end of the sequence); queries change no value. The dual segment tree does the same for range application and point reads, for any non-commuting functions, the commutative variant for commuting ones. No access leaves the arrays.',
     ['inputs', 'histories'], 'every sequence of up to 2^29 elements, every monoid, action and composition satisfying the laws, every history of operations',
     'Which pending functions are pushed, and which nodes recomputed, depends on the alignment of both range ends and on earlier operations; a missed push shows only for non-commuting functions on overlapping ranges.',
     [DS + 'segment_tree/lazy_segment_tree.hpp', DS + 'segment_tree/dual_segment_tree.hpp', DS + 'segment_tree/commutative_dual_segment_tree.hpp'],
     [('push down along the borders of a range', DS + 'segment_tree/lazy_segment_tree.hpp push_to, push'), ('recomputation along the borders', DS + 'segment_tree/lazy_segment_tree.hpp update_from'), ('covering nodes of a range', DS + 'segment_tree/lazy_segment_tree.hpp apply, operator()'), ('push of the dual tree', DS + 'segment_tree/dual_segment_tree.hpp push'), ('reading along the path to the root', DS + 'segment_tree/commutative_dual_segment_tree.hpp get')],
     ['lazyseg', 'lazy'], ['lazyseg'], bounded=['the enable_beats variant of the lazy tree (used by segment_tree_beats.hpp) is not covered'],
     assumptions=['the template arguments satisfy the monoid-action laws: map(comp(f,g),x) = map(f,map(g,x)), map(id,x) = x, comp with id is neutral, map distributes over op (commuting maps for the commutative tree)'])
prop('C07', 'Static range-query tables (sparse table, cumulative sums) return the exact value of every range',
     'For every idempotent associative operation with identity and every sequence, the sparse table returns the left-to-right product of any half-open interval and the identity for an empty or reversed one. For every abelian group the one-dimensional cumulative sum (built from a sequence, empty, or extended by push_back) returns the sum of any interval, the two-dimensional one the sum of any axis-parallel rectangle (zero when the rectangle is not inside the table), and the step sum the sum of the elements of any interval whose index has a given residue. No access leaves a table, including for empty inputs.',
     ['inputs', 'histories'], 'every idempotent monoid / abelian group, every length below 2^30, every interval, rectangle or residue class',
     'Level selection and table-boundary errors depend on the relation of the length to powers of two and on non-commutative products; tests use min over one size.',
     [DS + 'sparse_table.hpp', 'library/util/cumulative_sum.hpp', 'library/util/cumulative_sum_2d.hpp', 'library/util/step_sum.hpp'],
     [('doubling table and floor-log lookup', DS + 'sparse_table.hpp constructor, operator()'), ('prefix table', 'library/util/cumulative_sum.hpp'), ('inclusion-exclusion', 'library/util/cumulative_sum_2d.hpp'), ('residue-class prefix sums', 'library/util/step_sum.hpp')],
     ['sparse', 'cumsum'], ['static'], bounded=['StepSum is covered by the replay program only (lengths up to 9, steps up to 11, all ranges)'])
NB = 'library/number/'
prop('C08', 'Modular integers implement arithmetic modulo m for every modulus and operand',
     'For a fixed prime or composite modulus and for a modulus set at run time (1 up to 2^31-1), the value held is always the canonical residue in [0, m): construction from any signed or unsigned integer, addition, subtraction, multiplication, increment, decrement, negation and powers with any non-negative exponent give exactly the mathematical result modulo m; inverse and division by an invertible element give the residue whose product with the divisor is the dividend.',
     ['inputs'], 'every operand of each integer type, every exponent, every run-time modulus from 1 to 2^31-1',
     'Word-size effects (carry of the reciprocal multiplication, negative remainders, sums above 2^31) occur for operand pairs that sampling tests do not hit.',
     [NB + 'modint.hpp'],
     [('128-bit reciprocal remainder', NB + 'modint.hpp barrett_K128::rem'), ('inverse by the extended Euclidean algorithm', NB + 'modint.hpp inv_gcd'), ('operators', NB + 'modint.hpp static_modint, dynamic_modint')],
     ['modint'], ['modint'], assumptions=["Fermat's little theorem for 998244353", 'the static moduli instantiated are 998244353 and 1000000000; other static moduli only in the replay program', 'mod_sqrt is not covered'])
prop('C09', 'Barrett, Montgomery and Mersenne-61 reductions equal exact modular arithmetic over their whole range',
     'The Barrett reducer returns the exact quotient and remainder of any 64-bit integer by any modulus from 1 to 2^32-1, and exact modular products. For every odd modulus below 2^32 (respectively 2^64) Montgomery conversion, reduction, addition, subtraction, multiplication and powers equal the corresponding modular operations on the represented residues, always in canonical range. Arithmetic modulo 2^61-1 (construction from any 64-bit value, addition, subtraction, product, power, inverse) is exact and canonical.',
     ['inputs'], 'every 64-bit operand, every modulus of the stated ranges, every non-negative exponent',
     'The estimated quotients and word products are wrong, if at all, only for isolated operands or for moduli close to the word size.',
     [NB + 'barrett_reduction.hpp', NB + 'montogomery.hpp', NB + 'modint_2^61m1.hpp'],
     [('reciprocal quotient with one correction', NB + 'barrett_reduction.hpp quorem'), ('Montgomery reduction and Newton inverse', NB + 'montogomery.hpp reduce, calcN2'), ('split product modulo 2^61-1', NB + 'modint_2^61m1.hpp operator*=, fast_mod')],
     ['reduction'], ['reduction'], assumptions=["Fermat's little theorem for 2^61-1"])
prop('C10', 'Extended gcd, modular inverses and linear Diophantine equations are solved exactly',
     'For all integers the extended gcd returns the non-negative gcd with coefficients satisfying the Bezout identity; the modular inverse (for coprime arguments) and the gcd-inverse return the residue in [0, m) whose product is 1, respectively the gcd, modulo m. Solving a*x + b*y = z reports a solution exactly when one exists (including a or b zero, and all values arbitrary when a = b = z = 0) and describes all of them; restricting x or y to a half-line or range keeps exactly the solutions inside; the count and the extremal solutions are those of the remaining set. Combining congruences with pairwise coprime moduli yields the unique common solution reduced by the requested modulus.',
     ['inputs', 'histories'], 'every pair of 64-bit coefficients (absolute value below 2^62 for the equation solver), every right-hand side, every sequence of range restrictions',
     'Signs, zeros and intermediate overflow combine in many ways; tests sample positive coefficients.',
     [NB + 'ext_gcd.hpp', NB + 'bezout_equation.hpp', NB + 'garner.hpp'],
     [('Euclidean loop with cofactors', NB + 'ext_gcd.hpp ext_gcd'), ('base solution reduction', NB + 'bezout_equation.hpp solve'), ('rounded division by signed steps', NB + 'bezout_equation.hpp set_min_x, set_max_x, set_min_y, set_max_y'), ('mixed-radix digits', NB + 'garner.hpp garner')],
     ['bezout'], ['bezout'], bounded=['garner() is covered by the replay program only (up to 6 moduli)'])
prop('C11', 'Aggregating queues and sliding windows return the product of exactly the current elements',
     'For every monoid (possibly non-commutative) and every history of pushes and pops at both ends, the aggregating deque reports the left-to-right product of the current elements, and front, back, indexing, size and iteration show exactly those elements in order. The aggregating queue reports the merge of its elements appended one by one and shows the same elements in first-in-first-out order. The sliding window over a fixed sequence reports, for every monotone movement of its two ends, the left-most or right-most position of the minimum or maximum of the current window, as its mode says. No access leaves the containers.',
     ['inputs', 'histories'], 'every monoid, every history of push, pop, clear and queries, every sequence and every movement of the window',
     'The two-stack rebalancing after many one-sided pops and ties in the window comparisons depend on long histories and equal keys.',
     [DS + 'deque_aggregation.hpp', DS + 'queue_aggregation.hpp', DS + 'sliding_window_minimum.hpp'],
     [('two stacks of (value, accumulated product)', DS + 'deque_aggregation.hpp pop_back, pop_front'), ('queue with append/merge', DS + 'queue_aggregation.hpp pop_front'), ('monotone deque', DS + 'sliding_window_minimum.hpp proc_right, proc_left')],
     ['swag'], ['swag'], bounded=['iterators of the two aggregating containers, and the multi-step window movements proc(l, r), are covered by the replay program only'])
prop('C12', 'Rational numbers are exact: normal form, order, arithmetic, and their position in the Stern-Brocot tree',
     'Every rational built from a numerator and denominator (not both zero) is stored in lowest terms with a non-negative denominator and unchanged value; addition, subtraction, multiplication, division, negation, inverse and absolute value give the exact result in lowest terms while the reduced intermediate values fit the word; comparison orders any two values (also against infinity) exactly for all 64-bit numerators and denominators; floor and ceiling round towards minus and plus infinity. In the Stern-Brocot tree the node of a/b represents exactly the reduced fraction with neighbouring bounds, moving down and up, ancestor tests, lowest common ancestor, distance and the orders agree with the tree.',
     ['inputs'], 'every pair of 64-bit values for construction, comparison and rounding; every pair whose terms over the least common denominator (sums) or reduced product (products, quotients) fit 63 bits; every positive fraction up to 2^62 for the tree',
     'Comparison walks the continued fractions of both operands, so errors show only for values agreeing on a prefix of odd or even length; signs and reductions interact.',
     [NB + 'rational.hpp', NB + 'stern_brocot_tree.hpp'],
     [('normalising constructor', NB + 'rational.hpp Rational(T, T)'), ('continued-fraction comparison', NB + 'rational.hpp compare'), ('cross-reduced product, lcm sum', NB + 'rational.hpp operators'), ('descent to a fraction', NB + 'stern_brocot_tree.hpp sbt_node(Int, Int), move_down')],
     ['rational', 'sbt'], ['rational'], trusted=['std::gcd returns the non-negative greatest common divisor (assumed contract of the standard library)'],
     bounded=['sbt_node::move_up, lca, dist, move_to, auxiliary_tree and Rational::approximate, stern_brocot, farey_sequence, conversions and output are covered by the replay program only'])
prop('C13', 'Priority queues always return an extreme element of exactly the elements they hold',
     'For every strict weak order and every history of insertions, removals and bulk construction, the binary heaps (minimum and maximum, also under their priority-queue names) show and remove an element that no other held element precedes (respectively follows), and the double-ended queues (interval heap and two-heap queue) do so at both ends (the two-heap queue may show, without removing, a value that ranks equal to the greatest); a removal takes out exactly the returned element and nothing else, an insertion adds exactly one, and sizes agree. The sorted dump lists exactly the held elements in order, a copied queue is independent of its original. The k-prefix sum over a changing multiset equals, after any insertions, erasures and changes of k, the sum of the k first elements in its order (smallest for the max-heap variant MaximumPrioritySum, largest for MinimumPrioritySum).',
     ['inputs', 'histories'], 'every element type and strict weak order, every history of operations, including ties and queues that become empty',
     'Sift errors surface only for specific relative orders at specific depths, and lost or duplicated elements only after long histories.',
     [DS + 'heap/binary_heap.hpp', DS + 'heap/interval_heap.hpp', DS + 'double_ended_priority_queue.hpp', DS + 'priority_queue.hpp', DS + 'util/priority_sum.hpp'],
     [('sift up and sift down', DS + 'heap/binary_heap.hpp heapify_up, heapify_down'), ('two interleaved heaps', DS + 'heap/interval_heap.hpp fix_up, fix_min_heap_down, fix_max_heap_down'), ('median split of two heaps', DS + 'double_ended_priority_queue.hpp ensure_min_heap_nonempty'), ('lazy deletion', DS + 'util/priority_sum.hpp erase, fix')],
     ['heap'], ['heap'], bounded=['DoubleEndedPriorityQueue and PrioritySum are covered by the replay program only (histories of up to 90 operations)'])
prop('C14', 'Sieves, primality tests and factorizations agree with the definition of primality for every number in range',
     'For every n in range: the sieves report a number prime exactly when it has no divisor other than 1 and itself, list the primes in ascending order without gaps, and give every composite a prime factor (the smallest one for the linear sieve and the Moebius table); every factorization (sieve tables, trial division, Pollard rho) is a list of distinct primes with positive exponents whose product is exactly n (ascending where promised); the deterministic Miller-Rabin test answers correctly for every 64-bit number; divisors, divisors_table, totient, totient_table, carmichael, powi and the Moebius function equal their definitions. No intermediate value overflows for any argument whose result is representable.',
     ['inputs'], 'every argument representable in the integer type used, in particular values next to its maximum, squares of primes, and numbers that fool single-base tests',
     'A wrong entry appears only at a particular composite (the first prime square after a wheel period, a strong pseudoprime, an argument near the type limit); tests sample a handful of arguments.',
     [NB + 'linear_sieve.hpp', NB + 'util.hpp', NB + 'sieve_of_eratosthenes.hpp', NB + 'sieve_of_eratosthenes_constexpr.hpp', NB + 'internal_eratosthenes.hpp', NB + 'mobius_function.hpp', NB + 'deterministic_miller_rabin.hpp', NB + 'fast_factorize.hpp'],
     [('every composite marked once by its least prime factor', NB + 'linear_sieve.hpp LinearSieve(int)'), ('factorization by least prime factors', NB + 'linear_sieve.hpp factorize'), ('square and multiply', NB + 'util.hpp powi'), ('divisors of all numbers', NB + 'util.hpp divisors_table'), ('wheel sieve', NB + 'sieve_of_eratosthenes.hpp SimpleSieve, Sieve'), ('witness bases', NB + 'deterministic_miller_rabin.hpp miller_rabin'), ('Pollard rho', NB + 'fast_factorize.hpp factorize')],
     ['sieve', 'nutil'], ['sieve'], bounded=['Sieve/SimpleSieve and their constexpr variants (40 and 10 values of N, every number up to N), MobiusFunction (6 values of N), factorize/divisors/totient/carmichael of util.hpp, miller_rabin::is_prime and fast_factorize are covered by the replay program only (all arguments below 10^6 in slices, structured and random 64-bit arguments); the correctness of the Miller-Rabin bases is a published computation that no contract here re-derives'])
prop('C15', 'Zeta, Moebius and Walsh-Hadamard transforms are mutually inverse and the convolutions built on them are exact',
     'For every sequence of admissible length: the subset, superset, divisor, multiple and mixed-radix zeta transforms produce at every index exactly the sum over the subsets, supersets, divisors, multiples or dominated digit vectors of that index; the Moebius transforms undo them in both orders; the Walsh-Hadamard transform produces the signed sums and its inverse restores the sequence; a Kronecker power transform multiplies by the Kronecker power of the matrix. The or, and, xor, gcd, lcm and disjoint-subset convolutions, the Dirichlet convolutions, the plain product, the online (relaxed and semi-relaxed) products at each step, and the min-plus convolutions with a convex operand equal their defining sums (minima) for all operands; monotone_minima returns a position of the minimum of each row of a monotone matrix. No index leaves a sequence.',
     ['inputs'], 'every coefficient ring, every admissible length (powers of two, any length for the divisor and multiple transforms), every operand',
     'In-place butterflies are right for small or symmetric inputs and wrong elsewhere when a stage is skipped or ordered wrongly; tests use one or two lengths.',
     ['library/transform/', 'library/convolution/', 'library/algorithm/monotone_minima.hpp'],
     [('subset and superset stages', 'library/transform/subset.hpp, library/transform/supset.hpp'), ('two-point kernel of the Kronecker power', 'library/transform/kronecker_power.hpp, library/transform/walsh_hadamard.hpp'), ('transform, multiply, invert', 'library/convolution/convolution.hpp transform_convolution'), ('prime-by-prime sums', 'library/transform/divisor.hpp, library/transform/multiple.hpp'), ('online product', 'library/convolution/relaxed_convolution.hpp append'), ('divide and conquer on rows', 'library/algorithm/monotone_minima.hpp')],
     ['transform'], ['transform'], assumptions=['add/sub of the element type form an abelian group: sub(add(x, y), y) = x and sub exchanges with add'], bounded=['divisor, multiple and mixed-radix transforms, gcd/lcm/xor/subset/Dirichlet/min-plus/relaxed/plain convolutions, polynomial_eval and monotone_minima are covered by the replay program only (lengths up to 260); headers that include atcoder/* cannot be compiled here and are not covered'])
prop('C16', 'String algorithms report exactly the borders, periods, matches, palindromes and substrings of their text',
     'For every sequence: the Morris-Pratt table holds the longest proper border of every prefix, all_periods lists exactly the (full) periods in ascending order and the matcher exactly the occurrences of the pattern in ascending order; Manacher holds the length of the longest palindrome at every centre whatever separator is given; the Aho-Corasick automata report after every character the number of added patterns that end there, also when patterns are added and the automaton is rebuilt; the tries have one node per distinct prefix; rolling hashes (static, over a user field, and under insertion, deletion and assignment) are equal exactly when the substrings are equal (up to hash collisions) and concatenate consistently; the palindromic tree has one node per distinct palindrome with its frequency, first occurrence and longest palindromic suffix, also after clear; the suffix automaton and the substring set accept, count, enumerate, rank and locate exactly the substrings and find a longest common substring. No access leaves a sequence.',
     ['inputs', 'histories'], 'every sequence and alphabet, every pattern set and history of additions, rebuilds, edits and clears',
     'Errors show only for texts with particular periodic or palindromic structure, after a match is followed by a further character, or on re-use of an object; tests run a few fixed texts.',
     ['library/string/'],
     [('failure function, periods and matcher', 'library/string/morris_pratt.hpp'), ('mirror reuse of radii', 'library/string/manacher.hpp build'), ('failure links and counts', 'library/string/aho_corasick.hpp, library/string/aho_corasick_array.hpp build'), ('state cloning', 'library/string/suffix_automaton.hpp append'), ('suffix links', 'library/string/palindromic_tree.hpp add'), ('rank and select', 'library/string/substring_set.hpp'), ('prefix hashes', 'library/string/rolling_hash.hpp, rolling_hash_field.hpp, dynamic_rolling_hash.hpp')],
     ['strings'], ['strings'], bounded=['Aho-Corasick, tries, rolling hashes, palindromic tree, suffix automaton and substring set are covered by the replay program only (texts up to 60 characters over up to 3 letters, with periodic, Fibonacci, unary and palindromic shapes)', 'compare_substring.hpp and run_enumerate.hpp include atcoder/* and cannot be compiled here'])
prop('C17', 'Graph traversals report exact distances, orders, iterates, bridges and components',
     'For every graph within the documented preconditions (loops and parallel edges where allowed, any size from zero or one vertex): BFS, 0-1 BFS, complement BFS, Dijkstra and the DAG relaxation return the shortest distance from the given source(s) and report exactly the unreachable vertices, Dijkstra paths have that length; connected components partition the vertices by reachability; topological_sort decides acyclicity and orders every edge forward; cycle detection returns a genuine cycle exactly when there is one; minmax_floyd_warshall gives the bottleneck distance for every pair and either order; bipartite_coloring finds a proper colouring exactly when one exists; FunctionalGraph iterates, doubling (with sums and binary search), infinite paths and k-th iterates agree with repeated application for every step count up to 2^63-1; LowLink, two-edge-connected and biconnected components and the block-cut forest agree with their definition by deletion, also when rebuilt after further edges; scc_tournament orders the strong components; Eulerian circuits and trails exist exactly when reported, use every edge once, and asking for one does not change the graph; the CSR graph holds the given edges through copies, edits, reversal, DFS trees and shrinking; segment-tree graphs connect exactly the intended range. No access leaves a container.',
     ['inputs', 'histories'], 'every graph, source set, step count and sequence of edge additions, queries and rebuilds',
     'Errors need particular structure (parallel edges, loops, isolated or coincident sources, a rebuild, a copied graph, step counts near a power of two) that fixed test graphs do not have.',
     ['library/graph/'],
     [('distance', 'library/graph/bfs.hpp BFS::distance'), ('doubling tables and query', 'library/graph/functional_graph.hpp Doubling'), ('low link', 'library/graph/low_link.hpp dfs'), ('edge components', 'library/graph/biconnected_components.hpp'), ('0-1 relaxation', 'library/graph/bfs01.hpp'), ('indegree peeling', 'library/graph/topological_sort.hpp'), ('adjacency lists', 'library/graph/csr_graph.hpp'), ('circuits', 'library/graph/directed_eulerian_graph.hpp, undirected_eulerian_graph.hpp')],
     ['graph'], ['graph'], bounded=['BFS::distance and FunctionalGraph::doubling/query are proved for every input; every other function is covered by the replay program only, against exhaustive oracles on graphs of up to 9 vertices (minmax_floyd_warshall up to 70)', 'chromatic_number, kruscal, dulmage_mendelsohn, edge_coloring and tree_decomposition need atcoder/* and cannot be compiled here'], conf_s=14)
prop('C18', 'Matching, flow, assignment, clique and covering routines return optimal solutions',
     'For every input within the documented preconditions: BipartiteMatching returns a maximum matching, minimum vertex and edge covers and a maximum independent set, also when edges are added between queries; MinCostFlow (all initialisers and value types) reports the maximum (or limited, or arbitrary) flow of minimum cost, its exact convex cost slope, and edge flows that respect capacity, conservation and cost; assignment_problem returns a permutation of minimum total cost; enumerate_cliques and enumerate_triangles report every clique and triangle once; maximum_independent_set, maximum_clique and minimum_vertex_cover return optimal sets; manhattan_minimum_distances returns for every point the distance to its nearest other point, including coincident points.',
     ['inputs', 'histories'], 'every graph, cost matrix and point set, and every order of edge additions and queries',
     'Optimality is a statement about all other solutions; wrong answers need specific residual graphs, odd cycles, ties or coincident points.',
     ['library/graph/'],
     [('augmentation', 'library/graph/bipartite_matching.hpp solve'), ('potentials', 'library/graph/min_cost_flow.hpp, library/graph/assignment_problem.hpp'), ('branching', 'library/graph/maximum_independent_set.hpp'), ('complement graph', 'library/graph/maximum_clique.hpp'), ('complement set', 'library/graph/minimum_vertex_cover.hpp'), ('degree ordering', 'library/graph/enumerate_cliques.hpp, enumerate_triangles.hpp'), ('sweeps', 'library/graph/manhattan_minimum_distances.hpp')],
     ['graphopt'], ['graphopt'], trusted=['maximum_independent_set: its contract (a maximum independent set of its argument) is assumed by the proofs of minimum_vertex_cover and maximum_clique and itself checked only by the replay program'], bounded=['minimum_vertex_cover and maximum_clique are proved for every graph relative to maximum_independent_set; matching, flow, assignment, cliques, triangles, independent sets and Manhattan distances are covered by the replay program only, against exhaustive search on up to 11 vertices or points'], conf_s=10)
prop('C19', 'Tree structures agree with the paths, subtrees and distances of the tree',
     'For every tree (and, where documented, forest) and root: heavy-light decomposition, LCA, level ancestor and distance structures return the lowest common ancestor, k-th ancestor, path length and d-th path vertex; a path or subtree update or fold touches every vertex (or edge) of the path or subtree exactly once and in path order; auxiliary trees contain exactly the chosen vertices and their pairwise LCAs with the induced ancestry; centroid and centroid decompositions halve every component; range contour structures sum or update exactly the vertices within the distance range; link-cut trees agree with the represented forest through every sequence of link, cut, evert, update and path queries; rerooting and static top trees give the value of the direct bottom-up computation for every root or after every update; two trees get equal identifiers exactly when isomorphic.',
     ['inputs', 'histories'], 'every tree shape, root, query and sequence of updates',
     'Wrong answers need particular shapes (deep chains of light edges, ties in subtree size, two centroids, stars) and particular query pairs; the tests sample a few.',
     ['library/tree/', 'library/algorithm/rmq_pm1.hpp'],
     [('chain climbing', 'library/tree/heavy_light_decomposition.hpp lca, la, update_path'), ('lca by range minimum', 'library/tree/lowest_common_ancestor.hpp, library/algorithm/rmq_pm1.hpp'), ('compression', 'library/tree/auxiliary_tree.hpp'), ('centroids', 'library/tree/centroid_decomposition.hpp, find_centroid.hpp'), ('contours', 'library/tree/contour_sum.hpp, point_add_range_contour_sum.hpp'), ('represented forest', 'library/tree/link_cut_tree*.hpp'), ('rerooting', 'library/tree/rerooting.hpp'), ('dynamic dp', 'library/tree/static_top_tree.hpp'), ('canonical form', 'library/tree/tree_isomorphism_classification.hpp')],
     ['tree'], ['tree'], bounded=['HeavyLightDecomposition::lca, la, jump, dist and update_path are proved for every decomposition satisfying the stated well-formedness; that the constructor establishes it, and every other tree structure, is covered by the replay program only, against direct computation on trees of up to about 60 vertices', 'frequency_table_of_tree_distance and point_set_range_contour_sum need atcoder/* and cannot be compiled here'], conf_s=14)
prop('C20', 'Rank, wavelet, bit-set, range-set and trie structures agree with plain sets',
     'For every sequence of operations: a bit vector answers access, rank and select, and a (compressed) wavelet matrix answers access, rank, k-th smallest/largest, minimum/maximum, frequency and neighbour queries over any interval (also after xoring with a value), exactly as a scan of the stored sequence would; dynamic and static bit sets, integer sets over a bounded universe, interval sets, binary and Patricia tries and coordinate compressors behave as the mathematical (multi)set, sequence of bits, union of intervals or order-preserving numbering they represent, for every word width, size and extreme value; every version of a persistent array keeps its own contents.',
     ['inputs', 'histories'], 'every bit pattern, length, width, interval and sequence of operations',
     'Boundary effects (a size that is a multiple of 8, 64 or 256, values at the limits of the type, empty sets, the last partial word) are not reached by sampled tests.',
     ['library/datastructure/bit_vector.hpp', 'library/datastructure/wavelet_matrix.hpp', 'library/datastructure/compressed_wavelet_matrix.hpp', 'library/datastructure/util/', 'library/datastructure/fenwick_tree/fenwick_tree_set.hpp', 'library/datastructure/binary_trie.hpp', 'library/datastructure/binary_trie_patricia.hpp', 'library/datastructure/persistent_array.hpp', 'library/util/coordinate_compressor.hpp'],
     [('rank and select', 'library/datastructure/bit_vector.hpp build, rank, select'), ('interval queries', 'library/datastructure/wavelet_matrix.hpp'), ('word boundaries', 'library/datastructure/util/dynamic_bitset.hpp, static_bitset.hpp'), ('interval union', 'library/datastructure/util/range_set.hpp'), ('successor search', 'library/datastructure/fenwick_tree/fenwick_tree_set.hpp'), ('tries', 'library/datastructure/binary_trie.hpp, binary_trie_patricia.hpp'), ('versions', 'library/datastructure/persistent_array.hpp'), ('numbering', 'library/util/coordinate_compressor.hpp')],
     ['rank'], ['rank'], bounded=['BitVector (construction, access, rank, select, popcount8) is proved for every length below 2^30; the wavelet matrices, bit sets, interval sets, tries, persistent arrays and the compressor are covered by the replay program only, on random operation sequences against std containers'], conf_s=12)
prop('C21', 'Linear algebra: elimination, products, ranks, bases and determinants are exact',
     'For every matrix over a field (and over Z/m where the header promises it) and every shape: matrix sums, products, powers, inverses and submatrices are entrywise exact whatever the product strategy; determinants, characteristic polynomials, ranks and hafnians have their defining value; elimination finds a solution exactly when one exists, together with a basis of all solutions; an xor basis spans exactly the inserted vectors, stays linearly independent and reports the true dimension, sum and intersection; a circulant product is the cyclic convolution; the spanning-tree count is the number of spanning trees.',
     ['inputs'], 'every matrix, shape and right-hand side',
     'Rank deficiency, odd dimensions above the Strassen threshold, free variables after the last pivot, and zero pivots are specific shapes that sampled tests miss.',
     ['library/linear_algebra/'],
     [('products', 'library/linear_algebra/matrix.hpp operator*, submatrix, assign_submatrix'), ('elimination', 'library/linear_algebra/gaussian_elimination.hpp, gaussian_elimination_f2.hpp'), ('xor basis', 'library/linear_algebra/xor_base.hpp add, operator+, intersection'), ('over F2', 'library/linear_algebra/matrix_f2.hpp'), ('polynomial', 'library/linear_algebra/hessenberg_reduction.hpp, characteristic_polynomial.hpp'), ('circulant', 'library/linear_algebra/circulant_matrix.hpp'), ('counting', 'library/linear_algebra/count_spanning_trees.hpp, hafnian.hpp')],
     ['linalg', 'matrix'], ['linalg'], bounded=['XorBase (construction, add, +, +=, dim: span and independence) and the entrywise Matrix operations, submatrix, assign_submatrix, identity and matrix-vector product are proved for every size; matrix products, inverses, determinants, elimination, F2 matrices, circulants, hafnian and tree counting are covered by the replay program only, against definitions on random small matrices (Strassen: sizes 71-146)'], conf_s=12)
prop('C22', 'Quotient ranges, denominators, roots, logarithms, towers, factorial numbers',
     'For every argument in range: the distinct quotients of n, their ranges (also for several numerators at once) and the denominators with a given rounded quotient are enumerated exactly, without gap or overlap; k-th roots are rounded exactly; the square-free count and the summatory Mobius and totient functions have their defining value at every floor(n/d); a discrete logarithm is the least exponent, and is reported missing only if there is none; power towers are correct modulo every m; a factorial number is an integer modulo n!, and its permutation the one with that lexicographic rank; a modular square root is returned exactly for squares.',
     ['inputs'], 'every argument within the stated limits',
     'Perfect powers and their neighbours, moduli sharing factors with the base, quotients at the square-root boundary and negative operands form thin sets that samples miss.',
     ['library/number/', 'library/math/modint_extension.hpp'],
     [('quotients', 'library/number/enumerate_quotient.hpp, find_denominators.hpp'), ('roots', 'library/number/kth_root_round.hpp'), ('counts', 'library/number/count_square_free.hpp, sum_of_mobius_function.hpp, sum_of_totient_function.hpp'), ('logarithm', 'library/number/discrete_logarithm.hpp'), ('towers', 'library/number/tetration_mod.hpp'), ('factorial numbers', 'library/number/factorial_number.hpp'), ('square roots', 'library/math/modint_extension.hpp safe_sqrt')],
     ['ntenum', 'tetration'], ['ntenum'], bounded=['the four find_denominators functions (|n|, |q| <= 2^61, any bound), factorial_number arithmetic, comparison, construction and conversion to an integer, and the saturating and modular powers behind tetration_mod are proved for every argument; quotient enumeration and roots (floating-point square roots), the summatory functions, discrete logarithms, tetration_mod itself, permutation ranks and modular square roots are covered by the replay program only'], conf_s=14)
prop('C23', 'Two-dimensional, sparse, persistent and offline range structures',
     'After any sequence of operations every query agrees with the plain array, grid or map it represents: 2D segment and Fenwick trees (dense, sparse and coordinate-compressed) return the fold over exactly the cells of the queried rectangle; sparse segment trees (also lazy) over a huge index range, Li Chao trees (minimum over the lines and segments added so far), segment tree beats, offline rectangle-add rectangle-sum, and union-find with component sums, lazy values or persistence return what the history implies; a persistent version keeps its value whatever is done to other versions.',
     ['inputs', 'histories'], 'every history of operations with indices in range',
     'Sizes that are not powers of two, nodes shared between versions and lazily created nodes only interact after particular histories.',
     ['library/datastructure/segment_tree/', 'library/datastructure/fenwick_tree/', 'library/datastructure/union_find/', 'library/range_query/'],
     [('2D trees', 'library/datastructure/segment_tree/segment_tree_2d.hpp, library/datastructure/fenwick_tree/fenwick_tree_2d.hpp'), ('sparse', 'library/datastructure/segment_tree/sparse_segment_tree.hpp, sparse_lazy_segment_tree.hpp'), ('persistent', 'library/datastructure/segment_tree/persistent_segment_tree.hpp, library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp'), ('Li Chao', 'library/datastructure/segment_tree/lichao_tree.hpp'), ('union find', 'library/datastructure/union_find/union_find_component_sum.hpp')],
     ['fenwick2d', 'segtree2d'], ['advrange'], bounded=['SegmentTree2D (construction, assignment, rectangle product; commutative monoid) and FenwickTree2D (every operation; abelian group) are proved for every size and history step; the sparse, compressed, persistent, Li Chao, beats, offline and union-find structures are covered by the replay program only'], conf_s=16)
prop('C24', 'Dynamic sequences, balanced search trees, ordered maps and sets',
     'A sequence held in a treap, red-black tree or splay tree behaves as the plain array it represents after any history of insertions, erasures, splits, concatenations, rotations, reversals, assignments and range updates: element access, iteration in both directions, range products (in order, also for non-commutative operations) and searches agree with the array; joining two trees yields their elements in order with nothing else disturbed; the ordered maps, sets and the sortable segment tree agree with a sorted association list; a persistent version keeps its value whatever is done to other versions.',
     ['inputs', 'histories'], 'every history of operations with indices in range',
     'The shape of the tree depends on random priorities and on the whole history; lost links, stale subtree products and shared nodes show only for particular shapes.',
     ['library/datastructure/bbst/', 'library/datastructure/dynamic_sequence.hpp', 'library/datastructure/splay_tree_map.hpp', 'library/datastructure/segment_tree/sortable_segment_tree.hpp'],
     [('treaps', 'library/datastructure/bbst/implicit_treap_base.hpp, reversible_implicit_treap_base.hpp'), ('red-black trees', 'library/datastructure/bbst/red_black_tree.hpp, persistent_red_black_tree.hpp'), ('splay trees', 'library/datastructure/dynamic_sequence.hpp, range_foldable_dynamic_sequence.hpp, lazy_eval_dynamic_sequence.hpp'), ('ordered maps', 'library/datastructure/splay_tree_map.hpp, range_foldable_map.hpp, lazy_eval_map.hpp, splay_tree_set.hpp'), ('sortable', 'library/datastructure/segment_tree/sortable_segment_tree.hpp')],
     ['treap'], ['dynseq'], bounded=['concatenation of implicit treaps (merge: in-order sequence, subtree sizes, neighbour links, nothing else modified) is proved for every pool state; the other operations and trees are covered by the replay program only (keys of the sortable segment tree distinct; reversal of folded splay sequences with a commutative operation)'], conf_s=20)
prop('C25', 'Search, permutation, sequence and grid utilities',
     'Binary search returns the least argument at which a monotone predicate holds, and ternary search the optimum of a convex or concave function, evaluating only arguments of the given range; permutations compose, invert, act on sequences, are raised to powers, ranked and enumerated as the mathematical objects; run-length encodings, subset enumerations, grid transformations, views and containers represent exactly the plain sequences they stand for; counting pairs with a bounded sum, the longest monotone subsequence, the Cartesian tree and the permutation tree agree with their definitions; distinct values get independent Zobrist hashes.',
     ['inputs', 'histories'], 'every input meeting the documented precondition',
     'Boundary arguments, ties, empty inputs and rarely used element types are where such helpers go wrong, and no test covers these headers.',
     ['library/util/', 'library/datastructure/cartesian_tree.hpp', 'library/datastructure/permutation_tree.hpp', 'library/dp/'],
     [('search', 'library/util/search.hpp'), ('permutations', 'library/util/permutation.hpp'), ('grids', 'library/util/grid_utils.hpp'), ('pair counts', 'library/util/sum_count.hpp'), ('subsets', 'library/util/subset_iterator.hpp'), ('Cartesian tree', 'library/datastructure/cartesian_tree.hpp'), ('permutation tree', 'library/datastructure/permutation_tree.hpp'), ('longest increasing subsequence', 'library/dp/longest_increasing_subsequence.hpp')],
     ['seqtools'], ['seqtools'], bounded=['proved for every input: binary and exponential search, integral ternary search, Permutation identity / permute / inv_permute / inv / product, sum_count and sum_count_leq, transpose and rot90, the parents of the Cartesian tree, subset successor (32 bits); the remaining utilities are covered by the replay program only'], conf_s=15)
prop('C26', 'Formal power series, polynomials and set power series',
     'Sums, differences, products, shifts, derivatives, integrals and values of formal power series and polynomials are those of the coefficient sequences they represent; inverse, logarithm, exponential, power and square root satisfy their defining equations to the requested precision, and square roots that do not exist are reported as such; division, gcd, interpolation, multipoint evaluation, Taylor shifts, linear-recurrence tools, rational, sparse and set power series agree with their definitions, for every length including the empty series and for the naive and the convolution-based implementations alike.',
     ['inputs', 'histories'], 'every coefficient sequence and precision meeting the documented precondition',
     'Lengths at the switch between algorithms, zero and missing leading coefficients and precisions beyond the stored terms are each a separate case; the stable tests cover none of these headers.',
     ['library/polynomial/', 'library/math/set_power_series.hpp', 'library/math/array_set_power_series.hpp', 'library/math/modint_extension.hpp', 'library/convolution/'],
     [('naive series', 'library/polynomial/fps_naive.hpp'), ('fixed-length series', 'library/polynomial/array_fps_naive.hpp'), ('convolution-based series', 'library/polynomial/fps.hpp'), ('sparse series', 'library/polynomial/vec_sparse_fps.hpp'), ('interpolation', 'library/polynomial/polynomial_interpolation.hpp'), ('gcd', 'library/polynomial/polynomial_gcd.hpp'), ('set power series', 'library/math/set_power_series.hpp'), ('modular square root', 'library/math/modint_extension.hpp')],
     ['fpsnaive'], ['poly'], bounded=['proved for every series over a commutative ring: FPSNaive sum, difference, scaling, negation, product, truncated product, derivative, evaluation, coefficient access and inverse; all other operations and the convolution-based implementation are covered by the replay program only, at lengths up to about 130'], conf_s=25)
prop('C27', 'Factorials, inverses, powers and combinatorial number sequences',
     'Tables of factorials, inverse factorials, modular inverses and powers contain n!, 1/n!, 1/n and a^n at every index ever asked for, however the requests that grow the tables are ordered; binomial, permutation and multinomial coefficients are 0 outside their range and exact inside; Stirling, Bell, Bernoulli, Eulerian, Montmort and partition numbers, power sums, prefix sums of binomial coefficients and the small-prime and arbitrary-modulus variants agree with their combinatorial definitions for every n, including 0.',
     ['inputs', 'histories'], 'every index for which the modulus makes the value well defined, and every order of requests',
     'The tables grow on demand, so correctness depends on the order of requests and on the modulus; n = 0, n = 1 and indices near a small modulus are the cases that break, and no stable test covers these headers.',
     ['library/math/factorial.hpp', 'library/math/inv_mods.hpp', 'library/math/pow_mods.hpp', 'library/math/factorial_embeded.hpp', 'library/math/binomial_coefficient_sum.hpp', 'library/sequence/'],
     [('factorials', 'library/math/factorial.hpp'), ('inverses', 'library/math/inv_mods.hpp'), ('powers', 'library/math/pow_mods.hpp'), ('Montmort numbers', 'library/sequence/montmort_number.hpp'), ('Stirling numbers of the first kind', 'library/sequence/stirling_number1.hpp'), ('Stirling numbers of the second kind', 'library/sequence/stirling_number2.hpp'), ('partition numbers', 'library/sequence/partition_number.hpp'), ('binomial sums', 'library/math/binomial_coefficient_sum.hpp')],
     ['comb'], ['comb'], bounded=['proved for every input and history: factorial growth, n!, 1/n!, binom and perm, inv_mods growth for a prime modulus, get_invs, pow_mods, Montmort numbers and both Stirling tables; the remaining sequences are covered by the replay program only'], conf_s=15)
prop('C28', 'Big-integer arithmetic',
     'unsigned_bigint and bigint compute exactly: construction from integers and decimal strings, conversion back, comparison, sums, differences, products (schoolbook, Karatsuba and convolution), shifts by decimal limbs, quotients, remainders, increments and decrements agree with the integers they stand for, for every sign and length including zero, and every result is in the canonical form without leading zero limbs that comparison and conversion rely on; convolution_naive of any two sequences, empty ones included, is their convolution.',
     ['inputs', 'histories'], 'every pair of integers within memory limits',
     'Carries across runs of 999999999 limbs, borrows that cancel all leading limbs, zero limbs inside a dividend and the switch between multiplication algorithms are each a separate case; no stable test exercises these headers.',
     ['library/math/unsigned_bigint.hpp', 'library/math/bigint.hpp', 'library/convolution/convolution_naive.hpp'],
     [('unsigned arithmetic', 'library/math/unsigned_bigint.hpp'), ('signed arithmetic', 'library/math/bigint.hpp'), ('schoolbook convolution', 'library/convolution/convolution_naive.hpp')],
     ['bigint'], ['bigint'], bounded=['proved for every operand: unsigned <, ==, +=, -=, ++, --, conversion from unsigned and to unsigned long long, limb shifts, comparison with powers, carry normalisation, schoolbook product, division by a one-limb divisor, and signed <, ==, negation, +=, -=, ++, --; Karatsuba, division by longer divisors, strings and the other conversions are covered by the replay program only (up to about 500 limbs)'], assumptions=['operands of += and -= are distinct objects in the proofs (a += a is covered by the replay program)', 'convolution_int, used beyond 200 limbs, needs the absent AtCoder Library and is replaced by a naive stand-in in the replay program'], conf_s=20)
prop('C29', 'Lower envelopes, slope trick and Lagrangian search',
     'ConvexHullTrick and MonotonicCHT return, at every query point, the least (greatest) value among all lines added so far, for every order of insertions and queries their contracts allow and for integral and floating-point values; SlopeTrick represents exactly the convex piecewise-linear function its history of additions, translations, cumulative minima and sliding-window minima defines, with its minimum, its whole argmin range and its breakpoints; alien_convex and alien_concave return f(x) for every convex (concave) f and every x in its domain.',
     ['inputs', 'histories'], 'every history of operations within the documented coordinate ranges',
     'Equal slopes, dominated lines, lines added between queries, breakpoints that move between the two lazily shifted halves and plateaus of the dual function are each a separate case; no stable test exercises these headers.',
     ['library/datastructure/convex_hull_trick.hpp', 'library/datastructure/monotonic_convex_hull_trick.hpp', 'library/datastructure/slope_trick.hpp', 'library/optimization/alien_dp.hpp'],
     [('slope trick', 'library/datastructure/slope_trick.hpp'), ('Lagrangian search', 'library/optimization/alien_dp.hpp'), ('convex hull trick', 'library/datastructure/convex_hull_trick.hpp'), ('monotone convex hull trick', 'library/datastructure/monotonic_convex_hull_trick.hpp')],
     ['hull'], ['hull'], bounded=['proved for every history: all SlopeTrick operations except lines(), and all four alien searches; ConvexHullTrick, MonotonicCHT and SlopeTrick::lines are covered by the replay program only'], assumptions=['std::priority_queue is a multiset with push, top and pop (theory in specs/hull.py)', 'alien searches: the precondition states what convexity of f gives (monotone steps of g, f(x) is the maximum of g(p) + p x, attained at a slope in the given range)'], conf_s=20)
prop('C30', 'Plane geometry predicates and constructions',
     'The integral predicates (orientation, parallelism, position of a point with respect to lines, rays, segments, circles, polygons and convex hulls, segment intersection, equality, order by argument, area, convexity, tangents) are exact for every configuration whose products fit the coordinate type; convex_hull returns a counterclockwise hull containing all points for every multiset of points, and the closest pair, farthest pair, lattice-point count and segment-intersection count are correct, degenerate inputs included; the floating-point counterparts agree with them up to their tolerance and the constructed points, circles and tangents lie where they must.',
     ['inputs'], 'every configuration of points whose coordinate products fit the coordinate type',
     'Collinear, coincident and vertical configurations, opposite rays, both orientations and vectors on the axes are each a separate case; no stable test exercises these headers.',
     ['library/integral_geom/', 'library/geom/'],
     [('exact predicates', 'library/integral_geom/geometry.hpp'), ('order by argument', 'library/integral_geom/sort_points_by_argument.hpp'), ('hulls', 'library/integral_geom/convex_hull.hpp'), ('hull inclusion', 'library/integral_geom/convex_hull_inclusion.hpp'), ('lattice points', 'library/integral_geom/count_lattice_point.hpp'), ('closest pair', 'library/integral_geom/closest_pair.hpp'), ('floating-point geometry', 'library/geom/geometry.hpp'), ('segment intersections', 'library/geom/segment_intersections.hpp')],
     ['geom'], ['geom'], bounded=['proved for all coordinates up to 2^28 in absolute value: det, dot, square_abs, sgn, isp, triangle and polygon area, parallel, orthogonal, equality of lines, rays and segments, points on lines, rays and segments, tangent_num, points in circles, compare_by_atan2, is_convex, and has_common_point relative to isp; hulls, pairs, inclusion, lattice points and all floating-point functions are covered by the replay program only, on small configurations; geometry3d is not covered'], conf_s=20)
prop('C31', 'Offline queries, rectangles, Horn formulas and set families',
     'Mo answers every query with the value of its own window, for every sequence of windows, calling the callbacks only in the documented states; HornSAT decides satisfiability and returns the least model; maximal_rectangles_hist, maximal_rectangles, maximum_rectngle and maximum_square report only all-ones rectangles, every maximal one and a largest one; the offline connectivity structures answer as the graph at the time of the query would; DynamicConvexHullOffline keeps the exact hull and linear extrema under insertion and deletion; the static range inversion, mode and xored-mex structures answer every range exactly, empty ranges and sequences included; the ZDD operations compute the family operations they are named after, canonically.',
     ['inputs', 'operation sequences'], 'every query sequence, every grid, every clause set, every family of sets',
     'Errors appear for particular orders of windows, for premises fixed to false, equal heights, ranges inside one block or on a block boundary, edges deleted between particular queries, or families without the empty branch; no stable test covers these headers.',
     ['library/algorithm/', 'library/range_query/', 'library/datastructure/ZDD.hpp'],
     [("Mo's algorithm", 'library/algorithm/mo.hpp'), ('Horn satisfiability', 'library/algorithm/horn_sat.hpp'), ('rectangles', 'library/algorithm/maximum_rectangle.hpp'), ('squares', 'library/algorithm/maximum_square.hpp'), ('offline connectivity', 'library/algorithm/offline_dynamic_connectivity.hpp'), ('offline connectivity with sums', 'library/algorithm/offline_dynamic_connectivity_component_sum.hpp'), ('offline dynamic hull', 'library/algorithm/dynamic_convex_hull_offline.hpp'), ('range inversions', 'library/range_query/static_range_inversion_number_query.hpp'), ('range mode', 'library/range_query/static_range_mode_query.hpp'), ('range xored mex', 'library/range_query/static_range_xored_mex_query.hpp'), ('ZDD', 'library/datastructure/ZDD.hpp')],
     ['offline'], ['offline'], bounded=['proved for all inputs: Mo::solve (every query answered with its window, for every order that lists every query; the order produced by the constructor is not under contract), maximal_rectangles_hist (only rectangles, every maximal one), maximum_square (all ones, none larger, sides up to 46340); HornSAT, maximal_rectangles, offline connectivity, the offline hull, the static range structures and ZDD are covered by the replay program only'], conf_s=20)
prop('C32', 'Affine maps, nimbers, object pools, stream wrappers and the expression parser',
     'Affine and AffineClamp evaluate and compose as functions: compose(f, g)(x) = f(g(x)) for every x, the clamped evaluation being exact for all 64-bit arguments; nimber addition, multiplication, inversion and division are those of the field of nimbers below 2^64; ObjectPool and ptr32 never hand out a live object twice and keep live objects intact; InputStream and OutputStream round-trip all values including 128-bit integers; normal_expression evaluates every well-formed expression with the usual precedence; the SIMD primality test is exact below 2^31.',
     ['inputs', 'operation sequences'], 'every argument, every composition, every alloc/free history, every well-formed expression',
     'Negative slopes swap the clamping bounds, intermediate products exceed 64 bits, the smallest 128-bit integer has no negation, freed slots are reused; no stable test covers these headers.',
     ['library/algebra/', 'library/util/', 'library/io/', 'library/icpc/'],
     [('affine maps', 'library/algebra/monoid/affine.hpp'), ('clamped affine maps', 'library/algebra/monoid/affine_clamp.hpp'), ('nimbers', 'library/algebra/field/nimber.hpp'), ('object pool', 'library/util/object_pool.hpp'), ('32-bit pointers', 'library/util/pointer_32bit.hpp'), ('output', 'library/io/output_stream.hpp'), ('input', 'library/io/input_stream.hpp'), ('expressions', 'library/icpc/parsing.hpp'), ('SIMD primality', 'library/number/deterministic_miller_rabin_simd.hpp')],
     ['algebra'], ['algebra'], bounded=['proved for all 64-bit arguments: evaluation, composition, sum, difference, negation and order of Affine whenever the operations of the coefficient type do not overflow; evaluation (never overflows), identity and composition of AffineClamp whenever the composed coefficients fit; nimbers, pools, streams, the parser and the SIMD test are covered by the replay program only'], conf_s=15)
NOT_APPLICABLE = []
