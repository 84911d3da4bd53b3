#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of claimed properties)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["public API return values and process outcome"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
I = "src/include/"
p("C01", "Vector and List behave as finite sequences under every history",
  "For every sequence of constructor, copy, assignment, push/pop, insert, erase, set, clear, sort, reverse and merge calls, a Vector or List holds exactly the sequence those calls define: size, isEmpty, every const and non-const element access, iteration in both directions, conversion to the STL type and the six comparison operators all report that same sequence, and copies are independent; arguments may refer to elements of the container itself. Writing a Vector to a stream and reading it back gives an equal Vector.",
  ["histories", "inputs"], "all operation histories over any number of live containers, all element values and indexes",
  "The gtest cases run each member once on containers of two or three elements; the const overloads, most comparisons, aliasing and long histories are never combined.",
  [I+"containers/Vector.h", I+"containers/List.h"],
  [("bounds-checked delegation to std::vector", I+"containers/Vector.h:246"), ("bounds-checked delegation to std::list", I+"containers/List.h:250"), ("stream operators", I+"containers/Vector.h:386")])
p("C02", "Stack is LIFO and Queue is FIFO under every history",
  "For every history of push/enqueue, pop/dequeue, clear, copy, assignment and write-through-reference calls, a Stack returns elements in last-in-first-out order and a Queue in first-in-first-out order; top/first/last, size, isEmpty, STL conversion and the six lexicographic comparisons always describe exactly the elements currently held, and copies are independent.",
  ["histories", "inputs"], "all operation histories and element values",
  "Tests push two or three fixed values; interleavings of pops, copies, clears and comparisons are not explored.",
  [I+"containers/Stack.h", I+"containers/Queue.h"],
  [("delegation to std::stack", I+"containers/Stack.h:121"), ("delegation to std::queue", I+"containers/Queue.h:133")])
p("C03", "Map, Set, MultiMap and MultiSet behave as (multi)maps and (multi)sets",
  "For every history of construction, insertion, set/operator[], erase, clear, copy and assignment, Map and Set hold one entry per key, MultiSet holds every inserted occurrence, and MultiMap holds every constructed pair; erase removes every entry with that key, contains/count/get/find/size/isEmpty, ordered iteration (const and non-const), STL conversion and the six comparisons all describe exactly that content, and copies are independent. Arguments may refer to elements of the container itself.",
  ["histories", "inputs"], "all operation histories, keys and values",
  "Tests use a few literal containers and single calls.",
  [I+"containers/Map.h", I+"containers/Set.h", I+"containers/MultiMap.h", I+"containers/MultiSet.h"],
  [("delegation to std::map / std::set", I+"containers/Map.h:168"), ("find collects every value of the key", I+"containers/MultiMap.h:196"), ("erase of a missing value is an error", I+"containers/MultiSet.h:186")])
p("C04", "Misuse of a container is always reported, valid use never is",
  "In every reachable state, an access a container documents as illegal (index outside [0,size) or insert outside [0,size], reading or removing from an empty Vector/List/Stack/Queue, Map::get of a missing key, MultiSet::erase of a missing value, malformed Vector input) ends the program with a failure status and a non-empty diagnostic on stderr. No legal call is ever rejected, and no illegal one returns.",
  ["histories", "inputs"], "all reachable container states, every index and key including negative, INT_MIN and INT_MAX",
  "Death tests sample one bad index per call; the boundary index of every state and every overload is not covered.",
  [I+"utils/error.h", I+"containers/Vector.h", I+"containers/List.h", I+"containers/Queue.h", I+"containers/Stack.h", I+"containers/Map.h", I+"containers/MultiSet.h"],
  [("error macro", I+"utils/error.h:18"), ("boundaryCheck/emptyCheck", I+"containers/Vector.h:368"), ("emptyCheck", I+"containers/Queue.h:238"), ("keyCheck", I+"containers/Map.h:283")])
p("C05", "SegmentTree answers every range query as the plain array would",
  "After any sequence of addInterval and mulInterval calls on a segment tree over an array of any length, querySum, queryMax and queryMin on every interval within the array return the sum, maximum and minimum of that interval of the array obtained by applying the same updates element by element (values whose exact results fit the element type).",
  ["histories", "inputs"], "all array lengths, initial values, update sequences (positive, zero and negative factors) and query intervals",
  "Tests apply one or two updates to a single 10-element array; lazy tags that are composed, left pending or pushed through partially covered nodes are not reached.",
  [I+"graph/SegmentTree.h"],
  [("lazy add/mul tags pushed down before descending", I+"graph/SegmentTree.h:60"), ("node aggregates recomputed on the way up", I+"graph/SegmentTree.h:100")])
p("C06", "BST is an ordered dictionary under every insert/erase/query history",
  "For every history of insert, erase, find, pre and suf over nodes with distinct ranks, find returns the node currently stored with that rank (or null), pre and suf of a stored node return the stored node with the next smaller and next larger rank (or null), erase removes exactly the given node, and erased nodes can be inserted again.",
  ["histories", "inputs"], "all operation histories and rank sets, any tree shape",
  "Tests insert a handful of nodes and query without interleaving erase.",
  [I+"graph/BST.h", "src/graph/BST.cpp"],
  [("splay rotations", "src/graph/BST.cpp:10"), ("insert/erase/find/pre/suf", "src/graph/BST.cpp:40")])
p("C07", "Rooted-tree queries agree with the parent relation",
  "For every rooted tree built by setRoot and addNode in any order, LCA of two nodes is their deepest common ancestor, getDistance is the number of edges on the path between them, getAncestor(k) is the node reached by k parent steps for 0 <= k <= depth, every node reports the parent, sons, depth and ancestors its parent chain gives, and getRoot is the node given to setRoot (null before that).",
  ["histories", "inputs"], "all trees and all node pairs, any depth",
  "Tests use one small balanced tree.",
  [I+"graph/Tree.h", "src/graph/Tree.cpp"],
  [("binary lifting table filled by addNode", "src/graph/Tree.cpp:10"), ("LCA by lifting", "src/graph/Tree.cpp:30")])
p("C08", "Vertex and Edge keep the graph consistent through its lifetime",
  "After any sequence of vertex creation (copies of edgeless vertices included), addEdge, value and validity changes and vertex destruction, every edge appears exactly once in the out-list of its start and once in the in-list of its end, degrees equal the list lengths, every edge keeps the end points, value and validity it was given, vertex and edge identities (getID, ==) are unique, < orders by value, and no list holds an edge of a destroyed vertex.",
  ["histories"], "all creation / addEdge / destruction histories, including self loops and parallel edges",
  "Tests build one fixed graph and never destroy a vertex while its neighbours are used.",
  [I+"graph/Vertex.h", I+"graph/Edge.h", "src/graph/Vertex.cpp", "src/graph/Edge.cpp"],
  [("addEdge updates both lists", "src/graph/Vertex.cpp:81"), ("destructor unlinks and releases incident edges", "src/graph/Vertex.cpp:40")])
p("C09", "Trie is an exact, iterable set of strings, independent of other tries",
  "For every history of insertions, removals and copies over words of its alphabet (the default letters or a caller-supplied mapping of any size), a Trie contains exactly the inserted and not removed words, size is their number, iteration yields each of them exactly once in code order, removing an absent word changes nothing, and any number of tries with different alphabets can be used side by side without affecting each other.",
  ["histories", "inputs", "configurations"], "all word sets, insertion/removal orders, alphabets and interleavings over several tries",
  "Tests insert a few words in one order; relocation conflicts of the double array, backtracking iteration and several tries at once are not explored.",
  [I+"string_utils/Trie.h", "src/string_utils/Trie.cpp"],
  [("double-array insert with relocation", "src/string_utils/Trie.cpp:106"), ("remove", "src/string_utils/Trie.cpp:204"), ("depth-first visit used by iterators", "src/string_utils/Trie.cpp:77")])
p("C10", "JSON dump and load are inverse on every document",
  "For every JSON value built through the API (null, booleans, int integers, doubles, strings, arrays and objects in any nesting), the dumped text is JSON in which strings and keys have quotes, backslashes and the control characters \\b \\f \\n \\r \\t escaped and integers are printed in full, and loading that text gives an equal value: same types, same keys and strings byte for byte, same array order. Dumping the loaded value again yields the same text. Floating-point numbers are printed with, and preserved to, six decimals.",
  ["inputs"], "all values: any nesting, any strings and keys (quotes, backslashes, control characters, non-ASCII, empty), any int, any finite double, booleans, null",
  "Tests compare a few literal documents.",
  [I+"json/Json.h", "src/json/Json.cpp", "src/json/json_functions.cpp"],
  [("dump", "src/json/Json.cpp:100"), ("recursive-descent parser", "src/json/Json.cpp:260"), ("jsonEscape", "src/json/json_functions.cpp:1")])
p("C11", "JSON objects are independent values under every mutation history",
  "For every history of construction, copy, move, assignment (including self-assignment and assigning an object one of its own members), operator[] and at on keys and indexes, append and mutation through references (which stay valid while the members they name exist, also when an array or object grows) and ranges, each JSON object holds exactly the value those operations define (a moved-from object is null, navigating into a missing place creates null there), mutation of one object never changes another, and type queries, size, length, hasKey, ranges and conversions agree with that value. Reading a const object changes nothing: at of a missing key or index (also when the value is not an object or array at all) is reported as an exception.",
  ["histories"], "all operation histories over several live objects",
  "Tests mutate single objects and never exercise aliasing.",
  [I+"json/Json.h", "src/json/Json.cpp"],
  [("deep copy of the backing union", "src/json/Json.cpp:20"), ("type-switching operator[]", "src/json/Json.cpp:150")])
p("C12", "The JSON parser accepts every valid text with its value, rejects malformed",
  "For every JSON text, loading yields the value the text denotes: integers within int, decimals and exponents as doubles, strings with the standard escapes (\\uXXXX is kept as written), literals, arrays and objects (a repeated key keeps its last value), with any whitespace between tokens. Text that is structurally malformed (truncated anywhere, missing or doubled separators, bad literals, keys that are not strings) ends in a reported error. No input text makes the parser crash, hang or read outside the text.",
  ["inputs"], "all texts",
  "Tests parse a few well-formed documents; number grammar, truncation at every position and malformed input are unsampled.",
  ["src/json/Json.cpp"],
  [("parse_number / parse_string / parse_array / parse_object", "src/json/Json.cpp:260")])
p("C13", "Base64 and URL codecs are inverse and standard-conformant on all bytes",
  "For every byte string, base64Encode produces the RFC 4648 encoding (with an explicit length: padded with '=' to exactly that length, or empty if it does not fit), and base64Decode inverts it, with or without its padding; urlEncode keeps exactly the unreserved characters and turns every other byte into %XX (upper-case hex), and urlDecode inverts it, also reading '+' as a blank and hex digits of either case. Text that is not a valid encoding is decoded without crashing, hanging or reading outside the input.",
  ["inputs"], "all byte strings of all lengths, including NUL and high bytes",
  "Tests encode a few printable ASCII strings.",
  ["src/base64/base64_functions.cpp", "src/network/network_functions.cpp"],
  [("base64 codec", "src/base64/base64_functions.cpp:1"), ("percent codec", "src/network/network_functions.cpp:1")])
p("C14", "BigNum arithmetic is exact",
  "For all integers whose operands and result have at most MAX_SIZE decimal digits, BigNum construction (default, int64, decimal text with optional minus and leading zeros), copy, assignment, +, -, * with BigNum or int64 operands, their compound forms (also with itself as operand), prefix and postfix ++/--, negation, abs, the comparisons, digit access and decimal output give the exact integer result, in canonical decimal text (no leading zeros, zero is \"0\"), after any history of operations on the same objects.",
  ["inputs", "histories"], "all integers of any sign and length up to the capacity, all operation histories",
  "Tests add, subtract and multiply a few positive constants.",
  [I+"math_utils/BigNum.h"],
  [("digit-array add/sub/mul/cmp with sign", I+"math_utils/BigNum.h:60")])
p("C15", "Fraction arithmetic is exact rational arithmetic in lowest terms",
  "For all fractions and ints for which the cross products of the textbook formulas fit in int, construction, copy, +, -, *, / between fractions and with an int on either side, the compound forms (also with itself as operand), the six comparisons and output give the exact rational result; every fraction is in lowest terms with a positive denominator, and a zero denominator or division by zero is reported as an error.",
  ["inputs"], "all numerators, denominators and signs within range",
  "Tests use a few positive fractions.",
  [I+"math_utils/Fraction.h"],
  [("reduction by gcd", I+"math_utils/Fraction.h:20"), ("operators", I+"math_utils/Fraction.h:50")])
p("C16", "Matrix is an exact, independent value with correct algebra",
  "For all matrices of conforming shapes, +, -, * and their compound forms (also with itself as operand), pow (n >= 0, power 0 being the identity), == and !=, element access and text output give the mathematically defined matrix, reduce leaves a row echelon form with leading ones of the same row space, mismatched shapes stop the program with a diagnostic, and copied or assigned matrices are independent and remain usable after any history of operations.",
  ["inputs", "histories"], "all shapes (square and rectangular), entries and operation histories",
  "Tests use a few 2x2/3x3 constants.",
  [I+"math_utils/Matrix.h"],
  [("owned 2D storage with deep copy", I+"math_utils/Matrix.h:20"), ("product and power", I+"math_utils/Matrix.h:100")])
p("C17", "Integer and power functions return the exact mathematical value",
  "For every argument whose exact result is representable, gcd and lcm (magnitude of the result for negative arguments; lcm where the product a*b is representable and not both arguments are 0), factorial, permutation, binomial, binaryPow and genericBinaryPow return exactly gcd, lcm, n!, n!/(n-r)!, C(n,r) and b^e, for each integer type, including the boundary cases r=0, r=n, n=0 and e=0, and genericBinaryPow over double, Fraction, BigNum, Matrix and user types with operator*= (no intermediate value leaves the range of the result). Negative arguments of factorial, r outside 0..n and negative exponents are reported with the library error (for types not constructible from int also exponent 0).",
  ["inputs"], "all representable arguments of all integer types",
  "Tests check a few points.",
  [I+"math_utils/math_functions.h", "src/math_utils/binary_pow.cpp"],
  [("Euclid", I+"math_utils/math_functions.h:24"), ("square and multiply", "src/math_utils/binary_pow.cpp:4"), ("Pascal row", I+"math_utils/math_functions.h:495")])
p("C18", "Statistics functions compute their definitions on every input form",
  "For every data set of exactly representable values (sum representable in the element type), sum (also with a mapping function, which is called once per element) is exact, and mean, variance, stddev, sample_variance and sample_stddev equal their defining formulas within rounding (relative error 1e-9 plus absolute error 2e-6, also when the mean is large compared to the spread), through every overload: int*/double* arrays with the number of leading elements to use, STL containers, cuhksz::Vector and cuhksz::List. The data is not modified. A negative size gives 0.",
  ["inputs"], "all data sets, element types and overloads",
  "Tests check one data set per overload.",
  [I+"math_utils/math_functions.h", "src/math_utils/statistics.cpp"],
  [("accumulations", "src/math_utils/statistics.cpp:6"), ("template overloads", I+"math_utils/math_functions.h:60")])
p("C19", "Random values stay in range and are reproducible from the seed",
  "For every output of the underlying engine and every valid range, nextInt, nextDouble, nextBool, the random helper functions and the uniform distribution classes return a value inside the documented range (min included, max excluded; max - min finite for real ranges; min == max gives min), every integer of the range is reachable and all are equally likely, and real values are spread evenly over the range, over a long sequence. Two generators with the same seed produce the same sequence whatever other generators do in between, setSeed restarts that sequence, a copy continues exactly like its original and independently of it, and different seeds give different sequences.",
  ["inputs", "histories", "configurations"], "all engine outputs including the extremes, all ranges including ones wider than INT_MAX, all seeds, interleavings of several generators",
  "Tests draw a few thousand values of one seed; extreme generator outputs have probability 2^-64.",
  [I+"random/Random.h", "src/random/Random.cpp", "src/random/random_functions.cpp", I+"random/UniformDistribution.h", I+"random/UniformIntDistribution.h"],
  [("scaling of raw 64-bit outputs", "src/random/Random.cpp:10"), ("helpers over one static generator", "src/random/random_functions.cpp:1")])
p("C20", "Distributions have the stated support, law, and always terminate",
  "For all valid parameters (mean at most 10^6) every distribution's next() terminates for every output of the engine and returns a finite value in the support of its law; the frequencies of the discrete laws over equally spaced uniform inputs, and of the continuous laws over long samples, match the law with the given parameters, consecutive values are independent, and this also holds after setRandomGenerator. Parameters can be read back and parameters outside the documented range are reported as an error.",
  ["inputs", "configurations"], "all valid parameters, all generator outputs",
  "Tests compare two moments with loose tolerance for one parameter set.",
  ["src/random/BinomialDistribution.cpp", "src/random/PoissonDistribution.cpp", "src/random/NegativeBinomialDistribution.cpp", "src/random/NormalDistribution.cpp", "src/random/GammaDistribution.cpp", I+"random/GeometricDistribution.h"],
  [("inversion of the CDF", "src/random/BinomialDistribution.cpp:1"), ("polar method", "src/random/NormalDistribution.cpp:1")])
p("C21", "Geometry primitives satisfy their exact definitions",
  "For all points, vectors, lines and circles with exactly representable coordinates (dimensions 1 to 5), +, -, scaling, dot and cross products, len, normalize, comparison (== and != within 1e-6 per coordinate; <, <=, >, >= exactly lexicographic), printing, the intersection of non-parallel lines, disToLine, disToSegment (also of a segment without length), circle area, perimeter and getPoint equal their analytic definitions up to floating-point rounding and at every scale of the picture or of a direction vector, also when the factor of a *= or /= is one of the point's own coordinates; copies are independent, and operations modify no operand except the left side of a compound assignment.",
  ["inputs"], "all coordinates, dimensions and degenerate positions (parallel, vertical, coincident)",
  "Tests check one or two configurations.",
  [I+"geometry/Point.h", I+"geometry/Line.h", I+"geometry/Circle.h", "src/geometry/Line.cpp"],
  [("coordinate loops", I+"geometry/Point.h:20"), ("line intersection", "src/geometry/Line.cpp:1")])
p("C22", "String search and edit distance agree with their definitions",
  "For every text and pattern of arbitrary bytes and every start position, kmpSearch returns the position of the first occurrence of the pattern at or after start, or -1 if there is none (the empty pattern occurs at every position up to the size of the text), and editDistance is the minimum number of single-character insertions, deletions and substitutions turning one string into the other.",
  ["inputs"], "all string pairs over all alphabets and lengths",
  "Tests use a few literals; periodic patterns that exercise the failure function are not enumerated.",
  ["src/algorithm/kmp.cpp", "src/algorithm/edit_distance.cpp"],
  [("failure function", "src/algorithm/kmp.cpp:1"), ("dynamic programme", "src/algorithm/edit_distance.cpp:1")])
p("C23", "zip, map, filter and stringCast are the pure functions they name",
  "For all containers and functions, zip pairs the elements of equal position of any number of containers up to the shortest length, mapAll and filterContainer apply the function exactly once to each element itself, in order, and return the results, respectively exactly the elements satisfying the predicate, in order; none of them changes its input. stringCast gives the first value its text denotes after leading blanks (no value: zero or empty; a number outside the type's range: the nearest bound), every time it is converted and also when the string it was made from is gone.",
  ["inputs"], "all container contents, lengths and element types",
  "Tests use one fixed container each.",
  [I+"algorithm/Zip.h", I+"algorithm/Map.h", I+"algorithm/Filter.h", I+"string_utils/StringCast.h"],
  [("iteration in lock step", I+"algorithm/Zip.h:1")])
p("C24", "Value types own their memory: nothing leaks, dangles or is freed twice",
  "For every history of constructing, copying, assigning (also to itself), moving from, mutating, using and destroying containers, Matrix, BigNum, Fraction, Point, Line, Circle, JSON, Trie, SegmentTree, Random, distribution, Vertex, Tree and BST objects, and containers of them, every object keeps its value until it is changed itself, no memory is read after release or outside its object, none is released twice, operators and library functions leave nothing behind but their result, and once all objects are gone no memory they allocated remains.",
  ["histories"], "all object lifetimes and operation interleavings",
  "Tests do not observe allocation.",
  [I+"math_utils/Matrix.h", I+"geometry/Point.h", I+"json/Json.h", "src/json/Json.cpp", I+"string_utils/Trie.h", I+"graph/SegmentTree.h"],
  [("destructors and copy operations", I+"math_utils/Matrix.h:20")])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
