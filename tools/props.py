"""The properties: what properties.jsonl, MANIFEST.json and the checks are generated from (tools/gen.py)."""
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe), state=list(state)))


SAMPLED = "Sampled executions of the real code; nothing is claimed about inputs that were not run. "

prop("C01", "Loading keeps exactly the distinct input triples, in every configuration",
     "After a set of files is loaded, asking the store for everything returns each distinct triple of the input exactly once and no "
     "other triple, through every permutation that was built, whatever the load and open configuration. "
     "The totals the store reports equal the number of distinct triples and terms.",
     ["inputs", "configurations"], "every input graph, file split, load configuration (permutations, aggregation, skipped tables, thread counts, storage thresholds) and open mode",
     "The repository has no end-to-end test; the three passing tests load nothing into a store.",
     ["src/trident/kb/loader.cpp", "src/trident/kb/inserter.cpp", "src/trident/kb/permsorter.cpp", "src/trident/binarytables", "src/trident/tree"],
     [("load pipeline", "Loader::load"), ("table writers", "Inserter, BinaryTableInserter"), ("index of tables", "TreeWriter/Root/FlatTree")],
     "runtime monitoring: differential oracle over load/query executions under ASan+UBSan",
     SAMPLED + "The reference is a plain set of triples. KOGNAC is replaced by the stand-in in /verif/shim.",
     ["Querier::getIterator on each permutation", "KB::getSize/getNTerms"])
prop("C02", "Pattern queries, counts, cardinalities and existence agree with the data",
     "For every pattern of bound and free positions (including repeated variables), the answers are exactly the matching triples with the right multiplicities and in the requested order. "
     "Counts, cardinalities and existence tests agree with those answers, and estimates are exact where they are documented to be exact.",
     ["inputs", "configurations"], "every graph, pattern, requested order, aggregation and configuration",
     "No test runs a query against a store; the space of pattern, layout and configuration is far beyond examples.",
     ["src/trident/kb/querier.cpp", "src/trident/iterators", "include/trident/binarytables"],
     [("pattern dispatch", "Querier::getIterator/getPermuted"), ("iterators", "src/trident/iterators")],
     "runtime monitoring: differential oracle over query executions under ASan+UBSan",
     SAMPLED + "The reference scans a plain set of triples.", ["Querier::getIterator", "Querier::getCard/estCard/exists/getCountSubjects..."])
prop("C03", "Iterators stay correct under any mix of next, seek, mark and reset",
     "An iterator that is advanced, sought forwards, marked, reset or asked for counts in any legal order returns the same rows as a walk over the plain sorted list of answers. "
     "Seeking never skips an answer at or after the target and never returns one before it.",
     ["inputs", "histories", "configurations"], "every graph, pattern, storage layout and legal sequence of iterator calls",
     "The stable tests exercise no iterator; the call sequences are unbounded.",
     ["src/trident/iterators", "include/trident/binarytables/newtable.h", "include/trident/binarytables/newcolumntable.h", "include/trident/binarytables/newrowtable.h", "include/trident/binarytables/newclustertable.h"],
     [("iterator implementations", "PairItr and its subclasses"), ("table readers", "NewColumnTable/NewRowTable/NewClusterTable")],
     "runtime monitoring: model-based call sequences against a reference cursor under ASan+UBSan",
     SAMPLED + "The reference cursor is a sorted vector.", ["PairItr::next/moveto/mark/reset/getCardinality"])
prop("C13", "Query operators compute the bag of rows their algebra defines",
     "Any tree of scans, joins (inner and optional), unions, differences, filters, grouping, sorting, products, limits and bindings produces exactly the rows, with the multiplicities, that the relational definition of the tree gives, and keeps the order it promises. "
     "Skipping hints and learned value domains never change the result, executing a tree a second time or with several worker threads gives the same rows.",
     ["inputs", "programs", "schedules"], "every operator tree, every data set, any behaviour of the storage layer's hint handling, any number of scheduler threads",
     "No test executes an operator; trees, data and re-execution histories are unbounded.",
     ["rdf3x/src/rts", "rdf3x/include/rts/operator"],
     [("operators", "rdf3x/src/rts/*.cpp"), ("domain descriptions", "rdf3x/src/rts/DomainDescription.cpp"), ("asynchronous execution points", "rdf3x/src/rts/Scheduler.cpp")],
     "runtime monitoring: random operator trees against a reference bag evaluator under ASan+UBSan and TSan",
     SAMPLED + "The storage layer is an in-memory double that honours or ignores hints; the scan protocol is monitored in it. Data races on the pruning domains under several scheduler threads are excluded from the TSan run.",
     ["Operator::first/next", "DBLayer::Scan"])
prop("C15", "Parallel helpers and the thread layer do all work exactly once, race-free",
     "A parallel sort gives the sorted permutation of its input and a parallel loop visits every index of its range exactly once, for every size, grain and thread count, and a failure in any part reaches the caller. "
     "A concurrent queue delivers every element exactly once in order; pools never hand out memory in use and enumerate exactly what is in use; "
     "no notification is lost, a timed wait does not time out early, and the scheduler runs each asynchronous point exactly once, after the points it depends on and before the main plan.",
     ["inputs", "schedules"], "every input, range, grain, thread count and thread interleaving",
     "The example programs run one size with one thread count and look at exit statuses; interleavings are not sampled at all.",
     ["include/trident/utils/parallel.h", "rdf3x/src/infra", "rdf3x/include/infra", "rdf3x/src/rts/Scheduler.cpp"],
     [("parallel sort and loop", "ParallelTasks::sort_int/parallel_for"), ("queue", "ConcurrentQueue"), ("pools", "Pool/StructPool/VarPool/PoolHelper::sort"), ("events", "Event/Mutex"), ("scheduler", "Scheduler::execute/performWork")],
     "runtime monitoring: conservation and ordering monitors over stress runs with injected delays, under ASan+UBSan and TSan",
     SAMPLED + "Interleavings are those the machine produces with random delays.", ["ConcurrentQueue::pop_wait", "Scheduler::AsyncPoint::run", "PoolBase::enumAll"])
prop("C28", "In-memory iterators, caches and settings behave like their plain models",
     "An iterator over an array (with or without constraints) and the difference of two iterators return exactly the rows that a sorted list without the removed rows has, with the right counts and cardinalities, "
     "under any legal mix of next, seek, mark, reset and ignoring the second column. "
     "The cache index returns for every key exactly the blocks and pairs stored for it, sorted; settings read back what was set and otherwise their defaults; "
     "the memory manager keeps its budget and never evicts locked or current blocks; the query-file driver runs every query of a file as written and rejects wrong counts.",
     ["inputs", "histories"], "every array, every constraint, every legal call history, every sequence of stores, settings and evictions",
     "None of these components is touched by the stable tests; the call histories are unbounded.",
     ["src/trident/iterators/arrayitr.cpp", "src/trident/iterators/rmitr.cpp", "src/trident/kb/cacheidx.cpp", "src/trident/kb/kbconfig.cpp", "include/trident/utils/propertymap.h", "include/trident/utils/memorymgr.h", "src/trident/tests/timings.cpp"],
     [("array iterator", "ArrayItr"), ("difference iterator", "RmItr"), ("cache index", "CacheIdx::storeIdx/getIndex"), ("settings", "KBConfig/PropertyMap"), ("memory budget", "MemoryManager"), ("query-file driver", "Timings::launchTests")],
     "runtime monitoring: model-based call histories against plain containers under ASan+UBSan",
     SAMPLED + "Seeking to the current row after a look-ahead is outside the protocol.", ["PairItr::next/moveto/mark/reset", "CacheIdx::getIndex"])
prop("C24", "Circular products and Fourier transforms follow their definitions",
     "The circular convolution and correlation of two real vectors, in single and double precision, are the sums that define them, for every length (also non powers of two), are appended to the result, and leave their inputs as they were. "
     "A Fourier transform matches its definition and the inverse undoes it; complex arithmetic and the sigmoid helpers follow theirs.",
     ["inputs"], "every pair of vectors, every length and magnitude",
     "No test calls the transforms; the lengths and values are unbounded.",
     ["src/trident/utils/fft.cpp", "include/trident/utils/fft.h"],
     [("products", "cconv/ccorr"), ("transforms", "fft/ifft"), ("complex numbers", "Complex")],
     "runtime monitoring: random vectors against the defining sums under ASan+UBSan",
     SAMPLED + "Compared up to a relative rounding error.", ["cconv/ccorr results"])
prop("C11", "The SPARQL lexer splits any query text into exactly its tokens",
     "For every sequence of tokens written with any legal mix of blanks and comments, the lexer returns exactly these tokens with their values and unescaped values; "
     "putting a token back or peeking changes nothing, keywords match regardless of case and only as a whole, and the end stays the end. "
     "Any other byte string is read without a memory error, without skipping anything but blanks and comments, and to an end.",
     ["inputs", "histories"], "every token sequence, every byte string, every mix of reading, peeking and putting back",
     "No test reads a query; the inputs are unbounded.",
     ["rdf3x/src/cts/SPARQLLexer.cpp", "rdf3x/include/cts/parser/SPARQLLexer.hpp"],
     [("lexer", "SPARQLLexer::getNext"), ("values", "getTokenValue/getIRIValue/getLiteralValue"), ("keywords and lookahead", "isKeyword/hasNext/unget")],
     "runtime monitoring: generated token sequences and random byte strings under ASan+UBSan",
     SAMPLED + "A less-than sign is followed by a blank (otherwise it may start an IRI); long (triple) quotes are outside the lexer's language.", ["SPARQLLexer::getNext/getTokenValue/getReader"])
prop("C12", "The Turtle parser returns exactly the triples a document denotes",
     "For every document built from directives, prefixed and relative names, literals with escapes, language tags and datatypes, numbers, booleans, blank nodes, property lists and collections, "
     "in any layout and however the stream delivers it, the parser returns exactly the triples the document denotes (up to the names of generated blank nodes) and then stays at the end. "
     "A document with a wrong statement gives the triples before it and then an exception naming a line of that statement; any damaged document ends in triples or an exception.",
     ["inputs"], "every document and every way the stream splits it",
     "No test parses Turtle; documents are unbounded.",
     ["rdf3x/src/cts/TurtleParser.cpp", "rdf3x/include/cts/parser/TurtleParser.hpp"],
     [("lexer", "TurtleParser::Lexer"), ("statements", "parsePredicateObjectList/parseBlank/parseObject"), ("directives", "parseDirective")],
     "runtime monitoring: documents generated with their triples, plus damaged documents, under ASan+UBSan",
     SAMPLED + "Outside the domain: prefixes named a, true or false, empty local names before a word, local names that do not start with a letter, repeated semicolons, escapes other than t n r quote backslash > and code points, relative names that need more than appending to the base.", ["TurtleParser::parse"])
prop("C14", "Query planning and translation give exactly the rows of the query graph",
     "For every query graph (patterns with constants and repeated variables, VALUES, nested unions, optional parts, MINUS, NOT EXISTS, filters, BIND, subselects, DISTINCT), every database and every set of statistics the planner is told, "
     "the plan that is chosen, once translated and run, returns exactly the bag of rows that the graph denotes; a plan that promises an order delivers it, every estimate is a number, and planning and running end. "
     "The edges of a query graph join exactly the parts that have common variables and name these.",
     ["inputs"], "every query graph, every database, every statistics",
     "No test plans a query; graphs and statistics are unbounded and the planner picks a different plan for each.",
     ["rdf3x/src/cts/QueryGraph.cpp", "rdf3x/src/cts/PlanGen.cpp", "rdf3x/src/cts/Plan.cpp", "rdf3x/src/cts/CodeGen.cpp"],
     [("graph", "QueryGraph::constructEdges"), ("plans", "PlanGen::translate"), ("operators", "CodeGen::translateIntern")],
     "runtime monitoring: random query graphs planned, translated and run against a direct evaluation under ASan+UBSan",
     SAMPLED + "Groups have a part that is not optional; parts outside a union use only variables that all its branches bind; optional parts share only variables that are certain; filters use bound variables or BOUND.",
     ["QueryGraph::constructEdges edges", "PlanGen::translate plans", "CodeGen::translateIntern rows"])
prop("C19", "SNAP containers and strings behave as the values they hold",
     "For every history of operations, vectors (also sets kept as sorted vectors, permutations, merging, searching and sorting), hash tables and sets, sparse and string hash tables, queues, stacks, lists, matrices, trees, vector pools, string pools, priority queues and strings hold and return exactly what the operations put there: "
     "nothing is lost, duplicated or reordered, key ids and vector ids stay valid, copies are independent and equal, saving and loading gives an equal value, and strings parse as exactly the documented numbers.",
     ["histories"], "every sequence of operations on every container, for plain and reference-counted values",
     "The tests only run programs and look at their exit status; contents and histories are unbounded.",
     ["snap/glib-core/ds.h", "snap/glib-core/hash.h", "snap/glib-core/shash.h", "snap/glib-core/dt.cpp", "snap/glib-core/dt.h", "snap/glib-core/hash.cpp"],
     [("vectors, lists, pools", "TVec/TLst/TVecPool/TQQueue"), ("hashing", "THash/THashSet/TStrHash/TSparseHash"), ("strings", "TStr/TStrPool/TBigStrPool")],
     "runtime monitoring: random histories of operations against the C++ library under ASan+UBSan",
     SAMPLED + "Outside the domain: adding an element of a vector to the same vector by reference, set operations on unsorted vectors, integers that overflow.", ["every container operation"])
prop("C20", "SNAP graphs and networks hold exactly the nodes, edges and attributes",
     "For every history of operations (adding and deleting nodes and edges one by one or in bulk, declaring, setting, appending to and deleting dense and sparse attributes, defragmenting, reserving, drawing random nodes and edges, copying, assigning, clearing, saving and loading), "
     "undirected, directed, multi-edge and bipartite graphs and networks contain exactly the nodes, edges, edge ids, data and attribute values the history put there: degrees, neighbours, edge ids, iterators, counts, membership tests, IsOk and attribute lists all agree with each other and with it, "
     "each edge is seen from both of its end points, deleting an edge or node removes it with its attributes and nothing else, and copies are equal and independent.",
     ["histories"], "every sequence of operations on every kind of graph",
     "The tests only run programs and look at their exit status; graphs, ids and histories are unbounded.",
     ["snap/snap-core/graph.cpp", "snap/snap-core/graph.h", "snap/snap-core/network.cpp", "snap/snap-core/network.h", "snap/snap-core/attr.cpp"],
     [("graphs", "TUNGraph/TNGraph/TNEGraph/TBPGraph"), ("networks", "TNodeNet/TNodeEDatNet/TNodeEdgeNet/TNEANet/TUndirNet/TDirNet"), ("attributes", "TAttr/TAttrPair/TNEANet")],
     "runtime monitoring: random histories of operations against a set model under ASan+UBSan",
     SAMPLED + "Outside the domain: giving an attribute a second type, bulk loads that repeat a neighbour or contradict each other, asking multigraphs for edges of missing nodes.", ["every graph operation"])

prop("C04", "Added and removed triples show up in every query, merged or not",
     "After any history of update batches (additions, removals, with known and new terms, repeated or not) and of merges of the updates, a store opened again answers every scan, pattern, cardinality and seek as if it held exactly the triples that result from applying the batches in order: "
     "removed triples are gone, added ones appear once, triples added again reappear, all others are untouched, and every term has one id and its own text. "
     "The difference of two sorted iterators delivers exactly the rows of the first that are not in the second, also after seeking, marking and resetting.",
     ["histories", "configurations"], "every graph, sequence of update batches and merges, and query in between",
     "No test touches updates; their order, overlap and the look-ahead of combined iterators are unbounded.",
     ["src/trident/kb/updater.cpp", "src/trident/kb/diffindex.cpp", "src/trident/kb/querier.cpp", "src/trident/kb/kb.cpp", "src/trident/kb/dictmgmt.cpp", "src/trident/iterators/compositeitr.cpp", "src/trident/iterators/rmitr.cpp", "src/trident/tree/node.cpp"],
     [("writing an update", "Updater::creatediffupdate"), ("combining", "CompositeItr/RmItr/DiffScanItr and Querier::getPermuted"), ("merging", "KB::mergeUpdates")],
     "runtime monitoring: histories of updates against a set of triples under ASan+UBSan",
     SAMPLED + "Outside the domain: stores without the six plain permutations (the code does not support updates of them), counts of distinct terms and group counts after an update.", ["every query after an update", "RmItr::next/moveto/mark/reset"])
prop("C06", "The B+ trees return exactly the values stored last under each key",
     "For every set of keys, order of insertion (ascending, descending, random, appended), node size and cache size, a tree of numbers (to numbers or to table coordinates) or of strings returns for each key the value stored last and nothing for other keys, while it is written and after it is closed and opened again; "
     "inserting an existing string leaves the tree unchanged and returns the existing value, and the iterator lists every key once, ascending, with its value. Nodes evicted from the cache come back with their last content.",
     ["inputs", "histories"], "every sequence of keys, values and configurations of node and cache size",
     "No test touches the trees; splits, evictions and key encodings depend on the whole history.",
     ["src/trident/tree/root.cpp", "src/trident/tree/intermediatenode.cpp", "src/trident/tree/leaf.cpp", "src/trident/tree/node.cpp", "src/trident/tree/cache.cpp", "src/trident/tree/nodemanager.cpp", "src/trident/tree/treeitr.cpp"],
     [("inserting and splitting", "Root::put/append/insertIfNotExists"), ("evicting and reading back", "Cache::registerNode/NodeManager"), ("iterating", "TreeItr")],
     "runtime monitoring: random histories of insertions and lookups against a map under ASan+UBSan",
     SAMPLED + "Outside the domain: more open files than MAX_N_OPENED_FILES allows, full leaves of more than 64 KB, fewer than four cached leaves, compressed nodes.", ["every put, get and iteration"])
prop("C08", "The string buffer returns every string that was stored in it",
     "For every sequence of strings shorter than the maximal term size, with any block boundary, compression state and cache size, the string buffer returns each string byte for byte from the position it was stored at, orders strings as a comparison of their bytes does, while writing and after closing and opening it again, and its background compression neither loses blocks nor hangs.",
     ["inputs", "schedules"], "every sequence of strings and every schedule of the compression thread",
     "No test touches the buffer; block boundaries, shared prefixes and thread timing are unbounded.",
     ["src/trident/tree/stringbuffer.cpp", "include/trident/tree/stringbuffer.h"],
     [("storing", "StringBuffer::append"), ("reading", "StringBuffer::get/cmp"), ("background compression", "StringBuffer::run/compressBlocks")],
     "runtime monitoring: stored strings compared with what is read under ASan+UBSan and TSan",
     SAMPLED + "Outside the domain: terms of MAX_TERM_SIZE bytes or more.", ["every append, get and cmp"])
prop("C09", "SPARQL queries return the solutions that the semantics define",
     "For every graph loaded with a sample and every query built from basic graph patterns, FILTER (comparisons, logic, BOUND, CONTAINS, IN-free term tests, EXISTS and NOT EXISTS), OPTIONAL, UNION, MINUS, VALUES, nested groups, subqueries, DISTINCT, ORDER BY, LIMIT and OFFSET, "
     "the rows returned are exactly the multiset of solutions that SPARQL defines over the triples of the store: none missing, none invented, each as often as it should be, in the order that ORDER BY asks for, cut where LIMIT and OFFSET say, with every value printed as the term that was loaded; constants that the store does not know match nothing and never crash the query.",
     ["inputs"], "every graph and every query of the stated language",
     "No test runs a query against a store; graphs, queries and join orders are unbounded.",
     ["src/trident/sparql/sparql.cpp", "src/layers/TridentLayer.cpp", "rdf3x/src/cts/SPARQLParser.cpp", "rdf3x/src/cts/SemanticAnalysis.cpp", "rdf3x/src/cts/PlanGen.cpp", "rdf3x/src/cts/CodeGen.cpp", "rdf3x/src/rts/Selection.cpp", "rdf3x/src/rts/ResultsPrinter.cpp"],
     [("parsing", "SPARQLParser::parse"), ("analysis and planning", "SemanticAnalysis::transform/PlanGen::translate"), ("execution", "SPARQLUtils::execSPARQLQuery")],
     "runtime monitoring: random queries over loaded stores against a reference evaluator under ASan+UBSan",
     SAMPLED + "Outside the domain: stores loaded without a sample (joins refuse to run), variables of an OPTIONAL used in other places than BOUND, filters in an OPTIONAL over variables from outside it, VALUES over variables that occur in no pattern, regex, lang, datatype, aggregates, BIND.", ["every query and its rows"])
prop("C21", "SNAP's graph algorithms return what their definitions say on every graph",
     "For every undirected, directed or multi-edge graph (sparse or dense node ids, isolated nodes, self loops, parallel edges, several components, trees): degree counts, sequences and maxima, counts of unique, directed, bi-directed and self edges; breadth-first distances and hops (both search variants, any directions, target or depth limit), "
     "random shortest paths that are paths in the directions searched, nodes at a hop, breadth-first trees, eccentricity and full and effective diameters from all nodes; weak, strong, bi- and 1-connected components with their sizes and largest members, articulation points, bridges and k-cores; "
     "induced, edge, random and egonet subgraphs, conversions between kinds with and without renumbering, and removal or addition of self loops, isolated, listed and given-degree nodes all equal what a direct computation from the definition gives, and leave the input graph unchanged. No algorithm stops with an assertion on such a graph.",
     ["inputs"], "every graph of every kind",
     "The tests only look at exit statuses of three programs; graphs are unbounded and the defects sit in rare shapes (roots, equal sizes, single nodes, loops).",
     ["snap/snap-core/alg.h", "snap/snap-core/bfsdfs.h", "snap/snap-core/cncom.h", "snap/snap-core/cncom.cpp", "snap/snap-core/subgraph.h", "snap/snap-core/subgraph.cpp", "snap/snap-core/kcore.h"],
     [("search", "TBreathFS/GetShortPath/GetBfsTree/GetBfsEffDiam"), ("components", "GetWccs/GetSccs/GetBiCon/GetArtPoints/GetEdgeBridges/Get1CnCom/TKCore"), ("subgraphs", "GetSubGraph/GetESubGraph/TConvertGraph/TConvertSubGraph/GetEgonet")],
     "runtime monitoring: every algorithm on random graphs against direct computations under ASan+UBSan",
     SAMPLED + "Outside the domain: GetTreeSig of trees deeper than one level (it stops), GetShortestDistances against the direction of edges, edge counts of k-cores with self loops.", ["every algorithm named in the statement"])
prop("C31", "SNAP's triad, centrality, ranking and flow measures are those of the definitions",
     "For every undirected, directed or multi-edge graph: open and closed triads of every node, triangle counts, clustering coefficients (of a node, of all nodes, averaged, by degree, of a sample), edges in triads, triad participation, common neighbours, paths of length two and network constraint; degree, closeness, farness and betweenness centrality of nodes and edges (over all or chosen sources), "
     "eigenvector centrality, PageRank and HITS after a given number of iterations or at the fixed point (ranks add up to 1), in all sequential, parallel and vector-based variants; and on networks with edge weights or capacities weighted shortest paths, farness, closeness, betweenness and PageRank and the maximum flow by both algorithms equal what a direct computation from the definition gives, up to rounding.",
     ["inputs"], "every graph of every kind, weights and capacities",
     "The tests only look at exit statuses of three programs; a wrong measure looks like any other number.",
     ["snap/snap-core/triad.h", "snap/snap-core/centr.h", "snap/snap-core/centr.cpp", "snap/snap-core/flow.cpp"],
     [("triads", "GetTriads/GetNodeTriads/GetClustCf/CountTriangles/TNetConstraint"), ("centrality", "GetBetweennessCentr/GetFarnessCentr/GetPageRank/GetHits/GetEigenVectorCentr"), ("weights", "GetWeightedShortestPath/GetWeightedBetweennessCentr/GetWeightedPageRank/GetMaxFlowIntEK/GetMaxFlowIntPR")],
     "runtime monitoring: every measure on random graphs against direct computations under ASan+UBSan",
     SAMPLED + "Outside the domain: triad functions that need sorted neighbour lists (GetTriads, CountTriangles and those built on them) on multigraphs, GetTriadEdges with self loops, vector-based variants on graphs whose node ids are not 0..n-1, PageRank of multi-edge networks by weight, HITS and eigenvector centrality of graphs without edges, weights that are not positive.", ["every measure named in the statement"])
prop("C16", "The HTTP server handles every request exactly once and answers it in full",
     "However the bytes of requests are split over packets, with or without bodies of any bytes and length, pipelined or one at a time over connections that stay open, from any number of concurrent clients (also ones that stay idle, leave half way, go away before the answer, send invalid lengths, or make the handler throw), the handler sees every complete request exactly once, byte for byte, never anything else and never on more threads than configured; "
     "every client gets exactly the answers to its own requests, in order; stop() returns, ends all connections and nothing is handled afterwards. The client likewise sends exactly the request asked for and returns the full header and body, however the response (with a length, chunked, or until the connection closes) is split, and reports errors and truncated responses; escaping, unescaping and URL parsing are inverse to composing. No data race or memory error.",
     ["inputs", "schedules", "faults"], "every split of requests and responses, every mix of clients, every schedule of the threads",
     "No test opens a connection; splits and schedules are unbounded.",
     ["src/trident/utils/httpserver.cpp", "include/trident/utils/httpserver.h", "src/trident/utils/httpclient.cpp", "include/trident/utils/httpclient.h"],
     [("server", "HttpServer::processSocket/readRequest/sendResponse/waitForData"), ("stop", "HttpServer::stop/listn"), ("client", "HttpClient::getResponse/get/post/parse/escape/unescape")],
     "runtime monitoring: exactly-once and content oracles over logged requests with hostile clients under ASan+UBSan and TSan",
     SAMPLED + "Outside the domain: connections idle for longer than the limit, chunked requests, HTTP/1.0 closing.", ["every request the handler sees, every byte a client receives"])
prop("C17", "JSON documents survive reading and writing unchanged",
     "For every JSON document that is an object or a list (lists of values or of objects and lists, nested to any depth, empty ones included; any spelling, escapes, surrogate pairs and white space), reading gives exactly its members, strings, numbers as written and nested values; what is written is valid JSON, and an independent parser reads the same value back, for documents read and for values built with put, add_child and push_back. Truncated documents are refused; damaged ones are refused or read without memory errors.",
     ["inputs"], "every document and every value built with the interface",
     "No test touches JSON; documents are unbounded.",
     ["src/trident/utils/json.cpp", "include/trident/utils/json.h"],
     [("reading", "JSON::read"), ("writing", "JSON::write"), ("building", "JSON::put/add_child/push_back")],
     "runtime monitoring: documents and values compared through an independent parser and writer under ASan+UBSan",
     SAMPLED + "Outside the domain: empty and repeated member names, lists that mix values with objects or lists (refused), a member with the same name as value and child.", ["every JSON::read and JSON::write"])
prop("C32", "The web server answers SPARQL, lookup and page requests correctly",
     "For every store, every query posted to /sparql in any form encoding (also with constants that contain &, =, +, %, escapes, languages or datatypes, and with other parameters before or after) returns as JSON exactly the rows that running the query directly gives, an empty list when there are none; /lookup returns the text of an id; a path returns the file below the web directory with the port filled in, the index for /, a message when there is none, and never a file outside the directory; "
     "with any number of server threads and concurrent clients, invalid requests included, and the server stops when told. No data race or memory error.",
     ["inputs", "schedules"], "every store, query, encoding and mix of concurrent clients",
     "No test starts the server.",
     ["src/trident/server/server.cpp", "include/trident/server/server.h", "src/layers/TridentLayer.cpp", "rdf3x/src/cts/SemanticAnalysis.cpp"],
     [("requests", "TridentServer::processRequest/_getValueParam"), ("pages", "TridentServer::getPage"), ("lookup", "TridentServer::lookup"), ("constants", "SemanticAnalysis encode/TridentLayer::lookup")],
     "runtime monitoring: answers over HTTP compared with direct evaluation and counted references under ASan+UBSan and TSan",
     SAMPLED + "Outside the domain: queries other than one or two patterns (see C09), blank nodes as constants.", ["every request and its answer"])

prop("C22", "SNAP's text formats are read and written as described",
     "For every graph of every kind: the edge list, Pajek, Matlab and GraphViz files that are saved describe exactly its nodes, edges (with their direction and number), labels and colours, and loading the edge list or Pajek file gives the graph back (edge lists without isolated nodes, Pajek files renumbered from 1); a network saved with SaveEdgeListNet comes back with every edge in order and every int, float and string attribute of every node and edge, unset ones unset. "
     "Edge lists with columns in any position, separated by runs of white space or by a given character, named edge lists, adjacency lists, Pajek files in both forms and DyNetML files give exactly the graph they describe, with any mix of comments, empty lines, line ends, incomplete or non-numeric lines (skipped) and any position of a line relative to the read buffer; TSsParser returns exactly the fields of every line and rejects text that is not a number or does not fit.",
     ["inputs"], "every graph and every file in these formats",
     "No test reads or writes a graph as text; formats, separators and buffer positions combine without bound.",
     ["snap/snap-core/gio.h", "snap/snap-core/gio.cpp", "snap/glib-core/ss.cpp", "snap/glib-core/fl.cpp"],
     [("writing", "SaveEdgeList/SavePajek/SaveMatlabSparseMtx/SaveGViz/SaveEdgeListNet"), ("reading", "LoadEdgeList/LoadEdgeListStr/LoadConnList/LoadPajek/LoadDyNet/LoadEdgeListNet"), ("lines", "TSsParser::Next/GetInt/GetFlt/TFIn::GetNextLnBf")],
     "runtime monitoring: files read back and parsed independently, generated files against the graph they describe, under ASan+UBSan",
     SAMPLED + "Outside the domain: attribute strings with tabs or line ends or equal to __null__, floats that six decimals do not hold, zipped files.", ["every file written or read"])
