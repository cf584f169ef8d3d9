FIX.update({
 "parallel_for starts at the given begin": ("C15", "parallel_for(begin,end) also processed the elements before begin"),
 "a failure in a parallel task": ("C15", "an exception in a chunk or half that ran on another thread was lost and the result was used"),
})
FIX.update({
 "an array iterator starts at an element": ("C28", "constraints on a value that does not occur returned another row; an empty array had a next row"),
 "resetting an array iterator restores": ("C28", "after reset a seek compared with the row before the reset and repeated rows"),
 "seeking in an array iterator stays": ("C28", "a seek to the current first term continued with a later duplicate: wrong counts"),
 "the cardinality of an array iterator": ("C28", "cardinality ignored the constraints"),
 "an array iterator counts one row": ("C28", "getCount threw where all other iterators return 1"),
 "seeking in a difference of iterators": ("C28", "a cached look-ahead row from before the target was returned; an empty removal list was sought"),
 "resetting a difference of iterators": ("C28", "reset restored only one of the two values and dropped the look-ahead row"),
 "ignoring the second column of a difference": ("C28", "a count was asked before the first row: out-of-bounds read"),
})
FIX.update({
 "multiplying a complex number in place": ("C24", "a *= b used the new real part for the imaginary part"),
 "dividing a complex number keeps": ("C24", "the imaginary part of a quotient lost its sign"),
 "the circular correlation in single precision": ("C24", "the float correlation never wrote its result"),
})
FIX.update({
 "hash joins spread keys": ("C13", "three join keys that agree in their low bits (ids 2^30 apart) doubled the cuckoo table until memory ran out"),
})
FIX.update({
 "the Turtle lexer does not read its last buffer": ("C12", "a document of a multiple of 1024 bytes was read partly twice"),
 "Turtle numbers with a fraction": ("C12", "1.5 was read as 1 followed by .5"),
 "Turtle escapes above U+FFFF": ("C12", "code points above U+FFFF were cut to three bytes"),
 "long Turtle strings keep": ("C12", "the character after a quote inside a long string was lost"),
 "Turtle collections, and blank nodes": ("C12", "non-empty collections, and blank nodes or collections as subjects, were always rejected"),
 "a Turtle datatype can use": ("C12", "a datatype with the empty prefix was rejected, a string as datatype was accepted"),
 "absolute Turtle URIs are recognised": ("C12", "urn: and mailto: names were put behind the base, prefixes were not"),
})
FIX.update({
 "aggregated scans without an order": ("C14", "an aggregated scan in no particular order was bound to the wrong columns"),
 "assigning a query filter copies": ("C14", "the assigned filter shared or lost the pattern of NOT EXISTS"),
 "a filter is applied only where its last argument": ("C14", "a filter ran before the variables of its fourth argument or its NOT EXISTS pattern were bound"),
 "join edges number VALUES blocks": ("C14", "edges of VALUES blocks joined other parts of the query"),
 "VALUES blocks with a common variable": ("C14", "two VALUES blocks over one variable gave their product"),
 "a query graph starts without an offset": ("C14", "the offset was not initialised"),
 "the patterns of MINUS and NOT EXISTS get join edges": ("C14", "the patterns of MINUS and NOT EXISTS were not joined with each other"),
 "pruning domains are not shared across": ("C14", "rows were dropped because of values seen in another branch, optional or negated part"),
 "variables of MINUS, NOT EXISTS, grouping": ("C14", "a scan dropped a column that MINUS, NOT EXISTS, grouping or a repeated variable needed"),
 "a variable repeated within a pattern": ("C14", "?x ?p ?x also returned rows with two different values"),
 "the plans of MINUS and of subselects are initialised": ("C14", "uninitialised links in plans"),
 "merge unions consider every use": ("C14", "a merge union dropped columns that are used elsewhere; a union of one group crashed"),
 "optional parts are joined after everything": ("C14", "optional parts lost rows without a partner or were joined before what they depend on"),
 "a union leaves the variables": ("C14", "a row of one branch kept values of another branch"),
 "results of unions and optional parts are not pruned": ("C14", "rows of one branch were pruned by the values of another"),
 "VALUES, subselects and MINUS bind only": ("C14", "a column that is not needed hid the one of another part"),
 "a distinct subselect removes all": ("C14", "only adjacent duplicates were removed"),
 "NOT EXISTS compares any number": ("C14", "NOT EXISTS with no or many common variables failed"),
 "the second input of MINUS does not count": ("C14", "variables of the negated side were expected in the result"),
 "the output of BIND counts as a use": ("C14", "a scan of MINUS or NOT EXISTS dropped a column computed by BIND: stack overflow"),
})
FIX.update({
 "TLst::Ins links": ("C19", "after an insertion in the middle the list was broken backwards"),
 "TLst::AddFrontSorted": ("C19", "did not compile when used"),
 "TVec::Pack of an empty": ("C19", "the next Add wrote through a null pointer"),
 "TVec::PrevPerm": ("C19", "returned a wrong permutation and read past the end"),
 "TVec::CopyUniqueFrom": ("C19", "wrote through a null pointer, or past the storage on the second use"),
 "copying a TVec that refers": ("C19", "allocated -1 elements"),
 "copies of a TBigStrPool": ("C19", "copies had no strings"),
 "TVecPool::CompactPool": ("C19", "values that remain were overwritten, reads past the pool"),
 "a cleared TVecPool": ("C19", "the first vector after clearing got id 0 and was lost"),
 "assigning a TVecPool": ("C19", "memory was lost on assignment"),
 "TStr::IsFlt": ("C19", "accepted 1.x and a lone point"),
 "integer strings have": ("C19", "accepted +-5"),
 "looking up a key in a cleared sparse": ("C19", "read out of bounds after Clr"),
 "TSparseHash::GetKeyDat": ("C19", "asserted that the id is a key"),
})
FIX.update({
 "TNEGraph::DelEdge(src, dst)": ("C20", "one of several parallel edges was removed"),
 "TNodeEdgeNet::DelEdge(src, dst)": ("C20", "deleting a reverse edge left it in both nodes"),
 "TBPGraph::IsOk": ("C20", "IsOk was false for every graph with edges"),
 "the edge iterator of TBPGraph": ("C20", "edges to nodes with a smaller id were skipped"),
 "the message for a node on both": ("C20", "formatted the message itself"),
 "TUNGraph::AddNode with neighbours": ("C20", "edges were missing from the count and at the neighbours"),
 "TUndirNet::AddNode with neighbours": ("C20", "edges were missing from the count and at the neighbours"),
 "TUndirNet and TDirNet drop the attributes": ("C20", "a new edge had the attributes of a deleted one"),
 "copying a TNEANet, TUndirNet": ("C20", "copies had no attributes and later accesses asserted"),
 "TNEANet stays usable after deleting": ("C20", "adding or deleting a node after DelAttrN asserted"),
 "int vector attributes of TNEANet": ("C20", "values moved to other edges"),
 "TNEANet::DelNode drops the sparse": ("C20", "a new edge with that id had the old attributes"),
 "the attribute values of a TNEANet edge": ("C20", "values of another edge were listed"),
 "TNEANet::DelAttrE deletes int vector": ("C20", "returned -1"),
 "TNEANet::Defrag moves": ("C20", "values belonged to other nodes after Defrag"),
 "declaring an edge attribute twice": ("C20", "the attribute got a second id"),
 "drawing a random node or edge of a TNEANet": ("C20", "GetRndEId defragmented the edge table and moved attribute values to other edges"),
})

FIX.update({
 "removing triples with a term that is not in the dictionary": ("C04", "an unknown term took the id of another one: unrelated triples were removed"),
 "dictionary of the updates loses the terms that contain spaces": ("C04", "terms with spaces came back cut after an update"),
 "the summary of the updates skips every third index": ("C04", "some updates were not seen by queries"),
 "a knowledge base with all its triples removed": ("C04", "a pattern over everything was not reported as empty"),
 "list of terms wrong after updates": ("C04", "terms were listed twice or missing"),
 "nodes with keys at regular distance larger than 127": ("C04", "tree nodes with a constant step above 127 returned wrong keys: terms and tables not found"),
 "changes to a node with keys at regular distance larger than one": ("C04", "splitting and inserting in nodes with a constant step corrupted the keys"),
 "cardinality of a pattern counts the removed triples": ("C04", "cardinality too high after removals"),
 "the summary of the updates ignores the updates without new keys": ("C04", "updates were not seen by some queries"),
 "merging the updates duplicates or loses": ("C04", "triples and terms lost or repeated by a merge"),
 "seeking in the union of a table and its updates": ("C04", "an assertion failed, or rows before the current one were lost, after a seek"),
 "resetting an iterator to the marked row": ("C03", "after reset the current row was the one before it, and grouped tables repeated or lost rows"),
 "resetting the union of a table": ("C04", "after reset the parts were read in the wrong order"),
})

FIX.update({
 "closing a tree of one leaf": ("C06", "the only leaf was released twice when the tree was closed"),
 "replacing the coordinates of a term": ("C06", "coordinates of permutations that the new value does not have stayed"),
 "a leaf changed by an append is written again": ("C06", "appended entries came back twice or were lost after the leaf was evicted"),
 "splitting a node of strings whose positions": ("C06", "keys of a text tree changed to other strings after a split: terms not found"),
 "splitting a node while its children leave": ("C06", "memory corruption: the evicted child was not found in its parent"),
 "moving to the next leaf does not remove": ("C06", "an iterator stopped early or went backwards with a small cache"),
})
FIX["reading a block of a StringBuffer while another"] = ("C08", "the number of compressed blocks was read while the compression thread changed it")

FIX.update({
 "estimate joins between patterns that share three": ("C09", "an assertion stopped queries with two patterns over the same three variables"),
 "give the elements of a parsed pattern defined": ("C09", "an uninitialised type was read while a query was parsed"),
 "answer patterns with one constant of which no variable": ("C09", "the query threw and returned nothing"),
 "initialise the type of a filter": ("C09", "an uninitialised type was read while a filter was translated"),
 "NOT EXISTS holds and VALUES rows are skipped": ("C09", "an unknown constant made the whole query empty"),
 "accept VALUES wherever a group": ("C09", "VALUES at the start of a group was a syntax error; VALUES, BIND and MINUS of nested groups were lost"),
 "apply LIMIT to rows rather": ("C09", "LIMIT returned too many rows"),
 "compare numbers in filters by value": ("C09", "filters compared numbers as strings or ids: rows missing or invented"),
 "ORDER BY sorts numeric literals": ("C09", "numbers were sorted in the order of their ids"),
 "keep the type of constants that are not in the KB": ("C09", "an unknown IRI was treated as a literal"),
 "lookupById inspects the text": ("C09", "uninitialised memory was inspected to classify a term"),
 "CONTAINS looks at the lexical forms": ("C09", "CONTAINS of a string that is not a term of the store was always false"),
 "BOUND of a variable that no operator produces": ("C09", "BOUND of an unused variable was true or read invalid memory"),
 "OFFSET skips rows, not the duplicates": ("C09", "OFFSET skipped too few rows"),
 "the term list of a permutation that is not stored": ("C09", "counts of terms were wrong when a permutation is derived from another one"),
 "ORDER BY does not touch variables that no operator": ("C09", "ORDER BY of an unused variable crashed"),
 "a graph of one node is not connected": ("C21", "IsWeaklyConn was false for a graph of one node"),
 "the root of every component but the first": ("C21", "roots of depth-first trees were reported as articulation points"),
 "Get1CnComSzCnt drops": ("C21", "sizes of 1-connected components were missing"),
 "converting a subgraph with renumbered": ("C21", "TConvertSubGraph with renumbering stopped or linked the wrong nodes"),
 "a random subgraph of all the nodes": ("C21", "GetRndSubGraph/GetRndESubGraph of everything stopped"),
 "egonet of a node with a self loop": ("C21", "GetEgonet stopped or counted edges twice"),
 "CntUniqBiDirEdges counts parallel": ("C21", "CntUniqBiDirEdges was too high on multigraphs"),
 "GetRndPath uses edges in the direction": ("C21", "the path returned was not a path"),
 "DoBfsHybrid keeps the distances": ("C21", "distances of an earlier search were returned"),
 "GetNodeClustCf writes its results beyond": ("C31", "write beyond the end of a vector"),
 "GetTriads on a sample": ("C31", "triads of other nodes than the sampled ones were counted"),
 "GetTriads counts self loops": ("C31", "triads were wrong in graphs with self loops"),
 "GetBetweennessCentr_stl on a fraction": ("C31", "betweenness on a sample used all nodes or read past the end (found by reading; no check samples)"),
 "weighted shortest paths use node ids": ("C31", "weighted distances were wrong or read out of bounds"),
 "weighted betweenness visits nodes": ("C31", "weighted betweenness was that of breadth-first paths"),
 "GetMaxFlowIntPR keeps only the last": ("C31", "the maximum flow was too low with parallel edges"),
 "GetWeightedPageRankMP never uses": ("C31", "weighted PageRank stayed at its first iteration"),
})
FIX.update({
 "the HTTP server reads whole requests": ("C16", "split requests were handled half, failing clients raised SIGPIPE or looped forever, an idle client blocked a thread, stop() hung"),
 "the HTTP client handles responses that": ("C16", "responses split over packets were read out of bounds or refused, URLs with a port did not parse"),
 "JSON keeps empty lists": ("C17", "empty lists were written as objects, large numbers threw, reals lost digits, nested lists threw, mixed lists lost elements"),
 "the web server parses forms": ("C32", "parameters were found inside other values, + in a query was lost, files outside the directory were served, threads shared one layer"),
 "literals with a language or a datatype": ("C32", "queries with such constants returned nothing"),
 "a literal that looks like an IRI": ("C32", "the literal matched the IRI (found by reading)"),
 "literals with escaped characters": ("C32", "queries with such constants returned nothing"),
 "the parser does not unescape": ("C32", "a backslash in a constant was lost"),
 "the lexer interprets the escapes": ("C11", "\\n in a literal was the letter n"),
})
FIX.update({
 "LoadEdgeListStr splits at runs": ("C22", "repeated or leading blanks shifted the columns (an empty name became a node), short lines stopped the program"),
 "TSsParser::GetInt rejects": ("C22", "numbers beyond an int overflowed and became other node ids"),
})
FIX["a StringBuffer does not decompress a block beyond"] = ("C08", "while writing, the capacity given to LZ4 for the last compressed block exceeded its buffer: the wild copies changed the start of the next buffer (wrong strings, crash), depending on how far the compression thread was")
