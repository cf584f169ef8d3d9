"""What each check runs. n cases in total over all shards; the wall limits only guard against hangs."""
from props import P
KB = ["shim", "core", "rdf3x", "sparql"]

INFRA = ["shim", "src:src/trident/utils/parallel.cpp"] + ["src:rdf3x/src/" + x for x in (
    "infra/Event.cpp", "infra/Mutex.cpp", "infra/Thread.cpp", "infra/Pool.cpp", "rts/Scheduler.cpp", "rts/Operator.cpp")]

HTTP = ["shim", "src:src/trident/utils/httpserver.cpp", "src:src/trident/utils/httpclient.cpp"]

SMALL = ["shim"] + ["src:src/trident/" + x for x in (
    "iterators/arrayitr.cpp", "iterators/rmitr.cpp", "kb/cacheidx.cpp", "kb/kbconfig.cpp", "tests/timings.cpp")]


def R(name, mode, comps, quick, thorough, main=None, **kw):
    d = dict(name=name, main=main or name + ".cpp", comps=comps, mode=mode, quick=quick, thorough=thorough,
             wall_quick=kw.pop("wall_quick", 240), wall_thorough=kw.pop("wall_thorough", 3000))
    d.update(kw)
    return d


PROPS = {
    "C01": dict(runs=[R("h_kb", "load", KB, 240, 8000)],
                rule="a case is a generated graph and a load/open configuration; distinct: the content hash of graph and configuration"),
    "C02": dict(runs=[R("h_kb", "query", KB, 240, 8000)],
                rule="a case is a loaded graph and a batch of patterns; distinct: pattern kind x permutation x layout x answer count"),
    "C03": dict(runs=[R("h_kb", "itr", KB, 240, 8000), R("h_small", "itr", SMALL, 16000, 400000)],
                rule="a case is a loaded graph and call sequences over iterators; distinct: iterator type x table layout x call pattern"),
    "C13": dict(runs=[R("h_ops", "", KB, 2400, 60000), R("h_ops", "sched", KB, 160, 8000),
                      R("h_ops", "sched", KB, 800, 8000, variant="tsan", opts={"nodomains": "1"})],
                rule="a case is a random operator tree over random data; distinct: tree shape x number of rows x hint mode"),
    "C15": dict(runs=[R("h_par", "", INFRA, 4000, 200000), R("h_par", "threads", INFRA, 1600, 60000, variant="tsan")],
                rule="a case is a sort, loop, queue, pool, event or scheduler history; distinct: its parameters, for the scheduler the observed start order"),
    "C28": dict(runs=[R("h_small", "", SMALL, 16000, 600000)],
                rule="a case is a batch of random histories over every small component; distinct: the history taken on an iterator, or the parameters of the component"),
    "C24": dict(runs=[R("h_fft", "", ["shim", "src:src/trident/utils/fft.cpp"], 24000, 1000000)],
                rule="a case is a pair of random vectors; distinct: their length and first values"),
    "C11": dict(runs=[R("h_lex", "", ["shim", "src:rdf3x/src/cts/SPARQLLexer.cpp"], 40000, 4000000)],
                rule="a case is a token sequence or a byte string; distinct: its text"),
    "C14": dict(runs=[R("h_plan", "exec", KB, 20000, 200000), R("h_plan", "graph", KB, 1200, 60000)],
                rule="a case is a random query graph over a random database, planned, translated and run; distinct: the plan shape or the text of the query"),
    "C19": dict(runs=[R("h_cont", "", ["glib"] + ["verif+snap:harness/cont_%d.cpp" % i for i in (1, 2, 3, 4)], 30000, 1000000, snap=True)],
                rule="a case is a random history of operations on one kind of container; distinct: the history"),
    "C20": dict(runs=[R("h_graph", "", ["snap"], 24000, 1000000, snap=True)],
                rule="a case is a random history of operations on one kind of graph; distinct: the history"),
    "C21": dict(runs=[R("h_alg", "", ["snap"], 20000, 400000, snap=True)],
                rule="a case is a random graph on which every algorithm is run; distinct: the graph"),
    "C31": dict(runs=[R("h_alg", "metric", ["snap"], 16000, 400000, snap=True)],
                rule="a case is a random graph on which every measure is computed; distinct: the graph"),
    "C22": dict(runs=[R("h_gio", "", ["snap"], 2400, 100000, snap=True)],
                rule="a case is a random graph, its files and generated files; distinct: the content of a file"),
    "C04": dict(runs=[R("h_kb", "update", KB, 240, 8000), R("h_small", "rm", SMALL, 16000, 400000)],
                rule="a case is a loaded graph and a history of additions, removals and merges; distinct: the history and its configuration"),
    "C06": dict(runs=[R("h_tree", "", ["shim", "core"], 2400, 120000)],
                rule="a case is a tree, its configuration and its insertions; distinct: the configuration and kind of history"),
    "C08": dict(runs=[R("h_tree", "sb", ["shim", "core"], 800, 60000), R("h_tree", "sb", ["shim", "core"], 160, 4000, variant="tsan")],
                rule="a case is a buffer and its strings; distinct: the configuration and the strings"),
    "C09": dict(runs=[R("h_sparql", "", KB, 240, 8000)],
                rule="a case is a loaded graph and 30 queries over it; distinct: the text of the query and the graph"),
    "C12": dict(runs=[R("h_turtle", "", ["shim", "src:rdf3x/src/cts/TurtleParser.cpp"], 32000, 2000000)],
                rule="a case is a document, the document with a wrong statement, and damaged copies; distinct: the text of the document"),
    "C16": dict(runs=[R("h_http", "", HTTP, 800, 60000), R("h_http", "client", HTTP, 1600, 100000), R("h_http", "", HTTP, 320, 8000, variant="tsan")],
                rule="a case is a server with its clients until it is stopped, or a client against a scripted server; distinct: sizes, way of sending and place of a request"),
    "C17": dict(runs=[R("h_json", "", ["shim", "src:src/trident/utils/json.cpp"], 12000, 400000)],
                rule="a case is a batch of documents and values; distinct: the text of the document"),
    "C32": dict(runs=[R("h_srv", "", KB + ["server"], 80, 6000), R("h_srv", "", KB + ["server"], 32, 2000, variant="tsan")],
                rule="a case is a loaded store, its web server and concurrent clients; distinct: the text of a query"),
}
