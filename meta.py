#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: the text of the properties is
here, what is claimed is what props.py has harnesses for."""
import json, os
from props import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
LIST, NA = [], []


def P(id, title, statement, over, q, why, files, mech, note, observe=(), hook=None):
    assert len(title) <= 80, title
    LIST.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)), note))


P("P01", "A near search returns only true matches, each once, nearest first",
  "Whatever vectors were added and whatever query and distance are asked for, every entry a near search over the index returns was added and not withdrawn, appears once, carries its true distance to the query, lies within the distance asked for, and the entries come in order of increasing distance, never more than the breadth asked for.",
  ["inputs", "histories", "configurations"], "all vectors, pairwise distances (ties and zeros included), layer assignments, query, distance and breadth; unsaved, saved and reopened indexes; ids around the sizes of internal tables; any number of earlier searches",
  "The recall tests need data files that are not in the tree and sample one random data set; the others add a few hand-picked vectors, so ties, layer assignments, table-size boundaries and reuse of pooled structures are never exercised.",
  ["pkg/hnsw/search_with_max_dist.go", "pkg/hnsw/search.go", "pkg/hnsw/visited/list_set.go", "pkg/hnsw/priorityqueue/queue.go"],
  [("layer search and result heap", "pkg/hnsw/search.go searchLayerByVector"), ("distance cut and ordering", "pkg/hnsw/search_with_max_dist.go"), ("visited sets", "pkg/hnsw/visited")],
  "every path of the real insert and search code for up to 3 (quick) or 4 (thorough) vectors with solver-chosen distances; larger collections are outside except for fixed data")
P("P02", "A near search in a small collection misses nothing",
  "As long as a collection has fewer vectors than the connection limit and the search breadth, a search by maximal distance returns every stored (and allowed) vector within that distance, whatever the data, insertion order, layer assignment or restarts in between.",
  ["inputs", "histories", "configurations"], "all pairwise distances, thresholds, layer assignments, allow lists; with and without restart",
  "Tests look at recall over one random data set and tolerate misses; a vector lost in one layer assignment or tie pattern does not show.",
  ["pkg/hnsw/insert.go", "pkg/hnsw/neighbor_connections.go", "pkg/hnsw/search_with_max_dist.go", "pkg/hnsw/heuristic.go"],
  [("linking a new node in both directions", "pkg/hnsw/neighbor_connections.go"), ("search from the entry point", "pkg/hnsw/search_with_max_dist.go")],
  "3 (quick) or 4 (thorough) vectors with arbitrary distances; 70 and 95 vectors on a line with an arbitrary threshold")
P("P03", "k-nearest and distance searches are exact on small collections",
  "On a small collection a k-nearest search returns exactly the min(k, allowed) nearest allowed vectors in order with their true distances, and an unlimited distance search returns exactly the allowed vectors within the distance, however many pages that takes; both answers are the same whether the index walks its graph or scans a short allow list.",
  ["inputs", "configurations"], "all distances, k, thresholds, allow lists, layer assignments; graph and flat search",
  "The tests use a handful of fixed vectors, one k and mostly no allow list.",
  ["pkg/hnsw/search.go", "pkg/hnsw/flat_search.go"],
  [("graph search with allow list", "pkg/hnsw/search.go knnSearchByVector"), ("flat search", "pkg/hnsw/flat_search.go"), ("paging by distance", "pkg/hnsw/search.go SearchByVectorDistance")],
  "2-3 vectors (4 thorough), every allow list; paging with 103 vectors and an arbitrary threshold around the page boundary")
P("P04", "A withdrawn vector is never found again, the others still are",
  "After any vectors were withdrawn from an index, saved or not, no search returns one of them, and on a small collection every other stored vector within the distance is still returned; that stays so when further vectors are added to a stored index.",
  ["inputs", "histories", "configurations"], "all choices of withdrawn vectors including the entry point and repeated ones, all distances to the query, thresholds and layer assignments, with and without adding afterwards",
  "The tests of this package do not compile and none withdraws anything.",
  ["pkg/hnsw/delete.go", "pkg/hnsw/search.go", "pkg/hnsw/search_with_max_dist.go"],
  [("tombstones", "pkg/hnsw/delete.go Delete"), ("tombstones skipped in results", "pkg/hnsw/search.go")],
  "3 vectors (4 thorough), 1-3 withdrawals, one later addition; withdrawals are not persisted across a restart and the background clean-up is never started by the service, both are outside; two known findings about adding after withdrawing everything or the entry point of an unstored index are listed")
P("P05", "The stored vector graph is always well formed",
  "After any sequence of additions and stores the stored graph contains exactly one node per added vector, holding that vector; links lead only to other stored nodes that reach the layer of the link, none is repeated or leads to itself, no node exceeds the connection limit of a layer, no vector is left unconnected, and the stored entry point and count match the graph.",
  ["inputs", "histories", "configurations"], "all pairwise distances, layer assignments, points of storing and reopening, connection limits small enough to force pruning",
  "No test reads the stored graph back; the search tests would only notice gross damage.",
  ["pkg/hnsw/insert.go", "pkg/hnsw/neighbor_connections.go", "pkg/hnsw/heuristic.go", "pkg/hnsw/vertex.go", "pkg/hnsw/index.go"],
  [("neighbour selection and pruning", "pkg/hnsw/neighbor_connections.go, heuristic.go"), ("storing nodes, entry point and count", "pkg/hnsw/index.go Flush")],
  "3-4 vectors (5 thorough) with arbitrary distances and up to two layers, connection limits 2 and 30")
P("P06", "A restart changes nothing about a stored collection",
  "Once a store succeeded, a fresh process over the same storage reports the same number of documents and answers every search with the same entries and distances as before, whatever sequence of additions, stores, searches and restarts led there.",
  ["histories", "inputs"], "all histories of add/store/search/restart up to the bound, all distances and thresholds",
  "The tests never reopen an index with other data in between and never compare answers before and after.",
  ["pkg/hnsw/index.go", "pkg/hnsw/startup.go", "pkg/hnsw/vertex.go", "pkg/document/document.go"],
  [("nodes, entry point and count in the key-value store", "pkg/hnsw/index.go Flush, LoadEntrypoint"), ("opening a collection", "pkg/document/document.go")],
  "3 vectors, any history of stores, searches and restarts between them; 2 documents through the document client")
P("P07", "A failed or interrupted store is reported and loses nothing",
  "If any single storage write fails, or the process dies at any write, while documents or their index are being stored, the operation reports an error, everything stored by earlier successful calls is still found with its own data, and repeating the operation makes the new documents found as well.",
  ["crash_points", "fault_sequences", "inputs"], "every write of a store as the failing one, failing once or from then on, with and without restart, arbitrary thresholds",
  "No test makes the storage fail.",
  ["pkg/document/document.go", "pkg/hnsw/index.go"],
  [("order of document, node, entry point and count writes", "pkg/document/document.go AddDocuments, pkg/hnsw/index.go Flush")],
  "1-2 stored vectors and batches of 1-2 (3 thorough); two known findings about overwriting and about a different batch after a failure are listed",
  hook=None)
P("P08", "Near documents come back with their own data, distance and limit",
  "A near-document search returns whole documents that were added, each once with its own properties and its own cosine distance to the query, nearest first, none beyond the distance, at most the limit, and none nearer left out; documents added without a vector never appear and never shift the others.",
  ["inputs", "histories"], "all batches with and without vectors, restarts between them, limits, thresholds",
  "The tests that reach this code need a remote storage node; the ones that run check one fixed sequence.",
  ["pkg/document/document.go", "pkg/hnsw/search_with_max_dist.go", "pkg/hnsw/distancer/cosine_dist.go"],
  [("index ids given to documents", "pkg/document/document.go AddDocuments"), ("documents fetched by index id", "pkg/document/document.go GetNearDocumentsByVector")],
  "2-3 documents with vectors from a palette or none, any restart pattern, any limit and threshold; 130 fixed documents with thresholds in 4 intervals")
P("P09", "Text is indexed and searched by its vector, and failures are reported",
  "With a vectorizer configured, a document is indexed by its own vector if it has one and otherwise by the vector of its texts, and a text search gives the same answer as a search by the text's vector. When the vectorizer cannot be reached or answers with an error, the operation reports it, and what was accepted before stays searchable.",
  ["inputs", "fault_sequences"], "all mixtures of documents, batch splits, limits, thresholds; any vectorizer call failing in any of nine ways",
  "No test has a vectorizer, let alone a failing one.",
  ["pkg/document/document.go", "pkg/vectorizer/rest/vectorizer.go", "pkg/vectorizer/vector.go"],
  [("text collection and vectorizing", "pkg/vectorizer/vector.go"), ("HTTP client", "pkg/vectorizer/rest/vectorizer.go")],
  "2 documents (3 thorough) of seven kinds, any one vectorizer call failing")
P("P10", "Requests that run at the same time do not disturb each other",
  "When two requests on the same collection overlap in any way (adding, searching, looking up, creating, deleting and creating again), each succeeds as it would alone, a search meanwhile returns everything stored before it began, with its own data and distances, and afterwards the collection holds exactly what was added and is searched correctly, also after a restart. Nothing they share is accessed without synchronisation, and they never wait for each other forever.",
  ["schedules", "inputs"], "all interleavings of two requests with the stated number of preemptions, freshly restarted or not; all thresholds; all distances to the query and layer assignments for the index alone",
  "Tests run one request after the other; the few that start goroutines sample one schedule.",
  ["pkg/document/document.go", "pkg/hnsw/insert.go", "pkg/hnsw/index.go", "pkg/hnsw/neighbor_connections.go", "pkg/hnsw/search_with_max_dist.go"],
  [("locks of the client", "pkg/document/document.go"), ("locks of the index and of its nodes", "pkg/hnsw/insert.go, neighbor_connections.go, vertex.go"), ("node cache", "pkg/hnsw/index.go nodeByID")],
  "two overlapping requests, 1 preemption (2 thorough) at any lock, channel, atomic or storage operation, with all unordered accesses to shared memory or maps on these schedules reported; 1 document or vector stored before")

P("P11", "Collections stay separate, and a deleted one is really gone",
  "Every collection holds exactly the documents added to it since it was last created, whatever other collections are called and whatever is done to them; exactly the existing collections are listed, once each, with their declared index types, and adding to, searching or looking up in a collection that does not exist is an error. A creation or deletion that fails is reported and can be repeated.",
  ["histories", "inputs", "fault_sequences"], "all sequences of creating, deleting, filling and restarting over two collections; all pairs of different short names; all combinations of index types; any storage operation of a creation failing",
  "The tests that create and delete collections need a remote storage node and follow one fixed sequence with one name.",
  ["pkg/document/document.go"],
  [("table names of a collection", "pkg/document/document.go CreateCollection, DeleteCollection"), ("open collections and caches", "pkg/document/document.go")],
  "2 collections, 3-4 operations (4-5 thorough), names of 1-2 bytes (3 thorough)")
P("P12", "Nothing happens without a login and an open pod",
  "Before a successful login and before a pod is open, every collection and document operation reports an error and changes nothing; after logging in and opening the pod the service works normally.",
  ["histories"], "every unready state and every operation in it",
  "No test uses a client that is not logged in.",
  ["pkg/document/document.go"],
  [("session and pod checks", "pkg/document/document.go")],
  "7 unready states, 7 operations, arbitrary threshold afterwards")
P("P18", "Users and pods a client switches between stay apart",
  "After logging in as another user or opening another pod, every operation reaches exactly the collections and documents of that user's pod, and coming back to a pod finds everything as it was left. A login or pod that cannot be opened is reported and changes nothing about what is in use, and after a new login nothing happens until a pod is opened.",
  ["histories", "fault_sequences", "inputs"], "all sequences of logins, pod openings (also failing ones), additions, searches and lookups up to the bound, arbitrary thresholds",
  "Every test logs in once and opens one pod.",
  ["pkg/document/document.go"],
  [("session and pod in use", "pkg/document/document.go Login, OpenPod"), ("loaded indexes", "pkg/document/document.go openCollection")],
  "2 users with 2 pods each, sequences of 3 (quick) or 4 (thorough) steps between uses")
P("P19", "A failed storage read is reported, never taken for missing data",
  "If any storage read fails, once or from some point on, while documents or vectors are searched, looked up, listed or added, the operation reports an error or does all of its work: a search never passes off an incomplete answer as the result. Everything stored by earlier calls is found again as soon as reading works, and an addition that was refused can be repeated.",
  ["fault_sequences", "inputs"], "every read of an operation as the failing one, failing once or from then on, before and after a restart, arbitrary distances and thresholds",
  "No test makes the storage fail.",
  ["pkg/hnsw/index.go", "pkg/hnsw/search.go", "pkg/hnsw/insert.go", "pkg/document/document.go"],
  [("reading nodes, entry point, count and emptiness", "pkg/hnsw/index.go loadNode, pkg/hnsw/insert.go LoadEntrypoint"), ("reading documents", "pkg/document/document.go")],
  "2-3 stored documents or vectors (5 with pruning), levels 0..1, one operation with failing reads")
P("P22", "The service runs with the settings it was given, or does not start",
  "Storage node, stamp, chain endpoint, vectorizer, user, password, pod and verbosity given in the environment are used exactly as given; the storage node and stamp left out or empty get their documented defaults, and without a vectorizer texts are refused. A service that cannot connect, log in, reach its vectorizer or open its pod reports an error instead of starting.",
  ["inputs", "fault_sequences"], "all values of the settings (bytes), each of them missing, empty or given, each start-up call failing",
  "The tests that start a service need a storage node and do not run.",
  ["adapters/handlers/environment.go", "adapters/handlers/defaults.go", "adapters/handlers/handler.go", "pkg/document/document.go"],
  [("environment", "adapters/handlers/environment.go FromEnv"), ("defaults", "adapters/handlers/defaults.go"), ("start-up", "adapters/handlers/handler.go NewHandler")],
  "one group of settings arbitrary at a time, texts up to 3 bytes (7 for verbosity), vectorizer addresses of letters; command line flags and the HTTP server are outside")
P("P23", "Index settings are taken as given, defaulted or refused",
  "Every whole number, switch and name a user gives for an index becomes that setting and no other, numbers beyond the integers become the nearest one, and what is left out gets its documented default; fewer than four connections or construction candidates, unknown encoders or distributions, and an index with a part missing are refused. Changing connections, construction candidates or the clean-up interval of an index is refused, any other change is accepted, and searches afterwards are still exact.",
  ["inputs"], "all values of each setting as floating point numbers or digits, all pairs of old and new settings, all distances",
  "The tests parse a dozen fixed settings.",
  ["pkg/hnsw/user_config.go", "pkg/hnsw/pq_config.go", "pkg/hnsw/config_update.go", "pkg/hnsw/config.go"],
  [("parsing and validation", "pkg/hnsw/user_config.go ParseAndValidateConfig"), ("changes", "pkg/hnsw/config_update.go"), ("completeness", "pkg/hnsw/config.go")],
  "one number arbitrary with the others left out (two thorough), or all given; floats up to 2^53 exactly or at least 2^63, up to 3 digits and around 2^63; settings that are not numbers where numbers are due are outside; searches over 2-3 vectors")
P("P24", "A request reaches the operation it names, with the values it carries",
  "Every HTTP request is handled by the operation its method and path name, with exactly the values in its path, query and body, and the true outcome comes back as a status and JSON of the published shape. A request with a required part missing, empty or unreadable, an id that is no UUID, or a method and path that name nothing is refused as the client's mistake and changes nothing.",
  ["inputs"], "every operation; all short names, values and thresholds, with every character that needs escaping; every part left out, renamed or of another type; bodies with and without a length",
  "No test sends a request over HTTP.",
  ["restapi/configure_fave.go", "restapi/operations", "models"],
  [("wiring of operations", "restapi/configure_fave.go, restapi/operations/fave_api.go"), ("binding of parameters", "restapi/operations/*_parameters.go"), ("validation", "models"), ("answers", "restapi/operations/*_responses.go")],
  "one arbitrary request after five that fill two collections; the router, content negotiation and id check of the go-openapi library are stood in for under the solver and real in replays; the network and TLS are outside")
P("P13", "The REST interface answers every request with its true outcome",
  "A request of any shape is answered, never by a crash: success is reported exactly when the operation took effect, and the answer carries the documents and distances of the collection asked for; a malformed or impossible request gets an error answer and leaves everything stored earlier as it was.",
  ["inputs", "histories"], "all requests of the kinds listed, with null parts, wrong types, unknown collections, negative limits, arbitrary thresholds and arbitrary type names",
  "The handler tests send a few well-formed requests.",
  ["adapters/handlers/documents.go", "adapters/handlers/collections.go", "adapters/handlers/handler.go"],
  [("request conversion and responders", "adapters/handlers")],
  "22 kinds of add requests, 9 kinds of search and lookup requests, creation requests with up to 2 indexes; requests given as bound parameters, and whole HTTP requests (as in P24)")
P("P14", "A document is found by an indexed property exactly when one has the value",
  "A lookup by id or by an indexed property returns a whole document that has exactly the value asked for whenever there is one, and an error otherwise; looking documents up never disturbs later additions or searches.",
  ["inputs", "histories"], "all short ids, texts and numbers of the stored documents and of the value asked for; any order of lookups, additions and searches after a restart",
  "The tests look up one document by one fixed value.",
  ["pkg/document/document.go"],
  [("query expression by index type", "pkg/document/document.go GetDocument")],
  "2 documents (3 thorough), ids of 1-2 characters, texts of 1 character, numbers 0..2; the query language of the storage is the stand-in's")
P("P15", "Distances are what their metric says, whatever the sizes and signs",
  "Each offered metric gives its defining value for every pair of vectors of the same length, is the same in both directions and through every way of asking, never yields a distance for vectors of different lengths, and normalising a vector gives the unit vector in its direction without touching the original.",
  ["inputs"], "all small integer components, one arbitrary real component, every short length on each side",
  "The metric tests compare a few random vectors with a copy of the same loop.",
  ["pkg/hnsw/distancer/l2.go", "pkg/hnsw/distancer/dot_product.go", "pkg/hnsw/distancer/cosine_dist.go", "pkg/hnsw/distancer/manhattan.go", "pkg/hnsw/distancer/hamming.go", "pkg/hnsw/distancer/normalize.go"],
  [("portable metric loops", "pkg/hnsw/distancer"), ("providers", "pkg/hnsw/distancer")],
  "1-3 dimensions with integer components, 10 dimensions with one arbitrary; assembly code paths are outside the encoding and only reached by the native replay")
P("P16", "The search heaps always give back the right extreme, and nothing is lost",
  "Whatever is inserted, taken out and reset in whatever order, a smallest-first heap always gives the smallest and a largest-first heap the largest entry left, with the id it was inserted under, and the number of entries is exact.",
  ["inputs", "histories"], "all distances including ties, all sequences of operations",
  "The tests push one fixed list.",
  ["pkg/hnsw/priorityqueue/queue.go"],
  [("heap order", "pkg/hnsw/priorityqueue/queue.go")],
  "sequences of 5 (6 thorough) operations, any distances")
P("P17", "A visited set remembers exactly what was visited since its last reset",
  "For every sequence of visits and resets, however many resets went before, a node counts as visited exactly if it was visited since the last reset; sets borrowed at the same time never share marks, and a borrowed set starts empty.",
  ["inputs", "histories"], "all node ids within and beyond the initial size, reset counts around every wrap of the internal counter, borrow and return orders",
  "The tests sample one or two ids and a fixed number of resets; ids around the size of a set, every reset count and overlapping borrowings are not covered.",
  ["pkg/hnsw/visited/list_set.go", "pkg/hnsw/visited/pool.go"],
  [("version counter", "pkg/hnsw/visited/list_set.go"), ("pool", "pkg/hnsw/visited/pool.go")],
  "3 (4 thorough) visits and resets around 0, 253 and 509 earlier resets; 2 (3 thorough) rounds of borrowing two sets")

P("P20", "A change log reads back to exactly the state its records describe",
  "Reading the change log of an index back, in one piece or continuing from an earlier log, yields exactly the nodes with their levels and links, the entry point, the tombstones and the quantizer that its records describe, in order. A log cut off at any byte is noticed, yields the state of the complete records before the cut, and its valid length is reported exactly.",
  ["crash_points", "histories", "inputs"], "all sequences of records up to the bound with arbitrary links and entry points, every cut position in the last record",
  "The tests of the log read fixed logs back and cut off none.",
  ["pkg/hnsw/deserializer.go", "pkg/hnsw/commit_logger.go"],
  [("reading records", "pkg/hnsw/deserializer.go"), ("writing records", "pkg/hnsw/commit_logger.go")],
  "a small graph and any 2 records (3 thorough) of 11 kinds, and quantizer records; the service itself runs with a logger that writes nothing")
P("P21", "Condensing and combining change logs never changes what they say",
  "However change logs are continued in new files, reopened, condensed and combined, reading them all in order yields the state their records describe. An interruption at any file operation of condensing or combining loses nothing once the next start has removed what was left unfinished.",
  ["crash_points", "histories", "inputs"], "all records up to the bound in the log being condensed, after and before other logs, every file operation as the point of interruption with the write it hits cut short, all orders of switching, maintaining and reopening up to the bound",
  "The tests condense fixed logs, mostly one at a time, and interrupt nothing.",
  ["pkg/hnsw/condensor.go", "pkg/hnsw/commit_log_combiner.go", "pkg/hnsw/corrupt_commit_logs_fixer.go", "pkg/hnsw/commit_logger.go", "pkg/hnsw/deserializer.go"],
  [("condensing one log", "pkg/hnsw/condensor.go"), ("combining condensed logs", "pkg/hnsw/commit_log_combiner.go"), ("removing leftovers", "pkg/hnsw/corrupt_commit_logs_fixer.go"), ("switching files", "pkg/hnsw/commit_logger.go")],
  "three logs, the middle one any 2 records (3 thorough); any 2 switches, maintenance runs and reopenings (3 thorough); a known finding about doubled links after one interruption")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in LIST:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, note in LIST:
        if p["id"] not in PROPS:
            continue
        i = p["id"]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique="symbolic execution of the real Go code (go/ssa) with z3: the assertion is decided for every input on every path within the bounds; counterexamples and path witnesses are replayed natively",
                           level="model_checking", level_note="bounded: " + note, evidence_file="evidence/%s.json" % i))
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             hooks=dict(guard="none", enable="no hooks in /repo: harnesses, the storage stand-in and the random-source hook are laid over it with go build overlays", source_commits=[]),
             checks=checks, not_applicable=NA,
             notes="Bounds, stand-ins and findings are described in DESIGN.md; known findings are in known_findings.txt.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


NA += [dict(property=p["id"], reason="no check yet") for p, _ in LIST if p["id"] not in PROPS]
if __name__ == "__main__":
    main()
