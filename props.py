"""Which harnesses decide which property, and within which bounds."""

K1 = dict(tag="h07.Readd", msgs=["near search succeeds after a document was replaced"],
          text="adding a document again under an id that is already stored leaves its old index entry behind; a near search that reaches the old entry fails with 'document not found' (harness h07.Readd: add d0, add d0 again with another vector, search)")
K2 = dict(tag="h07.Other", msgs=["after a failed store the distance belongs to the returned document"],
          text="storing the index fails after the documents of a batch were put; a different batch sent next reuses their index ids, and a near search pairs a distance with the wrong document (harness h07.Other: add d0; add d1 with the first, second or third index write failing; add d2; search)")

K3 = dict(tag="h04.Last", msgs=["a vector added after the last one was withdrawn is returned"],
          text="a vector added to a stored index after all others were withdrawn is linked to none of them, and no search finds it (harness h04.Last: one stored vector, withdraw it, add another, search)")
K4 = dict(tag="h04.Unsaved", msgs=["a vector left is returned after the entry point was withdrawn unsaved"],
          text="withdrawing the entry point of an index that was never stored resets it as if it had no other vectors; the next vector added becomes the entry point without links and the others are lost (harness h04.Unsaved: two vectors, withdraw 0, add 2, search)")

K5 = dict(tag="h04.Restart", msgs=["a vector withdrawn before a restart is not returned"],
          text="withdrawals are kept in memory only: a stored vector that was withdrawn is found again by a process started later (harness h04.Restart: two vectors, store, withdraw one, store, reopen, search)")

K6 = dict(tag="h21.Twice", msgs=["a link is read once after an interruption of combining"],
          text="an interruption after a combined change log has got its final name and before its second source is removed: the second source is read once more after the combined log, and its links are doubled (harness h21.Twice: three logs, the middle one adding a link, interruption at the first removal of combining)")

STORE = "remote storage (fairOS-dfs) is the in-memory stand-in in /verif/stubs/fairos: every operation either takes effect or returns an error"
DIST = "the metric is any table of pairwise distances the solver picks (symmetric, zero on the diagonal), not the cosine formula; NaN distances and thresholds are excluded"
LEVEL = "the random level of a node is chosen by the solver up to the stated height"
PRE = "goroutines run until they block, except for the stated number of preemptions, which may come at any lock, channel, atomic or storage operation; data races on plain memory between such operations are not explored"
FILES = "files are in memory: every operation takes effect in order, and an interruption keeps all operations before it and none, half or all of the bytes of the write it hits"
PAL = "vectors come from a fixed palette of plane directions; thresholds are any non-NaN float"


def S(name, label="", bounds="", t=60, tdeep=600, tier="quick", deep=None, finding=None, msteps=0, **params):
    d = dict(name=name, label=label, params=params, bounds=bounds, t=t, tdeep=tdeep, tier=tier, deep=deep or {})
    if msteps:
        d["msteps"] = msteps
    if finding:
        d["finding"] = finding
    return d


PROPS = {
    "P01": dict(assumes=[STORE, DIST, LEVEL], harnesses=[
        S("h01.Search", "n3", "3 vectors, levels 0..1, any distances in [-0.001,2], any threshold", n=3, maxlvl=1),
        S("h01.Search", "restart", "2 vectors, levels 0..1, reopened before searching", n=2, maxlvl=1, reopen=1),
        S("h01.Search", "unsaved", "2 vectors searched before they are stored", n=2, maxlvl=1, flush=0),
        S("h01.Search", "cache edge", "3 vectors, ids 24999..25001", n=3, first=24999),
        S("h01.Search", "visited edge", "3 vectors, ids 25510..25512", n=3, first=25510),
        S("h01.Search", "ef1", "3 vectors, search breadth 1", n=3, ef=1),
        S("h01.Search", "ef2", "3 vectors, levels 0..1, search breadth 2", n=3, ef=2, maxlvl=1),
        S("h01.Search", "allow", "2 vectors, levels 0..1, every allow list", n=2, maxlvl=1, allow=1),
        S("h01.Search", "pruned", "4 vectors, 2 connections per layer, level 0", n=4, m=2, efc=3, tier="thorough"),
        S("h01.Search", "n4", "4 vectors, levels 0..1", n=4, maxlvl=1, tier="thorough", tdeep=900),
        S("h01.Search", "three layers", "3 vectors, levels 0..2", n=3, maxlvl=2, t=120),
        S("h01.Search", "ids 65535", "3 vectors, ids 65535..65537", n=3, first=65535),
        S("h01.Many", "260", "261 searches on one index of 2 vectors", reps=260),
        S("h01.Many", "600", "601 searches on one index of 2 vectors", reps=600, tier="thorough"),
    ]),
    "P02": dict(assumes=[STORE, DIST, LEVEL], harnesses=[
        S("h01.Search", "n3", "3 vectors, levels 0..1, any distances, any threshold, below the connection limit", n=3, maxlvl=1),
        S("h01.Search", "n3 restart", "3 vectors, level 0, reopened", n=3, reopen=1),
        S("h01.Search", "allow", "3 vectors, every allow list", n=3, allow=1),
        S("h01.Big", "70", "70 vectors on a line, 30 connections, restart in the middle, any threshold", n=70, m=30, reopen=1, t=90),
        S("h01.Big", "70 allowed", "70 vectors on a line, 30 connections, three allow lists of every 11th vector, any threshold", n=70, m=30, reopen=1, every=11),
        S("h01.Search", "n4", "4 vectors, level 0", n=4, tier="thorough", tdeep=900),
        S("h01.Big", "95", "95 vectors on a line", n=95, m=30, reopen=1, tier="thorough", tdeep=900),
    ]),
    "P03": dict(assumes=[STORE, DIST, LEVEL], harnesses=[
        S("h03.Knn", "n3", "3 vectors, k 0..4", n=3),
        S("h03.Knn", "n5", "5 vectors, any distances to the query, k 0..6", n=5, tail=1, t=120),
        S("h03.Knn", "flat5", "5 vectors, any distances to the query, k 0..6, all allowed, flat search", n=5, tail=1, allow=2, flat=10),
        S("h03.Knn", "levels", "2 vectors, levels 0..1, k 0..3", n=2, maxlvl=1),
        S("h03.Knn", "breadths", "2 vectors, k 0..3, search breadth configured as anything from automatic to 2, automatic limits 1..3", n=2, breadth=1),
        S("h03.Knn", "allow", "2 vectors, every allow list, graph search", n=2, allow=1),
        S("h03.Knn", "flat", "3 vectors, every allow list, flat search", n=3, allow=1, flat=10),
        S("h03.Dist", "dist", "3 vectors, distances on a grid, any threshold", n=3, grid=3, t=90),
        S("h03.Dist", "dist flat", "2 vectors, distances on a grid, every allow list, flat search", n=2, grid=3, allow=1, flat=10, t=90),
        S("h03.Pages", "pages", "103 vectors, threshold around the page boundary", t=90),
        S("h03.Pages", "pages ties", "103 vectors, all equally far from rank 97..100 on, threshold around the page boundary, each search running its goroutines in either order", tie=97, order=1, t=100),
        S("h03.Third", "three pages", "1110 vectors, threshold around the end of the second page, flat search", msteps=2000, t=120),
        S("h03.Dist", "dist flat 3", "3 vectors, every allow list, flat search", n=3, grid=3, allow=1, flat=10, tier="thorough", tdeep=900),
        S("h03.Knn", "n4", "4 vectors", n=4, tier="thorough", tdeep=900),
    ]),
    "P04": dict(assumes=[STORE, DIST, LEVEL], harnesses=[
        S("h04.Delete", "n3", "3 vectors, levels 0..1, stored or not, searched after each of 2 withdrawals", n=3, dels=2, maxlvl=1, each=1),
        S("h04.Delete", "knn", "3 stored vectors, levels 0..1, 2 withdrawals, k-nearest search too", n=3, dels=2, maxlvl=1, knn=1, store=1),
        S("h04.Delete", "all gone", "2 vectors, 3 withdrawals (repeated or of an id that is not there)", n=2, absent=1, dels=3, maxlvl=1, each=1),
        S("h04.Delete", "add after", "3 stored vectors, 2 withdrawals, another vector added", n=3, dels=2, more=1, store=1, left=1),
        S("h04.Delete", "add two after", "2 stored vectors, levels 0..1, 1 withdrawal, two vectors added", n=2, dels=1, more=2, maxlvl=1, store=1),
        S("h04.Delete", "flat", "3 stored vectors, 1 withdrawal, every allow list, flat and graph search", n=3, dels=1, allow=1, knn=1, store=1, flat=10),
        S("h04.Delete", "allow", "2 stored vectors, levels 0..1, 2 withdrawals, every allow list, k-nearest search too", n=2, dels=2, allow=1, knn=1, store=1, maxlvl=1),
        S("h04.Delete", "at once", "3 stored vectors, levels 0..1, 2 withdrawn in one call, also ids that are not there", n=3, absent=1, dels=2, once=1, maxlvl=1, store=1),
        S("h04.Delete", "at once, add after", "3 stored vectors, 2 withdrawn in one call, another added", n=3, dels=2, once=1, more=1, store=1, left=1),
        S("h04.Restart", "restart", "2 stored vectors, one withdrawn, restart", finding=K5),
        S("h04.Last", "last", "1 stored vector, withdrawn, one added", finding=K3),
        S("h04.Unsaved", "unsaved", "2 vectors never stored, the entry point withdrawn, one added", finding=K4),
        S("h04.Delete", "n4", "4 stored vectors, levels 0..1, 3 withdrawals", n=4, dels=3, maxlvl=1, store=1, tier="thorough", tdeep=900),
        S("h04.Delete", "add after upper", "3 stored vectors, levels 0..1, 2 withdrawals, another added", n=3, dels=2, more=1, maxlvl=1, store=1, left=1, tier="thorough", tdeep=900),
    ]),
    "P05": dict(assumes=[STORE, DIST, LEVEL], harnesses=[
        S("h05.Build", "n4 m2", "4 vectors, 2 connections, levels 0..1", n=4, m=2, t=90),
        S("h05.Build", "three layers", "3 vectors, 2 connections, levels 0..2", n=3, m=2, maxlvl=2),
        S("h05.Build", "batches", "3 vectors, stored after any, reopened", n=3, m=2, batch=1, reopen=1),
        S("h05.Build", "batches live", "3 vectors, stored after any, same process", n=3, m=2, batch=1),
        S("h05.Build", "empty first", "3 vectors after storing an empty index", n=3, m=30, pre=1),
        S("h05.Build", "pruned", "6 vectors around one, 2 connections, level 0, 4 distances to the last one arbitrary", n=6, m=2, shape=2, tail=1, free=4, maxlvl=0),
        S("h05.Build", "pruned upper", "5 vectors, 2 connections, levels 0..1, 3 distances to the last one arbitrary", n=5, m=2, tail=1, free=3, maxlvl=1, t=90),
        S("h05.Build", "pauses", "4 vectors, 2 connections, level 0, the vectors kept in memory dropped after any", n=4, m=2, maxlvl=0, pauses=1, t=90),
        S("h05.Build", "pauses reopened", "3 vectors, stored and reopened after any, vectors dropped after any, unknown to the vector source", n=3, m=2, maxlvl=0, pauses=3, batch=1, reopen=1, source=0, tier="thorough", tdeep=900),
        S("h05.Build", "pruned alike", "7 vectors equally far from each other, the last arbitrary, 2 connections, level 0", n=7, m=2, shape=1, tail=1, maxlvl=0, tier="thorough", tdeep=900),
        S("h05.Build", "n5", "5 vectors, 2 connections, level 0", n=5, m=2, maxlvl=0, tier="thorough", tdeep=900),
    ]),
    "P06": dict(assumes=[STORE, DIST, LEVEL], harnesses=[
        S("h06.Persist", "n3", "3 vectors, level 0, any store/search/restart history between them", n=3, t=90),
        S("h06.Persist", "levels", "2 vectors, levels 0..1", n=2, maxlvl=1),
        S("h10.Batches", "documents", "2 documents, restart after each", n=2, pal=2),
        S("h06.Evict", "large batch", "one batch of 10003 vectors, more than are kept in memory", msteps=400, t=120),
        S("h06.Prune", "pruned", "6 vectors around one, 2 connections, stored and reopened before the last, 3 distances to the last arbitrary", n=6, free=3, reopen=1),
        S("h06.Prune", "pruned 2", "6 vectors, the last two arbitrary, stored and reopened before each", n=6, tail=2, stores=2, free=3, reopen=1, tier="thorough", tdeep=900),
        S("h06.Prune", "pruned n9", "9 vectors, 4 distances to the last arbitrary", n=9, free=4, reopen=1, tier="thorough", tdeep=900),
        S("h06.Persist", "n3 levels", "3 vectors, levels 0..1", n=3, maxlvl=1, tier="thorough", tdeep=900),
    ]),
    "P07": dict(assumes=[STORE, DIST, PAL], harnesses=[
        S("h07.Flush", "levels", "1 vector stored, 2 added, levels 0..1, any write failing", n=1, k=2, maxlvl=1, t=120),
        S("h07.Flush", "n2", "2 vectors stored, 1 added", n=2, k=1, t=90),
        S("h07.Flush", "first", "2 vectors, the first store fails", n=0, k=2),
        S("h07.Add", "n1 k2", "1 document stored, batch of 2, any write failing once or for good", n=1, k=2),
        S("h07.Add", "n0 k2", "first batch of 2", n=0, k=2),
        S("h07.Readd", "readd", finding=K1),
        S("h07.Other", "other", finding=K2),
        S("h07.Add", "n2 k3", "2 documents stored, batch of 3", n=2, k=3, tier="thorough", tdeep=900),
        S("h07.Flush", "n2 k2", "2 vectors stored, 2 added", n=2, k=2, tier="thorough", tdeep=900),
    ]),
    "P08": dict(assumes=[STORE, PAL], harnesses=[
        S("h10.Batches", "n3", "3 documents, 2 directions or none, restarts, limits 0..3", n=3, pal=2, t=90),
        S("h10.Batches", "n2", "2 documents, 5 directions or none", n=2, pal=5),
        S("h10.Batches", "schedules", "2 documents, 2 directions or none, every order in which the goroutines of the search start", n=2, pal=2, restart=0, sched=1),
        S("h10.Large", "130", "130 documents in batches of 1 to 63, restarts, 8 limits, any threshold in 4 intervals", t=120),
        S("h10.Wide", "wide", "3 documents, vectors of 1540 components that differ in one, 120 properties, a text of 11000 characters"),
        S("h10.Large", "130 wide", "the same, wider intervals", width=15, tier="thorough", tdeep=900),
        S("h10.Batches", "schedules n3", "3 documents, 2 directions or none, every order in which the goroutines of the search start", n=3, pal=2, restart=0, sched=1, tier="thorough"),
        S("h10.Batches", "n3 pal5", "3 documents, 5 directions", n=3, pal=5, tier="thorough", tdeep=900),
    ]),
    "P09": dict(assumes=[STORE, PAL, "the vectorizer is a table from text to vector reached through net/http calls that are redirected"], harnesses=[
        S("h11.Text", "n2", "2 documents of 10 kinds, one batch or two, 5 texts searched for", n=2),
        S("h11.Text", "restart", "2 documents of 10 kinds, 5 texts searched for, restart before the search", n=2, restart=1),
        S("h11.Down", "down", "batch of 2, any vectorizer call failing in 9 ways", n=2),
        S("h11.Large", "100", "100 documents given as texts in batches of 1 to 63, 6 texts searched for, 4 limits, any threshold in 2 intervals", n=100, t=150),
        S("h11.Beyond", "804", "804 documents, 802 asked for, by text and by vector, any threshold in an interval", msteps=3000, t=400),
        S("h11.Wide", "wide", "3 texts whose vectors have 6000 components and differ in one", msteps=400),
        S("h11.Large", "160", "160 documents", n=160, tier="thorough", tdeep=900),
        S("h11.Text", "n3", "3 documents", n=3, tier="thorough", tdeep=900),
        S("h11.Down", "down3", "batch of 3", n=3, tier="thorough"),
    ]),
    "P10": dict(assumes=[STORE, PAL, PRE], harnesses=[
        S("h16.Adds", "two adds", "1 stored document, restart, two additions at once, 1 preemption", preempt=1),
        S("h16.Adds", "two adds open", "1 stored document, two additions at once, 1 preemption", preempt=1, restart=0),
        S("h16.Mixed", "add and search", "1 stored document, restart, an addition and a search at once, 1 preemption", preempt=1),
        S("h16.Mixed", "add and search open", "1 stored document, an addition and a search at once, 1 preemption", preempt=1, restart=0),
        S("h16.Mixed", "add, create and search", "an addition at once with creating the existing collection and searching it, 1 preemption", preempt=1, create=1),
        S("h16.Reads", "two reads", "1 stored document, restart, two searches or a search and a lookup at once, 1 preemption", preempt=1),
        S("h16.Replace", "replace", "an addition at once with deleting and creating the collection, 1 preemption", preempt=1),
        S("h16.Replace", "replace open", "the same without restart before", preempt=1, restart=0),
        S("h16.Index", "index adds", "1 stored vector, two additions to the index at once, 1 preemption, any distances to the query", preempt=1),
        S("h16.Index", "index add and search", "1 stored vector, reopened, an addition and a search at once, 1 preemption", preempt=1, search=1, restart=1),
        S("h16.Index", "index first", "an empty index, two additions at once, 1 preemption", preempt=1, pre=0),
        S("h16.Index", "index raise", "1 stored vector, an addition on layer 0 or 1 and a search at once, 1 preemption", preempt=1, search=1, lvl=1),
        S("h16.Index", "index adds 2", "1 stored vector, two additions at once, 2 preemptions, fixed distances", preempt=2, tail=0, tier="thorough", tdeep=900),
        S("h16.Adds", "two adds 2", "two additions at once, 2 preemptions", preempt=2, tier="thorough", tdeep=1800),
        S("h16.Mixed", "add and search 2", "an addition and a search at once, 2 preemptions", preempt=2, tier="thorough", tdeep=1800),
        S("h16.Reads", "two reads 2", "two reads at once, 2 preemptions", preempt=2, tier="thorough", tdeep=1800),
        S("h16.Replace", "replace 2", "an addition at once with deleting and creating the collection, 2 preemptions", preempt=2, tier="thorough", tdeep=900),
    ]),
    "P11": dict(assumes=[STORE, PAL], harnesses=[
        S("h12.Life", "filled", "2 collections with a document each, any 3 operations of create/delete/add/restart", steps=3),
        S("h12.Life", "empty", "any 4 operations from nothing", filled=0, steps=4),
        S("h12.Names", "names", "any two different names of 1-2 bytes", len=2, deep=dict(len=3)),
        S("h12.Names", "long names", "any two different names of some 360 or 720 bytes that differ in one byte", len=1, long=1),
        S("h12.Many", "30", "30 collections with a document each, one or none deleted"),
        S("h12.Types", "types", "two collections, every combination of index types of up to 2 fields"),
        S("h12.Down", "down", "any one storage operation of a creation failing"),
        S("h12.Gone", "gone", "any storage operation of a deletion failing, once or for good, restarts before and after"),
        S("h12.Life", "filled4", "any 4 operations", steps=4, tier="thorough", tdeep=900),
        S("h12.Life", "empty5", "any 5 operations from nothing", filled=0, steps=5, tier="thorough", tdeep=900),
    ]),
    "P12": dict(assumes=[STORE, PAL], harnesses=[
        S("h12.Guard", "guard", "7 states without usable session or pod, 7 operations"),
    ]),
    "P19": dict(assumes=[STORE, DIST, LEVEL, PAL], harnesses=[
        S("h07.Read", "n3", "3 stored documents, any read failing, once or for good, of a search by vector or text, a lookup, a listing or an addition", n=3),
        S("h07.IndexRead", "n2", "2 stored vectors, any distances, any read failing of a search or an addition", n=2),
        S("h07.IndexRead", "pruned", "5 stored vectors around one, 2 connections, a search with any read failing", n=5, m=2, tail=1, shape=2, points=9, ref=1),
        S("h07.IndexRead", "flat", "2 stored vectors, flat search", n=2, flat=10, ops=3),
        S("h07.IndexRead", "levels", "2 stored vectors, levels 0..1", n=2, maxlvl=1, t=120),
        S("h07.IndexRead", "n3", "3 stored vectors", n=3, tier="thorough", tdeep=900),
        S("h07.Read", "n4", "4 stored documents", n=4, tier="thorough", tdeep=900),
    ]),
    "P18": dict(assumes=[STORE, PAL, "every user has their own pods, and a pod is opened within a login"], harnesses=[
        S("h12.Pods", "switches", "2 users with 2 pods, any 2 logins, openings, failing ones, additions and searches", steps=2),
        S("h12.Pods", "switches 3", "any 3 of them", steps=3, t=120),
        S("h12.Pods", "switches 4", "any 4 of them", steps=4, tier="thorough", tdeep=900),
    ]),
    "P13": dict(assumes=[STORE, PAL, "request bodies are given as the JSON binding delivers them (numbers as json.Number); whole HTTP requests go through a stand-in for the router of go-openapi (harness/vr)"], harnesses=[
        S("h24.Valid", "requests", "one whole HTTP request of 7 kinds: names of 1-2 characters, values of 1-3, any threshold, limits 0..3", n=2, t=120),
        S("h24.Refused", "refused", "one whole HTTP request with a missing, empty, misnamed or unreadable part"),
        S("h14.Add", "add", "22 kinds of add requests on a collection of 1 document, another addition after a refused one, then search with any threshold"),
        S("h14.Search", "search", "9 kinds of searches and lookups, any threshold, limits -3..3"),
        S("h14.Text", "text", "2 documents of 4 kinds, searched by 2 texts, any threshold, limits 0..2, the vectorizer failing in between"),
        S("h14.Large", "115", "115 documents in 3 batches, restart, 8 limits, any threshold in 3 intervals", t=120),
        S("h14.Collections", "collections", "creation requests with up to 2 indexes of any declared type, arbitrary 6-byte type names"),
    ]),
    "P14": dict(assumes=[STORE], harnesses=[
        S("h15.Get", "n2", "2 documents, ids of 1-2 and texts of 1 arbitrary letters, digits, spaces, dashes or underscores, numbers 0..2", n=2),
        S("h15.Get", "long", "2 documents, ids and texts of some 520 characters with arbitrary ends", n=2, long=1),
        S("h15.Get", "long starts", "2 documents, ids and texts of some 400 characters with arbitrary starts", n=2, long=2),
        S("h15.Extra", "mixed", "any 3 lookups, additions and searches after a restart"),
        S("h15.Get", "n3", "3 documents", n=3, tier="thorough", tdeep=900),
    ]),
    "P15": dict(assumes=["the portable implementation is encoded; the assembly used on processors with AVX2 comes from a dependency and is only reached by the native replay"], harnesses=[
        S("h20.Exact", "exact", "5 metrics, 1-2 dimensions, all integers -3..3, as they are, by 8192 and times 4096", dim=2, scales=3, t=240),
        S("h20.Exact", "wide", "5 metrics, 10 dimensions, one arbitrary (first, middle or last)", dim=1, fill=9, range=2, t=120),
        S("h20.Exact", "wide 131", "5 metrics, 131 dimensions, one arbitrary", dim=1, fill=130, range=1, t=120),
        S("h20.Exact", "many lengths", "5 metrics, 24 lengths from 4 to 1536, the last component arbitrary", dim=1, fill=-1, range=1, t=300),
        S("h20.Geo", "geo", "the globe metric on a grid of places with the poles, the date line, opposite and close points (trigonometry is evaluated, not encoded)", t=120),
        S("h20.Any", "any", "5 metrics, 1 dimension, any numbers up to a million"),
        S("h20.Sizes", "sizes", "5 metrics, 0-3 dimensions each side"),
        S("h20.Norm", "norm", "1 dimension, integers -4..4, solver", t=90),
        S("h20.Unit", "unit", "1-3 dimensions, integers -2..2"),
        S("h20.Unit", "scaled", "1-3 dimensions, integers -2..2 times one of 16 scales from 1e-42 to 1e37, some close to unit length", scales=16),
        S("h20.Norm", "norm2", "2 dimensions, integers -2..2", dim=2, range=2, tier="thorough"),
        S("h20.Exact", "exact3", "3 dimensions, integers -2..2", dim=3, range=2, tier="thorough", tdeep=900),
    ]),
    "P16": dict(assumes=["NaN distances are excluded"], harnesses=[
        S("h17.Queue", "plain", "any 5 insertions and removals, any distances", steps=5),
        S("h17.Queue", "indexed", "any 5 insertions and removals, any distances", steps=5, index=1),
        S("h17.Queue", "reused", "after a reset, any 3 operations", steps=3, reused=1),
        S("h17.Queue", "deep", "13 and 6 entries in 4 orders with 0, 4 or 8 taken out in between, then any 2 operations", steps=2, pre=13),
        S("h17.Queue", "deep indexed", "the same with indexes", steps=2, pre=13, index=1),
        S("h17.Queue", "deeper", "23 and 11 entries, then any operation", steps=1, pre=23),
        S("h17.Queue", "deepest", "70 and 35 entries, then any operation", steps=1, pre=70, t=150),
        S("h17.Queue", "resets", "any 4 insertions, removals and resets of 4 kinds", steps=4, resets=1),
        S("h17.Queue", "resets indexed", "the same with indexes", steps=4, resets=1, index=1),
        S("h17.Queue", "plain6", "any 6 operations", steps=6, tier="thorough", tdeep=900),
        S("h17.Queue", "reused indexed", "after a reset, any 3 operations", steps=3, reused=1, index=1),
    ]),
    "P17": dict(assumes=[], harnesses=[
        S("h17.Visited", "fresh", "any 3 visits and resets, any probe", steps=3),
        S("h17.Visited", "wrap", "the same around the wrap of the version counter", steps=3, resets=253),
        S("h17.Visited", "wrap2", "the same after two wraps, larger set", steps=3, resets=509, size=300, far=2100),
        S("h17.Pool", "pool", "2 rounds of borrowing and returning two sets"),
        S("h17.Pool", "three", "2 rounds of borrowing three sets, one of which grows", three=1),
        S("h17.Visited", "steps4", "any 4 visits and resets", steps=4, resets=252, tier="thorough"),
        S("h17.Pool", "pool3", "3 rounds", rounds=3, tier="thorough", tdeep=900),
    ]),
    "P20": dict(assumes=[FILES, "ids of nodes below 60001, layers 0..1, links and entry points arbitrary"], harnesses=[
        S("h21.Read", "any 2", "a small graph and any 2 records of 11 kinds, read whole, in two parts, or cut off at any byte of the last", k=2, t=150),
        S("h21.Read", "far", "a small graph and any record, ids at the 25000 and 60000 table edges", k=1, ids=4),
        S("h21.Read", "alone", "any 2 records and nothing before", k=2, pre=0, ids=1),
        S("h21.Read", "big", "70 nodes, 13 layers and up to 700 links per node, then any record", k=1, ids=1, big=1),
        S("h21.PQ", "quantizer", "product quantizers of 1-2 segments, 2-3 centroids or tiles, any numbers, whole, cut off, condensed"),
        S("h21.Read", "any 3", "any 3 records, one id", k=3, ids=1, tier="thorough", tdeep=900),
        S("h21.Read", "any 2 far", "any 2 records, 3 ids", k=2, ids=3, tier="thorough", tdeep=900),
    ]),
    "P21": dict(assumes=[FILES, "ids of nodes below 60001, layers 0..1, links and entry points arbitrary; a node is added once, or again after it was deleted"], harnesses=[
        S("h21.Condense", "any 2", "three logs, the middle one any 2 records of 11 kinds, condensed and combined, twice", k=2, ids=3, t=150),
        S("h21.Condense", "interrupted", "the middle one any record, interrupted at any file operation", k=1, ids=3, crash=13),
        S("h21.Condense", "large", "the middle one any record, logs too large to combine", k=1, ids=3, threshold=60),
        S("h21.Condense", "big", "the first log 11000 bytes with up to 700 links per node, the middle one any record", k=1, ids=1, big=1),
        S("h21.Condense", "big interrupted", "the same, the middle one adds or replaces links, interrupted at any file operation", k=1, ids=1, big=1, crash=30, kinds=20),
        S("h21.Switch", "big switched", "a first log of 11000 bytes, a continuation in a new file, a maintenance run or a reopening", steps=1, ids=1, big=1),
        S("h21.Switch", "switched", "any 2 continuations in a new file, maintenance runs and reopenings, each with any of 5 kinds of records", steps=2, t=150),
        S("h21.Twice", "twice", "interrupted after combining", finding=K6),
        S("h21.Condense", "any 3", "the middle one any 3 records, one id", k=3, ids=1, tier="thorough", tdeep=900),
        S("h21.Condense", "interrupted 2", "the middle one any 2 records, interrupted at any file operation", k=2, ids=1, crash=13, tier="thorough", tdeep=1800),
        S("h21.Switch", "each", "the same, read after each", steps=2, each=1, ids=1, tier="thorough", tdeep=900),
        S("h21.Switch", "switched 3", "any 3, one id", steps=3, ids=1, tier="thorough", tdeep=1800),
    ]),
    "P22": dict(assumes=[STORE, "the environment holds no NUL bytes; the storage accepts every name with a password"], harnesses=[
        S("h22.Start", "settings", "any one group of settings arbitrary or missing, texts of up to 1 byte (VERBOSE 7), any start-up call failing", max=1),
        S("h22.Start", "longer", "texts of up to 3 bytes", max=3),
        S("h22.Start", "very long", "texts of 302 bytes, the first and last arbitrary", max=1, long=1),
        S("h22.Start", "long", "texts of up to 6 bytes", max=6, tier="thorough"),
    ]),
    "P24": dict(assumes=[STORE, PAL, "the router, the content negotiation and the id format check of go-openapi are stood in for (harness/vr); the paths are read from the published description; reading HTTP off the network is outside"], harnesses=[
        S("h24.Valid", "requests", "one request of 8 kinds after 5 that fill 2 collections: names of 1-2 printable characters, values of 1-3, longer ones that look encoded, any threshold, limits 0..3, 1-2 documents, with and without length", n=2, t=120),
        S("h24.Refused", "refused", "a missing, empty or misnamed part, a body of another shape, an id with any odd character, any other path of 3 characters, any other method"),
        S("h24.Carry", "values", "one request of 6 kinds with operations that record: any 64-bit limit, any distance and component, names and texts of 1-2 printable characters or of hundreds, up to 152 documents, 303 components, 42 indexes"),
        S("h24.Answers", "answers", "one request of 7 kinds with operations that answer or fail: 0, 1, 2 or 150 documents, reasons or collections, any text of 2 characters, any distance"),
        S("h24.Valid", "longer names", "created and deleted names of 1-4 characters", n=4, only=1, tier="thorough"),
        S("h24.Valid", "longer names gone", "deleted names of 1-4 characters", n=4, only=2, tier="thorough"),
        S("h24.Valid", "longer values", "values of 4 characters", only=3, middle=2, tier="thorough", tdeep=1200),
    ]),
    "P23": dict(assumes=[STORE, DIST], harnesses=[
        S("h23.Parse", "any one", "any number as float or digits, also beyond the integers, with all others left out; all numbers given; any switches and names", t=120),
        S("h23.Change", "changes", "any old and new settings, the fixed ones -3..9"),
        S("h23.Update", "update", "2 vectors, any breadths 1..5 and cutoffs 0..5, any distances", n=2),
        S("h23.Update", "update 3", "3 vectors", n=3),
        S("h23.Incomplete", "incomplete", "any parts missing"),
        S("h23.Parse", "any two", "any two numbers", numbers=2, tier="thorough", tdeep=900),
    ]),
}
