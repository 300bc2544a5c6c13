// Package h07: storage failures and crashes while the index or a batch of
// documents is being stored.
package h07

import (
	"errors"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairDataSociety/FaVe/zz_verif/dx"
	"github.com/fairDataSociety/FaVe/zz_verif/hx"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
)

// Flush: n vectors are stored, k more are added, and storing them fails at
// any one write. The failure is reported. Then either storing is repeated, or
// the process dies and a new one opens the collection: what was stored before
// is all still found, and after the repetition everything is.
func Flush() {
	n, k := vx.Param("n", 2), vx.Param("k", 1)
	t := hx.NewTable(n+k+1, 2)
	q := n + k
	e := hx.NewEnv(t, 30, 60)
	idx := e.Open()
	ids := hx.Seq(0, n+k)
	for i := 0; i < n; i++ {
		hx.ChooseLevel("level", e.M, vx.Param("maxlvl", 0))
		vx.Assert(idx.Add(ids[i], t.Vec(i)) == nil, "adding a vector succeeds")
	}
	if n > 0 {
		vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
	}
	for i := n; i < n+k; i++ {
		hx.ChooseLevel("level", e.M, vx.Param("maxlvl", 0))
		vx.Assert(idx.Add(ids[i], t.Vec(i)) == nil, "adding a vector succeeds")
	}
	at := vx.Choice("at", n+k+2)
	c := 0
	hit := false
	collection.Fault = func(op, name, key string) error {
		if op == "kvput" {
			c++
			if c-1 >= at {
				hit = true
				return errors.New("storage unavailable")
			}
		}
		return nil
	}
	err := idx.Flush(uint64(n + k))
	collection.Fault = nil
	if !hit {
		vx.Assert(err == nil, "storing succeeds")
	} else {
		vx.Assert(err != nil, "a failed write is reported")
	}
	x := vx.F32("thr")
	vx.Assume(x == x)
	if vx.Choice("then", 2) == 0 {
		vx.Assert(idx.Flush(uint64(n+k)) == nil, "storing again succeeds")
		idx = e.Open()
		vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
		got, dists, err := idx.KnnSearchByVectorMaxDist(t.Vec(q), x, 800, nil)
		vx.Assert(err == nil, "the search succeeds")
		hx.Complete(t, q, x, hx.Sound(t, ids, q, x, got, dists, nil), nil)
		cnt, err := idx.GetDocCount()
		vx.Assert(err == nil && cnt == uint64(n+k), "the count is stored")
	} else if n > 0 {
		idx = e.Open()
		cnt, err := idx.GetDocCount()
		vx.Assert(err == nil && (cnt == uint64(n) || !hit && cnt == uint64(n+k)), "the stored count is that of the last completed store")
		vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
		got, dists, err := idx.KnnSearchByVectorMaxDist(t.Vec(q), x, 800, nil)
		vx.Assert(err == nil, "the search succeeds after the crash")
		seen := hx.Sound(t, ids, q, x, got, dists, nil)
		hx.Complete(t, q, x, seen[:n], nil)
	}
	vx.Cover("done")
}

// Add: a batch of documents is added after an earlier one, and one storage
// write fails at any point (every later one too when the process dies). The
// call reports it; the earlier documents are all still found with their own
// data; sending again what was not put makes everything found.
func Add() {
	n, k := vx.Param("n", 1), vx.Param("k", 2)
	c := dx.New(false)
	vx.Assert(c.Create("c") == nil, "collection is created")
	var docs []dx.Doc
	for i := 0; i < n+k; i++ {
		docs = append(docs, dx.Doc{ID: dx.ID(i), Vec: dx.Palette[i]})
	}
	mk := func(ds []dx.Doc) []*document.Document {
		var r []*document.Document
		for _, d := range ds {
			r = append(r, dx.Make(d.ID, d.Vec))
		}
		return r
	}
	if n > 0 {
		vx.Assert(c.Cl.AddDocuments("c", nil, mk(docs[:n])...) == nil, "adding succeeds")
	}
	at := vx.Choice("at", vx.Param("points", 2*k+n+3))
	die := vx.Choice("die", 2) == 1
	f := dx.FailAt(at, die, "docput", "kvput", "commit")
	// what is sent again are the caller's own documents
	batch := mk(docs[n:])
	err := c.Cl.AddDocuments("c", nil, batch...)
	dx.NoFault()
	hit := f.Op != ""
	vx.Assert(hit == (err != nil), "a failed write is reported")
	if die {
		c.Restart()
	}
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	q := []float32{1, 0.25}
	if hit && n > 0 {
		raw, dists, err := c.Cl.GetNearDocumentsByVector("c", q, thr, 0)
		vx.Assert(err == nil, "near search succeeds after a failed add")
		// unacknowledged documents may or may not be there
		all := map[string]bool{}
		for i := range raw {
			r := dx.Parse(raw[i])
			all[r.ID] = true
			for _, d := range docs {
				if d.ID == r.ID {
					dd := dx.Cos(d.Vec, q) - float64(dists[i])
					vx.Assert(dd < dx.Eps && dd > -dx.Eps, "the distance belongs to the returned document")
				}
			}
		}
		for _, d := range docs[:n] {
			vx.Assert(all[d.ID] || float64(thr) <= dx.Cos(d.Vec, q)+dx.Eps, "documents stored before are all still found")
		}
	}
	switch {
	case f.Op == "kvput" && (die || f.Puts == k):
		// the index was not stored: the whole batch goes again
		vx.Assert(c.Cl.AddDocuments("c", nil, batch...) == nil, "adding the batch again succeeds")
	case f.Op == "docput" && !die:
		vx.Assert(c.Cl.AddDocuments("c", nil, batch[f.Puts:]...) == nil, "adding the rest succeeds")
	case f.Op == "docput":
		vx.Assert(c.Cl.AddDocuments("c", nil, batch...) == nil, "adding the batch again succeeds")
	}
	c.CheckNear("c", docs, q, thr, 0)
	vx.Cover("done")
}

// Readd: a document is sent again under its id. (Known to fail, see
// known_findings.txt.)
func Readd() {
	c := dx.New(false)
	vx.Assert(c.Create("c") == nil, "collection is created")
	vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make("d0", dx.Palette[0])) == nil, "adding succeeds")
	vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make("d0", dx.Palette[1])) == nil, "adding again succeeds")
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	raw, dists, err := c.Cl.GetNearDocumentsByVector("c", []float32{1, 0.25}, thr, 0)
	vx.Assert(err == nil, "near search succeeds after a document was replaced")
	dx.CheckResult([]dx.Doc{{ID: "d0", Vec: dx.Palette[1]}}, raw, dists, []float32{1, 0.25}, thr, 0)
	vx.Cover("done")
}

// Other: storing a batch fails, then another batch is sent. (Known to fail,
// see known_findings.txt.)
func Other() {
	c := dx.New(false)
	vx.Assert(c.Create("c") == nil, "collection is created")
	vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make("d0", dx.Palette[0])) == nil, "adding succeeds")
	f := dx.FailAt(vx.Choice("at", 3), false, "kvput")
	err := c.Cl.AddDocuments("c", nil, dx.Make("d1", dx.Palette[1]))
	dx.NoFault()
	vx.Assert((f.Op != "") == (err != nil), "a failed write is reported")
	vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make("d2", dx.Palette[2])) == nil, "adding another document succeeds")
	raw, dists, err := c.Cl.GetNearDocumentsByVector("c", []float32{1, 0.25}, 3, 0)
	vx.Assert(err == nil, "near search succeeds after a failed add")
	vx.Cover("searched")
	docs := []dx.Doc{{ID: "d0", Vec: dx.Palette[0]}, {ID: "d1", Vec: dx.Palette[1]}, {ID: "d2", Vec: dx.Palette[2]}}
	for i := range raw {
		r := dx.Parse(raw[i])
		for _, d := range docs {
			if d.ID == r.ID {
				dd := dx.Cos(d.Vec, []float32{1, 0.25}) - float64(dists[i])
				vx.Assert(dd < dx.Eps && dd > -dx.Eps, "after a failed store the distance belongs to the returned document")
			}
		}
	}
	vx.Cover("done")
}

// reads are the storage operations that only read.
var reads = []string{"kvget", "kvempty", "kvopen", "docopen", "docfind", "doclist"}

// Read: documents are stored, the process starts again, and any one storage
// read of a search, a lookup or an addition fails, once or from then on. The
// operation says so or does all of its work, and nothing that was stored
// before is lost.
func Read() {
	n := vx.Param("n", 2)
	c := dx.New(true)
	c.Texts["query"] = []float32{1, 0.25}
	vx.Assert(c.Create("c") == nil, "collection is created")
	var docs []dx.Doc
	for i := 0; i <= n; i++ {
		docs = append(docs, dx.Doc{ID: dx.ID(i), Vec: dx.Palette[i]})
	}
	for i := 0; i < n; i++ {
		vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make(docs[i].ID, docs[i].Vec)) == nil, "adding succeeds")
	}
	have := docs[:n]
	if vx.Choice("restart", 2) == 1 {
		c.Restart()
	}
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	q := []float32{1, 0.25}
	f := dx.FailAt(vx.Choice("at", vx.Param("points", 2*n+5)), vx.Choice("stays", 2) == 1, reads...)
	switch vx.Choice("op", 5) {
	case 0:
		raw, dists, err := c.Cl.GetNearDocumentsByVector("c", q, thr, 0)
		dx.NoFault()
		vx.Assert(err == nil || f.Op != "", "an error means a failure")
		if err == nil {
			dx.CheckResult(have, raw, dists, q, thr, 0)
		}
	case 1:
		b, err := c.Cl.GetDocument("c", "id", docs[0].ID)
		dx.NoFault()
		vx.Assert((err != nil) == (f.Op != ""), "a failed read is reported")
		if err == nil {
			dx.Whole(b, docs[0].ID)
		}
	case 2:
		err := c.Cl.AddDocuments("c", nil, dx.Make(docs[n].ID, docs[n].Vec))
		dx.NoFault()
		vx.Assert(err == nil || f.Op != "", "an error means a failure")
		if err == nil {
			have = docs
		} else if vx.Choice("again", 2) == 1 {
			vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make(docs[n].ID, docs[n].Vec)) == nil, "adding again succeeds")
			have = docs
		}
	case 4:
		raw, dists, err := c.Cl.GetNearDocuments("c", "query", thr, 0)
		dx.NoFault()
		vx.Assert(err == nil || f.Op != "", "an error means a failure")
		if err == nil {
			dx.CheckResult(have, raw, dists, q, thr, 0)
		}
	case 3:
		cs, err := c.Cl.GetCollections()
		dx.NoFault()
		vx.Assert((err != nil) == (f.Op != ""), "a failed read is reported")
		vx.Assert(err != nil || len(cs) == 1, "the collection is listed")
	}
	if vx.Choice("restart after", 2) == 1 {
		c.Restart()
	}
	raw, dists, err := c.Cl.GetNearDocumentsByVector("c", q, thr, 0)
	vx.Assert(err == nil, "near search succeeds after a failed read")
	if len(have) == n {
		// the document refused may be there
		var r [][]byte
		var ds []float32
		for i := range raw {
			if dx.Parse(raw[i]).ID != docs[n].ID {
				r, ds = append(r, raw[i]), append(ds, dists[i])
			}
		}
		raw, dists = r, ds
	}
	dx.CheckResult(have, raw, dists, q, thr, 0)
	vx.Cover("done")
}

// IndexRead is Read on the index, with any distances and levels.
func IndexRead() {
	n := vx.Param("n", 2)
	var t *hx.Table
	if k := vx.Param("tail", 0); k > 0 {
		t = hx.NewTableTail(n+2, k, 2, vx.Param("shape", 0))
	} else {
		t = hx.NewTable(n+2, 2)
	}
	q := n + 1
	e := hx.NewEnv(t, vx.Param("m", 30), 60)
	e.UC = func(uc *hnsw.UserConfig) { uc.FlatSearchCutoff = vx.Param("flat", 0) }
	idx := e.Open()
	ids := hx.Seq(0, n+1)
	for i := 0; i < n; i++ {
		hx.ChooseLevel("level", e.M, vx.Param("maxlvl", 0))
		vx.Assert(idx.Add(ids[i], t.Vec(i)) == nil, "adding a vector succeeds")
	}
	vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
	if vx.Param("reopen", 1) == 1 {
		idx = e.Open()
	}
	x := vx.F32("thr")
	vx.Assume(x == x)
	if vx.Param("ref", 0) == 1 {
		// above the connection limit: the answer is that of a search without
		// failures
		r := e.Open()
		vx.Assert(r.LoadEntrypoint() == nil, "loading succeeds")
		want, wd, err := r.KnnSearchByVectorMaxDist(t.Vec(q), x, 800, nil)
		vx.Assert(err == nil, "the search succeeds")
		f := dx.FailAt(vx.Choice("at", vx.Param("points", n+3)), vx.Choice("stays", 2) == 1, reads...)
		err = idx.LoadEntrypoint()
		var got []uint64
		var dists []float32
		if err == nil {
			got, dists, err = idx.KnnSearchByVectorMaxDist(t.Vec(q), x, 800, nil)
		}
		dx.NoFault()
		vx.Assert(err == nil || f.Op != "", "an error means a failure")
		if err == nil {
			vx.Assert(len(got) == len(want), "a search is answered in full or not at all")
			for i := range got {
				vx.Assert(dists[i] == wd[i], "a search is answered in full or not at all")
			}
		}
		vx.Cover("done")
		return
	}
	at, stays := vx.Choice("at", vx.Param("points", n+3)), vx.Choice("stays", 2) == 1
	f := dx.FailAt(at, stays, reads...)
	m := n
	switch vx.Choice("op", vx.Param("ops", 3)) {
	case 2:
		// flat or not, asking for all
		allow := helpers.NewAllowList(ids[:n]...)
		got, dists, err := idx.SearchByVector(t.Vec(q), n, allow)
		dx.NoFault()
		vx.Assert(err == nil || f.Op != "", "an error means a failure")
		if err == nil {
			vx.Assert(len(got) == n && len(dists) == n, "all vectors are returned")
		}
	case 0:
		var got []uint64
		var dists []float32
		err := idx.LoadEntrypoint()
		if err == nil {
			got, dists, err = idx.KnnSearchByVectorMaxDist(t.Vec(q), x, 800, nil)
		}
		dx.NoFault()
		vx.Assert(err == nil || f.Op != "", "an error means a failure")
		if err == nil {
			hx.Complete(t, q, x, hx.Sound(t, ids[:n], q, x, got, dists, nil), nil)
		}
	case 1:
		hx.ChooseLevel("level", e.M, vx.Param("maxlvl", 0))
		err := idx.Add(ids[n], t.Vec(n))
		dx.NoFault()
		vx.Assert(err == nil || f.Op != "", "an error means a failure")
		if err == nil {
			m++
		}
		vx.Assert(idx.Flush(uint64(n+1)) == nil, "storing succeeds")
		if vx.Choice("restart after", 2) == 1 {
			idx = e.Open()
		}
	}
	vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
	got, dists, err := idx.KnnSearchByVectorMaxDist(t.Vec(q), x, 800, nil)
	vx.Assert(err == nil, "the search succeeds after a failed read")
	seen := hx.Sound(t, ids, q, x, got, dists, nil)
	hx.Complete(t, q, x, seen[:m], nil)
	vx.Cover("done")
}
