// Package h16: requests that run at the same time.
package h16

import (
	"fmt"
	"math"
	"sync"

	"github.com/fairDataSociety/FaVe/zz_verif/dx"
	"github.com/fairDataSociety/FaVe/zz_verif/hx"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
)

var q = []float32{1, 0.25}

// start gives a service with a collection of pre documents, freshly started
// when restart is set.
func start() (*dx.C, []dx.Doc) {
	c := dx.New(false)
	vx.Assert(c.Create("c") == nil, "collection is created")
	var docs []dx.Doc
	for i := 0; i < vx.Param("pre", 1); i++ {
		docs = append(docs, dx.Doc{ID: dx.ID(i), Vec: dx.Palette[i]})
		vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make(dx.ID(i), dx.Palette[i])) == nil, "adding succeeds")
	}
	if vx.Param("restart", 1) == 1 {
		c.Restart()
	}
	return c, docs
}

// both runs the two requests at the same time.
func both(a, b func()) {
	var wg sync.WaitGroup
	wg.Add(2)
	vx.Races(vx.Param("races", 1) == 1)
	vx.Preempt(vx.Param("preempt", 1))
	go func() {
		defer wg.Done()
		a()
	}()
	go func() {
		defer wg.Done()
		b()
	}()
	wg.Wait()
	vx.Preempt(0)
	vx.Races(false)
}

// limit is any distance.
func limit(name string) float32 {
	thr := vx.F32(name)
	vx.Assume(vx.And(thr >= -1, thr <= 3))
	return thr
}

func after(c *dx.C, docs []dx.Doc) {
	c.CheckNear("c", docs, q, limit("thr"), 0)
	k := vx.Param("pre", 1) + 2
	docs = append(docs, dx.Doc{ID: dx.ID(k), Vec: dx.Palette[k]})
	vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make(dx.ID(k), dx.Palette[k])) == nil, "adding succeeds")
	c.CheckNear("c", docs, q, 3, 0)
	c.Restart()
	c.CheckNear("c", docs, q, 3, 0)
}

// Adds: two batches at the same time; both are there afterwards.
func Adds() {
	c, docs := start()
	k := len(docs)
	var e1, e2 error
	both(func() { e1 = c.Cl.AddDocuments("c", nil, dx.Make(dx.ID(k), dx.Palette[k])) },
		func() { e2 = c.Cl.AddDocuments("c", nil, dx.Make(dx.ID(k+1), dx.Palette[k+1])) })
	vx.Assert(e1 == nil && e2 == nil, "adding succeeds")
	docs = append(docs, dx.Doc{ID: dx.ID(k), Vec: dx.Palette[k]}, dx.Doc{ID: dx.ID(k + 1), Vec: dx.Palette[k+1]})
	after(c, docs)
	vx.Cover("done")
}

// during checks an answer given while docs[k:] were being added.
func during(docs []dx.Doc, k int, thr float32, raw [][]byte, dists []float32, err error) {
	vx.Assert(err == nil, "a search succeeds while documents are added")
	vx.Assert(len(raw) == len(dists), "every returned document has a distance")
	got := map[string]bool{}
	for i := range raw {
		r := dx.Parse(raw[i])
		found := false
		for _, d := range docs {
			if d.ID == r.ID {
				found = true
				vx.Assert(math.Abs(float64(dists[i])-dx.Cos(d.Vec, q)) <= dx.Eps, "the distance belongs to the returned document")
			}
		}
		vx.Assert(found && !got[r.ID], "a returned document was added, and comes once")
		got[r.ID] = true
		vx.Assert(i == 0 || dists[i-1] <= dists[i], "results come nearest first")
		vx.Assert(dists[i] <= thr, "a returned document lies within the distance")
	}
	for _, d := range docs[:k] {
		if !got[d.ID] {
			vx.Assert(thr <= float32(dx.Cos(d.Vec, q)+dx.Eps), "what was stored before is found while documents are added")
		}
	}
}

// Mixed: a search while a document is added.
func Mixed() {
	c, docs := start()
	k := len(docs)
	docs = append(docs, dx.Doc{ID: dx.ID(k), Vec: dx.Palette[k]})
	var e1, e2 error
	var raw [][]byte
	var dists []float32
	thr := limit("during")
	again := vx.Param("create", 0) == 1
	both(func() { e1 = c.Cl.AddDocuments("c", nil, dx.Make(dx.ID(k), dx.Palette[k])) },
		func() {
			if again { // the collection exists, so this changes nothing
				if e2 = c.Create("c"); e2 != nil {
					return
				}
			}
			raw, dists, e2 = c.Cl.GetNearDocumentsByVector("c", q, thr, 0)
		})
	vx.Assert(e1 == nil, "adding succeeds")
	during(docs, k, thr, raw, dists, e2)
	after(c, docs)
	vx.Cover("done")
}

// Replace: a collection is deleted and created again while a document is
// added to it; afterwards it has at most that document, and works.
func Replace() {
	c, docs := start()
	k := len(docs)
	var e1, e2 error
	both(func() { e1 = c.Cl.AddDocuments("c", nil, dx.Make(dx.ID(k), dx.Palette[k])) },
		func() {
			if e2 = c.Cl.DeleteCollection("c"); e2 == nil {
				e2 = c.Create("c")
			}
		})
	vx.Assert(e2 == nil, "deleting and creating succeed")
	for _, d := range docs {
		_, err := c.Cl.GetDocument("c", "id", d.ID)
		vx.Assert(err != nil, "a deleted collection's documents are gone")
	}
	now := []dx.Doc{}
	_, err := c.Cl.GetDocument("c", "id", dx.ID(k))
	if err == nil {
		vx.Assert(e1 == nil, "a refused addition leaves nothing behind")
		now = append(now, dx.Doc{ID: dx.ID(k), Vec: dx.Palette[k]})
	}
	l := k + 1
	now = append(now, dx.Doc{ID: dx.ID(l), Vec: dx.Palette[l]})
	vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make(dx.ID(l), dx.Palette[l])) == nil, "adding succeeds")
	after(c, now)
	vx.Cover(fmt.Sprintf("left%d", len(now)))
}

// Reads: two searches, or a search and a lookup, at the same time.
func Reads() {
	c, docs := start()
	k := len(docs)
	look := vx.Choice("lookup", 2) == 1
	var e1, e2 error
	var raw, raw2 [][]byte
	var dists, dists2 []float32
	thr := limit("during")
	both(func() { raw, dists, e1 = c.Cl.GetNearDocumentsByVector("c", q, thr, 0) },
		func() {
			if look {
				var b []byte
				b, e2 = c.Cl.GetDocument("c", "id", dx.ID(0))
				raw2 = [][]byte{b}
			} else {
				raw2, dists2, e2 = c.Cl.GetNearDocumentsByVector("c", q, thr, 0)
			}
		})
	during(docs, k, thr, raw, dists, e1)
	if look {
		vx.Assert(e2 == nil && dx.Parse(raw2[0]).ID == dx.ID(0), "a lookup finds its document")
	} else {
		during(docs, k, thr, raw2, dists2, e2)
	}
	after(c, docs)
	vx.Cover("done")
}

// Index: two vectors added to the index at the same time, or one while it is
// searched; everything is found afterwards, also after storing and reopening.
func Index() {
	t := hx.NewTableTail(5, vx.Param("tail", 1), 2, 0)
	thr := limit("thr")
	e := hx.NewEnv(t, vx.Param("m", 30), 60)
	idx := e.Open()
	hx.Level(e.M, 0)
	pre := vx.Param("pre", 1)
	for i := 0; i < pre; i++ {
		vx.Assert(idx.Add(uint64(i), t.Vec(i)) == nil, "adding a vector succeeds")
	}
	if pre > 0 && vx.Param("stored", 1) == 1 {
		vx.Assert(idx.Flush(uint64(pre)) == nil, "storing succeeds")
	}
	if vx.Param("restart", 0) == 1 {
		idx = e.Open()
		vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
	}
	if vx.Param("lvl", 0) > 0 {
		hx.Level(e.M, vx.Choice("level", vx.Param("lvl", 0)+1))
	}
	n := pre + 1
	if vx.Param("search", 0) == 1 {
		var ids []uint64
		var d []float32
		var e1, e2 error
		both(func() { e1 = idx.Add(uint64(pre), t.Vec(pre)) },
			func() { ids, d, e2 = idx.KnnSearchByVectorMaxDist(t.Vec(4), thr, 800, nil) })
		vx.Assert(e1 == nil && e2 == nil, "adding and searching succeed")
		seen := hx.Sound(t, hx.Seq(0, n), 4, thr, ids, d, nil)
		for i := 0; i < pre; i++ {
			if !seen[i] {
				vx.Assert(t.D[4][i] > thr, "what was there before is found while vectors are added")
			}
		}
	} else {
		n++
		var e1, e2 error
		both(func() { e1 = idx.Add(uint64(pre), t.Vec(pre)) },
			func() { e2 = idx.Add(uint64(pre+1), t.Vec(pre+1)) })
		vx.Assert(e1 == nil && e2 == nil, "adding succeeds")
	}
	for r := 0; r < 2; r++ {
		ids, d, err := idx.KnnSearchByVectorMaxDist(t.Vec(4), thr, 800, nil)
		vx.Assert(err == nil, "the search succeeds")
		hx.Complete(t, 4, thr, hx.Sound(t, hx.Seq(0, n), 4, thr, ids, d, nil), nil)
		if r == 0 {
			vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
			idx = e.Open()
			vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
		}
	}
	vx.Cover("done")
}
