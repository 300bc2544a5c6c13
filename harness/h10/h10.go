package h10

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/zz_verif/dx"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
)

// Batches: documents with and without vectors added in batches, with
// restarts in between; a near search returns each with its own data.
func Batches() {
	n := vx.Param("n", 3)
	pal := vx.Param("pal", 3)
	c := dx.New(false)
	vx.Assert(c.Create("c") == nil, "collection is created")
	var docs []dx.Doc
	for len(docs) < n {
		k := len(docs)
		var v []float32
		if p := vx.Choice("vec", pal+1); p < pal {
			v = dx.Palette[p]
		}
		docs = append(docs, dx.Doc{ID: dx.ID(k), Vec: v})
		vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make(dx.ID(k), v)) == nil, "adding succeeds")
		if vx.Param("restart", 1) == 1 && vx.Choice("restart", 2) == 1 {
			c.Restart()
		}
	}
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	c.Sched = vx.Param("sched", 0) == 1
	c.CheckNear("c", docs, []float32{1, 0.25}, thr, vx.Choice("limit", n+1))
	vx.Cover("done")
}

// Large: many documents in batches of different sizes, some without a vector,
// with a restart in between; any threshold around any of a few places, and
// limits around the sizes involved.
func Large() {
	n := vx.Param("n", 130)
	c := dx.New(false)
	vx.Assert(c.Create("c") == nil, "collection is created")
	var docs []dx.Doc
	var batch []*document.Document
	size := 1
	for i := 0; i < n; i++ {
		d := dx.Doc{ID: fmt.Sprintf("d%d", i)}
		if i%7 != 3 {
			// all different directions, scattered over the half plane
			x := float32((i*37)%131) / 131
			d.Vec = []float32{1 - 2*x, 0.3 + x*(1-x)}
		}
		docs = append(docs, d)
		batch = append(batch, dx.Make(d.ID, d.Vec))
		if len(batch) == size || i == n-1 {
			vx.Assert(c.Cl.AddDocuments("c", nil, batch...) == nil, "adding succeeds")
			batch = nil
			size = size*2 + 1
			if size == 15 && vx.Param("restart", 1) == 1 {
				c.Restart()
			}
		}
	}
	if vx.Param("restart", 1) == 1 {
		c.Restart()
	}
	q := []float32{1, 0.25}
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	w := float32(vx.Param("width", 4)) / 100
	at := []float32{0.3, 1, 1.6, 2.5}[vx.Choice("at", 4)]
	vx.Assume(vx.And(thr >= at-w, thr <= at+w))
	limit := []int{0, 1, 10, 64, 100, 101, n - 1, n + 1}[vx.Choice("limit", 8)]
	c.CheckNear("c", docs, q, thr, limit)
	// a document with nothing but an id
	vx.Assert(c.Cl.AddDocuments("c", nil, &document.Document{ID: "bare"}) == nil, "adding a document with nothing but an id succeeds")
	b, err := c.Cl.GetDocument("c", "id", "bare")
	vx.Assert(err == nil && dx.Parse(b).ID == "bare", "it can be fetched")
	for _, i := range []int{0, 9, 10, 99, 100, n - 1} {
		b, err := c.Cl.GetDocument("c", "id", docs[i].ID)
		vx.Assert(err == nil, "a stored document can be fetched")
		dx.Whole(b, docs[i].ID)
	}
	vx.Cover("done")
}

// Wide: vectors of many components that differ in one component only, and
// documents with many and long properties.
func Wide() {
	n := vx.Param("dim", 1540)
	c := dx.New(false)
	vx.Assert(c.Create("c") == nil, "collection is created")
	at := []int{0, n / 2, n - 1}[vx.Choice("at", 3)]
	var docs []dx.Doc
	for i, x := range []float32{0, 40, -90} {
		v := make([]float32, n)
		for j := range v {
			v[j] = float32(j%7-3) * 1.234567e-9 // of no weight, so that nothing is rounded away
		}
		v[1], v[n/3], v[n-2] = 25, -25, 35
		v[at] = x
		docs = append(docs, dx.Doc{ID: dx.ID(i), Vec: v})
		d := dx.Make(dx.ID(i), v)
		for j := 0; j < 120; j++ {
			d.Properties[fmt.Sprintf("p%d", j)] = float64(i*1000 + j)
		}
		d.Properties["text"] = strings.Repeat("words \u00e9\n\"<&>", 700) + dx.ID(i)
		vx.Assert(c.Cl.AddDocuments("c", nil, d) == nil, "adding succeeds")
		if i == 1 && vx.Choice("restart", 2) == 1 {
			c.Restart()
		}
	}
	q := make([]float32, n)
	for j := range q {
		q[j] = float32(j%7-3) * 1.234567e-9
	}
	q[1], q[n/3], q[n-2] = 25, -25, 35
	q[at] = 30
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	c.CheckNear("c", docs, q, thr, vx.Choice("limit", 3))
	raw, _, err := c.Cl.GetNearDocumentsByVector("c", q, 3, 0)
	vx.Assert(err == nil && len(raw) == 3, "all are found")
	for _, b := range raw {
		p := map[string]interface{}{}
		vx.Assert(json.Unmarshal(b, &p) == nil, "a returned document is valid JSON")
		i := 0
		for i < 2 && p["id"] != dx.ID(i) {
			i++
		}
		vx.Assert(p["text"] == strings.Repeat("words \u00e9\n\"<&>", 700)+dx.ID(i), "a returned document has its own properties")
		for j := 0; j < 120; j++ {
			vx.Assert(p[fmt.Sprintf("p%d", j)] == float64(i*1000+j), "a returned document has its own properties")
		}
	}
	vx.Cover("done")
}
