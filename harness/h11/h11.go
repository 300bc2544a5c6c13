// Package h11: documents and queries given as text.
package h11

import (
	"errors"
	"fmt"
	"strings"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/zz_verif/dx"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
)

func service() *dx.C {
	c := dx.New(true)
	c.Texts["apple"] = dx.Palette[0]
	c.Texts["bread"] = dx.Palette[1]
	c.Texts["apple bread"] = dx.Palette[4]
	c.Texts["bread apple"] = dx.Palette[6]
	c.Texts["query"] = []float32{1, 0.25}
	c.Texts["Apple"] = dx.Palette[5]
	c.Texts["apple apple"] = dx.Palette[1]
	c.Texts[long] = dx.Palette[6]
	c.Texts["QUERY"] = []float32{0.25, 1}
	c.Texts[" query"] = []float32{-1, 0.25}
	c.Texts["query "] = []float32{-0.5, -1}
	c.Texts["query\n"+long] = []float32{0.1, -1}
	return c
}

var long = strings.Repeat("all about apple and bread, ", 40) + "and the end"

// query is one of some texts to search for.
func query() string {
	return []string{"query", "QUERY", " query", "query ", "query\n" + long}[vx.Choice("q", 5)]
}

// doc makes document k of one of the kinds: a vector of its own, text in one
// or two properties, or neither.
func doc(c *dx.C, k int) (*document.Document, dx.Doc) {
	id := dx.ID(k)
	p := dx.Props(id)
	d := dx.Doc{ID: id}
	switch vx.Choice("kind", vx.Param("kinds", 10)) {
	case 0:
		p["t"] = "apple"
		d.Vec = c.Texts["apple"]
	case 1:
		p["t"], p["u"] = "apple", "bread"
		d.Vec = c.Texts["apple bread"]
	case 2:
		p["vector"] = dx.Iface(dx.Palette[2])
		p["t"] = "bread" // a vector that is given wins
		d.Vec = dx.Palette[2]
	case 3:
		p["vector"] = dx.Palette[2]
		d.Vec = dx.Palette[2]
	case 4:
		p["u"] = "bread"
		d.Vec = c.Texts["bread"]
	case 6:
		p["t"], p["u"] = "", "bread"
		d.Vec = c.Texts["bread"]
	case 7:
		p["t"] = "Apple"
		d.Vec = c.Texts["Apple"]
	case 8:
		p["t"], p["u"] = "apple", "apple"
		d.Vec = c.Texts["apple apple"]
	case 9:
		p["u"] = long
		d.Vec = c.Texts[long]
	case 5:
		// nothing to index: stored, found by its id only
	}
	return &document.Document{ID: id, Properties: p}, d
}

// Text: documents indexed from text are found by text, at the distances of
// the vectors the vectorizer gives; all documents of an accepted batch can be
// fetched by id.
func Text() {
	n := vx.Param("n", 2)
	c := service()
	vx.Assert(c.Create("c") == nil, "collection is created")
	var docs []dx.Doc
	var batch []*document.Document
	for i := 0; i < n; i++ {
		d, m := doc(c, i)
		batch = append(batch, d)
		docs = append(docs, m)
	}
	if vx.Choice("one", 2) == 0 {
		vx.Assert(c.Cl.AddDocuments("c", []string{"t", "u"}, batch...) == nil, "adding succeeds")
	} else {
		for _, d := range batch {
			vx.Assert(c.Cl.AddDocuments("c", []string{"t", "u"}, d) == nil, "adding succeeds")
		}
	}
	if vx.Param("restart", 0) == 1 {
		c.Restart()
	}
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	limit := vx.Choice("limit", n+1)
	q := query()
	qv := c.Texts[q]
	raw, dists, err := c.Cl.GetNearDocuments("c", q, thr, limit)
	vx.Assert(err == nil, "near search by text succeeds")
	dx.CheckResult(docs, raw, dists, qv, thr, limit)
	// and by the vector of the text
	raw2, dists2, err := c.Cl.GetNearDocumentsByVector("c", qv, thr, limit)
	vx.Assert(err == nil && len(raw2) == len(raw), "text and vector searches agree")
	for i := range raw {
		vx.Assert(dists[i] == dists2[i], "text and vector searches agree")
	}
	for _, d := range docs {
		b, err := c.Cl.GetDocument("c", "id", d.ID)
		vx.Assert(err == nil && dx.Parse(b).Name == "n"+d.ID, "every accepted document can be fetched by id")
	}
	vx.Cover("done")
}

// Down: the vectorizer fails for one call. The add or search in progress says
// so; what was accepted before stays, and sending the rest completes.
func Down() {
	n := vx.Param("n", 2)
	c := service()
	vx.Assert(c.Create("c") == nil, "collection is created")
	texts := []string{"apple", "bread", "apple"}
	var docs []dx.Doc
	mk := func(from int) []*document.Document {
		var r []*document.Document
		for i := from; i < n; i++ {
			p := dx.Props(dx.ID(i))
			p["t"] = texts[i]
			r = append(r, &document.Document{ID: dx.ID(i), Properties: p})
		}
		return r
	}
	for i := 0; i < n; i++ {
		docs = append(docs, dx.Doc{ID: dx.ID(i), Vec: c.Texts[texts[i]]})
	}
	at := vx.Choice("at", n+1)
	kind := vx.Choice("kind", 9)
	cl := c.Cl
	fail := func() {
		switch kind {
		case 0:
			c.VecErr = errors.New("refused")
		case 1, 2, 3, 4, 5: // with a vector all the same
			c.VecStatus = []int{500, 404, 400, 503, 301}[kind-1]
		case 6:
			c.VecBody = []byte(`{"vector":[0.6,0.`)
		case 7:
			c.VecBody = []byte(`{"vector":[]}`)
		case 8:
			c.VecBody = []byte(`{"detail":"busy"}`)
		}
	}
	work := func() { c.VecErr, c.VecStatus, c.VecBody = nil, 200, nil }
	c.Before = func(k int) {
		work()
		if k == at {
			fail()
		}
	}
	err := cl.AddDocuments("c", []string{"t"}, mk(0)...)
	vx.Assert((err != nil) == (at < n), "a document that could not be vectorized is reported")
	c.Before = nil
	work()
	if at < n {
		vx.Assert(cl.AddDocuments("c", []string{"t"}, mk(at)...) == nil, "adding the rest succeeds")
	} else {
		fail()
		_, _, err := cl.GetNearDocuments("c", "query", 3, 0)
		vx.Assert(err != nil, "a query that could not be vectorized is reported")
		work()
	}
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	raw, dists, err := cl.GetNearDocuments("c", "query", thr, 0)
	vx.Assert(err == nil, "near search by text succeeds")
	dx.CheckResult(docs, raw, dists, c.Texts["query"], thr, 0)
	vx.Cover("done")
}

// Large: more documents than can all be linked to each other, given as texts,
// and a text searched for.
func Large() {
	n := vx.Param("n", 130)
	c := dx.New(true)
	vx.Assert(c.Create("c") == nil, "collection is created")
	var docs []dx.Doc
	var batch []*document.Document
	size := 1
	for i := 0; i < n; i++ {
		d := dx.Doc{ID: fmt.Sprintf("d%d", i), Vec: spread(uint32(i + 1))}
		text := fmt.Sprintf("text %d", i)
		c.Texts[text] = d.Vec
		p := dx.Props(d.ID)
		p["t"] = text
		docs = append(docs, d)
		batch = append(batch, &document.Document{ID: d.ID, Properties: p})
		if len(batch) == size || i == n-1 {
			vx.Assert(c.Cl.AddDocuments("c", []string{"t"}, batch...) == nil, "adding succeeds")
			batch = nil
			size = size*2 + 1
		}
	}
	k := vx.Choice("q", 6)
	q := spread(uint32(1000 + k))
	text := fmt.Sprintf("query %d", k)
	c.Texts[text] = q
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	kind := vx.Choice("limit", 5)
	at := []float32{2.5, 2.5, 0.3, 0.3, 2.5}[kind]
	vx.Assume(vx.And(thr >= at-0.02, thr <= at+0.02))
	limit := []int{1, 3, 3, 0, n - 1}[kind]
	raw, dists, err := c.Cl.GetNearDocuments("c", text, thr, limit)
	vx.Assert(err == nil, "near search by text succeeds")
	dx.CheckResult(docs, raw, dists, q, thr, limit)
	vx.Cover("done")
}

// spread is a direction in space that depends on i.
func spread(i uint32) []float32 {
	v := make([]float32, 4)
	for j := range v {
		i = i*1664525 + 1013904223
		i ^= i >> 15
		v[j] = float32(int32(i>>8)%1000)/1000 - 0.5
	}
	return v
}

// Beyond: more documents asked for than the usual breadth of a search.
func Beyond() {
	n := vx.Param("n", 804)
	c := dx.New(true)
	vx.Assert(c.Create("c") == nil, "collection is created")
	var docs []dx.Doc
	var batch []*document.Document
	for i := 0; i < n; i++ {
		d := dx.Doc{ID: fmt.Sprintf("d%d", i), Vec: []float32{1, float32(i) / 500}}
		docs = append(docs, d)
		batch = append(batch, dx.Make(d.ID, d.Vec))
	}
	vx.Assert(c.Cl.AddDocuments("c", nil, batch...) == nil, "adding succeeds")
	q := []float32{1, -0.5}
	c.Texts["query"] = q
	thr := vx.F32("thr")
	vx.Assume(vx.And(thr >= 2.4, thr <= 2.6))
	limit := n - 2
	raw, dists, err := c.Cl.GetNearDocuments("c", "query", thr, limit)
	vx.Assert(err == nil, "near search by text succeeds")
	raw2, dists2, err := c.Cl.GetNearDocumentsByVector("c", q, thr, limit)
	vx.Assert(err == nil && len(raw2) == len(raw) && len(raw) == limit, "text and vector searches agree")
	for i := range raw {
		vx.Assert(dists[i] == dists2[i], "text and vector searches agree")
	}
	dx.CheckResult(docs, raw, dists, q, thr, limit)
	vx.Cover("done")
}

// Wide: the vectorizer answers with many components; documents and a query
// that differ in one of them only.
func Wide() {
	n := vx.Param("dim", 6000)
	c := dx.New(true)
	vx.Assert(c.Create("c") == nil, "collection is created")
	at := []int{0, n / 2, n - 1}[vx.Choice("at", 3)]
	vec := func(x float32) []float32 {
		v := make([]float32, n)
		for j := range v {
			v[j] = float32(j%7-3) * 1.234567e-9 // of no weight, so that nothing is rounded away
		}
		v[1], v[n/3], v[n-2] = 12, -9, 20
		v[at] = x
		return v
	}
	var docs []dx.Doc
	for i, x := range []float32{0.125, 17.0625, -31.33} {
		d := dx.Doc{ID: dx.ID(i), Vec: vec(x)}
		docs = append(docs, d)
		text := fmt.Sprintf("text %d", i)
		c.Texts[text] = d.Vec
		p := dx.Props(d.ID)
		p["t"] = text
		vx.Assert(c.Cl.AddDocuments("c", []string{"t"}, &document.Document{ID: d.ID, Properties: p}) == nil, "adding succeeds")
	}
	if vx.Choice("restart", 2) == 1 {
		c.Restart()
	}
	q := vec(14.01)
	c.Texts["query"] = q
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	raw, dists, err := c.Cl.GetNearDocuments("c", "query", thr, 0)
	vx.Assert(err == nil, "near search by text succeeds")
	dx.CheckResult(docs, raw, dists, q, thr, 0)
	vx.Cover("done")
}
