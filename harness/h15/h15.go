// Package h15: fetching one document by the value of an indexed property.
package h15

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/zz_verif/dx"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
)

type rec struct {
	ID   string `json:"id"`
	Name string `json:"name"`
	Age  int    `json:"age"`
	Note string `json:"note"`
}

func word(n string, l int) string {
	s := vx.Str(n, l)
	for i := 0; i < len(s); i++ {
		vx.Assume(vx.Or(vx.Or(vx.And(s[i] >= 'a', s[i] <= 'z'), vx.And(s[i] >= '0', s[i] <= '9')),
			vx.Or(vx.And(s[i] >= 'A', s[i] <= 'Z'), vx.Or(s[i] == ' ', vx.Or(s[i] == '-', s[i] == '_')))))
	}
	return s
}

// pad makes a value long, with what may be anything at its end or its start.
func pad(s string) string {
	switch vx.Param("long", 0) {
	case 1:
		return strings.Repeat("a long value ", 40) + s
	case 2:
		return s + strings.Repeat(" and so on", 40)
	}
	return s
}

// Get: documents with arbitrary short property values; a lookup by id, text or
// number returns a document that has the value, whole, exactly when there is
// one.
func Get() {
	n := vx.Param("n", 2)
	c := dx.New(false)
	vx.Assert(c.Cl.CreateCollection(&document.Collection{Name: "c", Indexes: map[string]collection.IndexType{"name": collection.StringIndex, "age": collection.NumberIndex}}) == nil, "collection is created")
	var recs []rec
	for i := 0; i < n; i++ {
		r := rec{ID: pad(word("id", 1+vx.Choice("il", 2))), Name: pad(word("name", 1)), Age: vx.Choice("age", 3), Note: pad(word("note", 1))}
		for _, o := range recs {
			vx.Assume(o.ID != r.ID)
		}
		p := map[string]interface{}{"name": r.Name, "age": float64(r.Age), "note": r.Note}
		if i == 0 {
			p["vector"] = dx.Iface(dx.Palette[0])
		}
		vx.Assert(c.Cl.AddDocuments("c", nil, &document.Document{ID: r.ID, Properties: p}) == nil, "adding succeeds")
		recs = append(recs, r)
	}
	if vx.Choice("restart", 2) == 1 {
		c.Restart()
	}
	var b []byte
	var err error
	match := make([]bool, n)
	any := false
	switch vx.Choice("by", 4) {
	case 0:
		v := pad(word("v", 1+vx.Choice("vl", 2)))
		for i, r := range recs {
			match[i] = r.ID == v
		}
		b, err = c.Cl.GetDocument("c", "id", v)
	case 1:
		v := pad(word("v", 1))
		for i, r := range recs {
			match[i] = r.Name == v
		}
		b, err = c.Cl.GetDocument("c", "name", v)
	case 2:
		v := vx.Choice("v", 4)
		for i, r := range recs {
			match[i] = r.Age == v
		}
		b, err = c.Cl.GetDocument("c", "age", fmt.Sprint(v))
	case 3:
		_, err := c.Cl.GetDocument("c", "note", recs[0].Note)
		vx.Assert(err != nil, "a lookup by a property without index is an error")
		vx.Cover("no index")
		return
	}
	for i := range match {
		any = vx.Or(any, match[i])
	}
	if any {
		vx.Assert(err == nil, "a document with the value is found")
		var g rec
		vx.Assert(json.Unmarshal(b, &g) == nil, "the document is valid JSON")
		ok := false
		for i, r := range recs {
			same := vx.And(vx.And(g.ID == r.ID, g.Name == r.Name), vx.And(g.Age == r.Age, g.Note == r.Note))
			ok = vx.Or(ok, vx.And(match[i], same))
		}
		vx.Assert(ok, "the document returned is one that has the value, whole")
		vx.Cover("found")
	} else {
		vx.Assert(err != nil && b == nil, "a lookup that matches nothing is an error")
		vx.Cover("none")
	}
}

// Extra: a lookup opens the collection; adding and searching still work after
// it, in either order, in the same process.
func Extra() {
	c := dx.New(false)
	vx.Assert(c.Create("c") == nil, "collection is created")
	docs := []dx.Doc{{ID: "d0", Vec: dx.Palette[0]}, {ID: "d1", Vec: dx.Palette[1]}}
	vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make("d0", docs[0].Vec)) == nil, "adding succeeds")
	c.Restart()
	have := docs[:1]
	q := []float32{1, 0.25}
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	for i := 0; i < 3; i++ {
		switch vx.Choice("op", 3) {
		case 0:
			b, err := c.Cl.GetDocument("c", "id", "d0")
			vx.Assert(err == nil && dx.Parse(b).ID == "d0", "a stored document can be fetched")
		case 1:
			if len(have) == 1 {
				vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make("d1", docs[1].Vec)) == nil, "adding succeeds")
				have = docs
			}
		case 2:
			c.CheckNear("c", have, q, thr, 0)
		}
	}
	c.CheckNear("c", have, q, thr, 0)
	vx.Cover("done")
}
