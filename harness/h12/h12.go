// Package h12: collections as the document client offers them.
package h12

import (
	"fmt"
	"strings"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/zz_verif/dx"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
)

type model struct {
	exists bool
	docs   []dx.Doc
}

// Life: any sequence of creating, deleting and filling two collections whose
// names start alike, with restarts; each collection holds exactly what was
// added to it since it was created.
func Life() {
	names := []string{"a", "ab"}
	c := dx.New(false)
	m := make([]model, 2)
	vec := 0
	add := func(i int) {
		d := dx.Doc{ID: dx.ID(len(m[i].docs)), Vec: dx.Palette[vec%len(dx.Palette)]}
		vec++
		err := c.Cl.AddDocuments(names[i], nil, dx.Make(d.ID, d.Vec))
		vx.Assert((err == nil) == m[i].exists, "documents can be added to a collection exactly when it exists")
		if err == nil {
			m[i].docs = append(m[i].docs, d)
		}
	}
	create := func(i int) {
		vx.Assert(c.Create(names[i]) == nil, "a collection can be created")
		m[i].exists = true
	}
	if vx.Param("filled", 1) == 1 {
		create(0)
		create(1)
		add(0)
		add(1)
	}
	q := []float32{1, 0.25}
	for s := 0; s < vx.Param("steps", 3); s++ {
		switch vx.Choice("op", 7) {
		case 0:
			create(0)
		case 1:
			create(1)
		case 2:
			vx.Assert(c.Cl.DeleteCollection("a") == nil, "a collection can be deleted")
			m[0] = model{}
		case 3:
			vx.Assert(c.Cl.DeleteCollection("ab") == nil, "a collection can be deleted")
			m[1] = model{}
		case 4:
			add(0)
		case 5:
			add(1)
		case 6:
			c.Restart()
		}
	}
	list, err := c.Cl.GetCollections()
	vx.Assert(err == nil, "collections can be listed")
	for i, n := range names {
		k := 0
		for _, x := range list {
			if x.Name == n {
				k++
			}
		}
		vx.Assert((k == 1) == m[i].exists && k <= 1, "exactly the existing collections are listed, once")
	}
	vx.Assert(len(list) <= 2, "nothing else is listed")
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	for i, n := range names {
		if !m[i].exists {
			_, _, err := c.Cl.GetNearDocumentsByVector(n, q, thr, 0)
			vx.Assert(err != nil, "a search in a collection that does not exist is an error")
			_, err = c.Cl.GetDocument(n, "id", "d0")
			vx.Assert(err != nil, "a lookup in a collection that does not exist is an error")
			continue
		}
		c.CheckNear(n, m[i].docs, q, thr, 0)
		for k := 0; k < 3; k++ {
			b, err := c.Cl.GetDocument(n, "id", dx.ID(k))
			vx.Assert((err == nil) == (k < len(m[i].docs)), "exactly the documents of a collection can be fetched from it")
			vx.Assert(err != nil || dx.Parse(b).ID == dx.ID(k), "the document fetched is the one asked for")
		}
	}
	vx.Cover("done")
}

// Types: the declared indexes of a collection are listed again as declared,
// beside the two built-in ones; foreign tables of the pod are not listed.
func Types() {
	types := []collection.IndexType{collection.StringIndex, collection.NumberIndex, collection.MapIndex, collection.ListIndex, collection.VectorIndex}
	c := dx.New(false)
	api := dfs.NewStub(c.W)
	_, err := api.LoginUserV2("u", "p", "")
	vx.Assert(err == nil, "")
	_, err = api.OpenPod("pod", "session-u")
	vx.Assert(err == nil, "")
	vx.Assert(api.DocCreate("session-u", "pod", "other", map[string]collection.IndexType{"x": collection.StringIndex}, true) == nil, "")
	want := []map[string]collection.IndexType{}
	for i, n := range []string{"a", "fave_a"} {
		ix := map[string]collection.IndexType{}
		w := map[string]collection.IndexType{"id": collection.StringIndex, "hnswId": collection.NumberIndex}
		for _, f := range []string{"f", "g"}[:2-i] {
			if k := vx.Choice("type", len(types)+1); k < len(types) {
				ix[f], w[f] = types[k], types[k]
			}
		}
		if vx.Choice("nil", 2) == 1 && len(ix) == 0 {
			ix = nil
		}
		vx.Assert(c.Cl.CreateCollection(&document.Collection{Name: n, Indexes: ix}) == nil, "a collection can be created")
		want = append(want, w)
	}
	if vx.Choice("restart", 2) == 1 {
		c.Restart()
	}
	list, err := c.Cl.GetCollections()
	vx.Assert(err == nil && len(list) == 2, "exactly the collections are listed")
	for _, x := range list {
		w := want[0]
		if x.Name == "fave_a" {
			w = want[1]
		} else {
			vx.Assert(x.Name == "a", "a collection is listed under its name")
		}
		vx.Assert(len(x.Indexes) == len(w), "the declared indexes are listed")
		for f, t := range w {
			vx.Assert(x.Indexes[f] == t, "an index is listed with its declared type")
		}
	}
	vx.Cover("done")
}

// Guard: before a login and before a pod is open every operation reports an
// error and does nothing; a failed login does not count as one.
func Guard() {
	c := dx.New(false)
	vx.Assert(c.Create("c") == nil, "collection is created")
	vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make("d0", dx.Palette[0])) == nil, "adding succeeds")
	c.Start()
	switch vx.Choice("state", 7) {
	case 4:
		vx.Assert(c.Cl.Login("u", "p") == nil && c.Cl.OpenPod("pod") == nil, "login and pod open")
		vx.Assert(c.Cl.Login("v", "p") == nil, "another user logs in")
	case 5:
		vx.Assert(c.Cl.Login("u", "p") == nil, "login succeeds")
		dx.FailAt(0, false, "podopen")
		vx.Assert(c.Cl.OpenPod("pod") != nil, "a pod that cannot be opened is reported")
		dx.NoFault()
	case 6:
		vx.Assert(c.Cl.Login("u", "p") == nil, "login succeeds")
		dx.FailAt(0, false, "podcreate")
		vx.Assert(c.Cl.OpenPod("new") != nil, "a pod that cannot be created is reported")
		dx.NoFault()
	case 0:
	case 1:
		vx.Assert(c.Cl.Login("u", "") != nil, "a refused login is reported")
	case 2:
		vx.Assert(c.Cl.OpenPod("pod") != nil, "a pod cannot be opened without a login")
	case 3:
		vx.Assert(c.Cl.Login("u", "p") == nil, "login succeeds")
	}
	var err error
	switch vx.Choice("op", 7) {
	case 0:
		err = c.Create("x")
	case 1:
		err = c.Cl.DeleteCollection("c")
	case 2:
		_, err = c.Cl.GetCollections()
	case 3:
		err = c.Cl.AddDocuments("c", nil, dx.Make("d1", dx.Palette[1]))
	case 4:
		_, _, err = c.Cl.GetNearDocuments("c", "t", 3, 0)
	case 5:
		_, _, err = c.Cl.GetNearDocumentsByVector("c", dx.Palette[0], 3, 0)
	case 6:
		_, err = c.Cl.GetDocument("c", "id", "d0")
	}
	vx.Assert(err != nil, "an operation without login or pod is an error")
	vx.Assert(c.Cl.Login("u", "p") == nil && c.Cl.OpenPod("pod") == nil, "login and pod open afterwards")
	list, err := c.Cl.GetCollections()
	vx.Assert(err == nil && len(list) == 1 && list[0].Name == "c", "a refused operation has no effect")
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	c.CheckNear("c", []dx.Doc{{ID: "d0", Vec: dx.Palette[0]}}, []float32{1, 0.25}, thr, 0)
	vx.Cover("done")
}

// Pods: the client logs in as other users and opens other pods; every
// operation reaches the pod opened last, and coming back to a pod finds
// everything as it was. What cannot be opened is reported and changes nothing.
func Pods() {
	c := dx.New(false)
	names := []string{"pod", "x"}
	var docs [2][2][]dx.Doc // by user and pod
	var made [2][2]bool
	u, p := 0, 0
	vec := 0
	q := []float32{1, 0.25}
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	use := func() {
		have := &docs[u][p]
		if !made[u][p] {
			_, _, err := c.Cl.GetNearDocumentsByVector("c", q, 3, 0)
			vx.Assert(err != nil, "a search in a collection that does not exist is an error")
			vx.Assert(c.Create("c") == nil, "a collection can be created")
			made[u][p] = true
		}
		d := dx.Doc{ID: fmt.Sprintf("d%d%d%d", u, p, len(*have)), Vec: dx.Palette[vec%len(dx.Palette)]}
		vec++
		vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make(d.ID, d.Vec)) == nil, "adding succeeds")
		*have = append(*have, d)
	}
	check := func() {
		list, err := c.Cl.GetCollections()
		vx.Assert(err == nil && (len(list) == 1) == made[u][p], "exactly the collections of the pod are listed")
		if made[u][p] {
			c.CheckNear("c", docs[u][p], q, thr, 0)
		}
		for i := range docs {
			for j := range docs[i] {
				for _, d := range docs[i][j] {
					b, err := c.Cl.GetDocument("c", "id", d.ID)
					vx.Assert((err == nil) == (i == u && j == p), "exactly the documents of the pod can be fetched")
					if err == nil {
						dx.Whole(b, d.ID)
					}
				}
			}
		}
	}
	use()
	for s := 0; s < vx.Param("steps", 3); s++ {
		switch vx.Choice("op", 7) {
		case 0, 1:
			p = vx.Choice("pod", 2)
			vx.Assert(c.Cl.OpenPod(names[p]) == nil, "a pod can be opened")
		case 2:
			u, p = 1-u, vx.Choice("pod", 2)
			vx.Assert(c.Cl.Login([]string{"u", "v"}[u], "p") == nil, "login succeeds")
			if vx.Choice("early", 2) == 1 {
				vx.Assert(c.Create("c") != nil, "an operation without an open pod is an error")
				vx.Assert(c.Cl.DeleteCollection("c") != nil, "an operation without an open pod is an error")
				vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make("d", dx.Palette[0])) != nil, "an operation without an open pod is an error")
				_, _, err := c.Cl.GetNearDocumentsByVector("c", q, thr, 0)
				vx.Assert(err != nil, "an operation without an open pod is an error")
				_, err = c.Cl.GetCollections()
				vx.Assert(err != nil, "an operation without an open pod is an error")
			}
			vx.Assert(c.Cl.OpenPod(names[p]) == nil, "a pod can be opened")
		case 3:
			f := dx.FailAt(vx.Choice("at", 2), false, "podcreate", "podopen")
			to := vx.Choice("pod", 2)
			err := c.Cl.OpenPod(names[to])
			dx.NoFault()
			vx.Assert((f.Op != "") == (err != nil), "a pod that cannot be opened is reported")
			if err == nil {
				p = to
			}
		case 4:
			vx.Assert(c.Cl.Login("", "") != nil, "a refused login is reported")
		case 5:
			use()
		case 6:
			check()
		}
	}
	check()
	use()
	check()
	vx.Cover("done")
}

// Down: one storage operation of a collection operation fails. Creation
// reports it, and trying again gives a working collection.
func Down() {
	c := dx.New(false)
	at := vx.Choice("at", 5)
	f := dx.FailAt(at, false, "doccreate", "kvcreate", "docopen", "kvopen")
	err := c.Create("c")
	dx.NoFault()
	vx.Assert((f.Op != "") == (err != nil), "a failed creation is reported")
	if vx.Choice("restart", 2) == 1 {
		c.Restart()
	}
	if err != nil || vx.Choice("again", 2) == 1 {
		vx.Assert(c.Create("c") == nil, "creating it again succeeds")
	}
	vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make("d0", dx.Palette[0])) == nil, "adding succeeds")
	list, err := c.Cl.GetCollections()
	vx.Assert(err == nil && len(list) == 1 && list[0].Name == "c", "the collection is listed")
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	c.CheckNear("c", []dx.Doc{{ID: "d0", Vec: dx.Palette[0]}}, []float32{1, 0.25}, thr, 0)
	vx.Cover("done")
}

// Names: any two different short names are different collections.
func Names() {
	c := dx.New(false)
	n := vx.Param("len", 2)
	a, b := vx.Str("a", 1+vx.Choice("la", n)), vx.Str("b", 1+vx.Choice("lb", n))
	if vx.Param("long", 0) == 1 {
		// long names that differ at their ends or in the middle only
		pad := strings.Repeat("a long name ", 30)
		if vx.Choice("end", 2) == 0 {
			a, b = pad+a, pad+b
		} else {
			a, b = pad+a+pad, pad+b+pad
		}
	}
	vx.Assume(a != b)
	vx.Assert(c.Create(a) == nil, "a collection can be created")
	vx.Assert(c.Create(b) == nil, "a collection can be created")
	vx.Assert(c.Cl.AddDocuments(a, nil, dx.Make("d0", dx.Palette[0])) == nil, "adding succeeds")
	vx.Assert(c.Cl.AddDocuments(b, nil, dx.Make("d0", dx.Palette[1]), dx.Make("d1", dx.Palette[2])) == nil, "adding succeeds")
	if vx.Param("restart", 1) == 1 && vx.Choice("restart", 2) == 1 {
		c.Restart()
	}
	da := []dx.Doc{{ID: "d0", Vec: dx.Palette[0]}}
	db := []dx.Doc{{ID: "d0", Vec: dx.Palette[1]}, {ID: "d1", Vec: dx.Palette[2]}}
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	q := []float32{1, 0.25}
	gone := vx.Choice("delete", 2) == 1
	if gone {
		vx.Assert(c.Cl.DeleteCollection(a) == nil, "a collection can be deleted")
		_, _, err := c.Cl.GetNearDocumentsByVector(a, q, thr, 0)
		vx.Assert(err != nil, "a search in a collection that does not exist is an error")
	} else {
		c.CheckNear(a, da, q, thr, 0)
	}
	c.CheckNear(b, db, q, thr, 0)
	list, err := c.Cl.GetCollections()
	vx.Assert(err == nil && (gone && len(list) == 1 || !gone && len(list) == 2), "exactly the collections are listed")
	for _, x := range list {
		vx.Assert(vx.Or(x.Name == b, !gone && x.Name == a), "a collection is listed under its name")
	}
	vx.Cover("done")
}

// Many: as many collections as one likes, one of them deleted; exactly the
// others are listed, with their types, and hold their own documents.
func Many() {
	c := dx.New(false)
	n := vx.Param("n", 30)
	name := func(i int) string { return fmt.Sprintf("c%d", i) }
	for i := 0; i < n; i++ {
		ix := map[string]collection.IndexType{"name": collection.StringIndex}
		if i%3 == 0 {
			ix["num"] = collection.NumberIndex
		}
		vx.Assert(c.Cl.CreateCollection(&document.Collection{Name: name(i), Indexes: ix}) == nil, "a collection can be created")
		vx.Assert(c.Cl.AddDocuments(name(i), nil, dx.Make(fmt.Sprintf("d%d", i), dx.Palette[i%len(dx.Palette)])) == nil, "adding succeeds")
	}
	if vx.Choice("restart", 2) == 1 {
		c.Restart()
	}
	gone := vx.Choice("delete", 4)*(n-1)/3 - 1 // one of them or none
	if gone >= 0 {
		vx.Assert(c.Cl.DeleteCollection(name(gone)) == nil, "a collection can be deleted")
	}
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	list, err := c.Cl.GetCollections()
	vx.Assert(err == nil, "listing succeeds")
	seen := map[string]map[string]collection.IndexType{}
	for _, x := range list {
		_, twice := seen[x.Name]
		vx.Assert(!twice, "a collection is listed once")
		seen[x.Name] = x.Indexes
	}
	for i := 0; i < n; i++ {
		ix, ok := seen[name(i)]
		vx.Assert(ok == (i != gone), "exactly the collections are listed")
		if ok {
			_, num := ix["num"]
			vx.Assert(ix["name"] == collection.StringIndex && num == (i%3 == 0), "a collection is listed with its own indexes")
		}
	}
	want := n
	if gone >= 0 {
		want--
	}
	vx.Assert(len(seen) == want, "exactly the collections are listed")
	for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
		if i != gone {
			c.CheckNear(name(i), []dx.Doc{{ID: fmt.Sprintf("d%d", i), Vec: dx.Palette[i%len(dx.Palette)]}}, []float32{1, 0.25}, thr, 0)
		}
	}
	vx.Cover("done")
}

// Gone: one storage operation of deleting a collection fails. It is reported,
// and deleting again, then creating, gives an empty collection.
func Gone() {
	c := dx.New(false)
	vx.Assert(c.Create("c") == nil && c.Create("b") == nil, "a collection can be created")
	vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make("d0", dx.Palette[0])) == nil, "adding succeeds")
	vx.Assert(c.Cl.AddDocuments("b", nil, dx.Make("d1", dx.Palette[1])) == nil, "adding succeeds")
	if vx.Choice("restart", 2) == 1 {
		c.Restart()
	}
	f := dx.FailAt(vx.Choice("at", 3), vx.Choice("sticky", 2) == 1, "docdrop", "kvdrop")
	err := c.Cl.DeleteCollection("c")
	dx.NoFault()
	vx.Assert((f.Op != "") == (err != nil), "a failed deletion is reported")
	if vx.Choice("restart", 2) == 1 {
		c.Restart()
	}
	if err != nil {
		vx.Assert(c.Cl.DeleteCollection("c") == nil, "deleting it again succeeds")
	}
	list, err := c.Cl.GetCollections()
	vx.Assert(err == nil && len(list) == 1 && list[0].Name == "b", "a deleted collection is not listed")
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	q := []float32{1, 0.25}
	_, _, err = c.Cl.GetNearDocumentsByVector("c", q, thr, 0)
	vx.Assert(err != nil, "a search in a collection that does not exist is an error")
	c.CheckNear("b", []dx.Doc{{ID: "d1", Vec: dx.Palette[1]}}, q, thr, 0)
	vx.Assert(c.Create("c") == nil, "a collection can be created again")
	c.CheckNear("c", nil, q, thr, 0)
	vx.Assert(c.Cl.AddDocuments("c", nil, dx.Make("d2", dx.Palette[2])) == nil, "adding succeeds")
	c.CheckNear("c", []dx.Doc{{ID: "d2", Vec: dx.Palette[2]}}, q, thr, 0)
	_, err = c.Cl.GetDocument("c", "id", "d0")
	vx.Assert(err != nil, "a document of the deleted collection is gone")
	vx.Cover("done")
}
