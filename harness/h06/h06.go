// Package h06: what a restart preserves.
package h06

import (
	"fmt"

	"github.com/fairDataSociety/FaVe/zz_verif/hx"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
)

// Persist: vectors added one by one; after each the index may be stored,
// searched, reopened. After a final store and restart every vector is found.
func Persist() {
	n := vx.Param("n", 3)
	t := hx.NewTable(n+1, 2)
	e := hx.NewEnv(t, 30, 60)
	idx := e.Open()
	ids := hx.Seq(uint64(vx.Param("first", 0)), n)
	for i, id := range ids {
		hx.ChooseLevel("level", e.M, vx.Param("maxlvl", 0))
		vx.Assert(idx.Add(id, t.Vec(i)) == nil, "adding a vector succeeds")
		e.Vecs[id] = t.Vec(i)
		if i+1 == n {
			break
		}
		switch vx.Choice("then", 4) {
		case 1:
			vx.Assert(idx.Flush(uint64(i+1)) == nil, "storing succeeds")
		case 2:
			vx.Assert(idx.Flush(uint64(i+1)) == nil, "storing succeeds")
			vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
			got, _, err := idx.KnnSearchByVectorMaxDist(t.Vec(n), 3, 800, nil)
			vx.Assert(err == nil && len(got) == i+1, "a search that covers everything returns everything")
		case 3:
			vx.Assert(idx.Flush(uint64(i+1)) == nil, "storing succeeds")
			idx = e.Open()
			e.Vecs = map[uint64][]float32{}
			c, err := idx.GetDocCount()
			vx.Assert(err == nil && c == uint64(i+1), "the count survives a restart")
			vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
		}
	}
	vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
	vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
	x := vx.F32("thr")
	vx.Assume(x == x)
	a, da, err := idx.KnnSearchByVectorMaxDist(t.Vec(n), x, 800, nil)
	vx.Assert(err == nil, "the search succeeds")
	hx.Complete(t, n, x, hx.Sound(t, ids, n, x, a, da, nil), nil)
	idx = e.Open()
	e.Vecs = map[uint64][]float32{}
	c, err := idx.GetDocCount()
	vx.Assert(err == nil && c == uint64(n), "the count survives a restart")
	vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
	b, db, err := idx.KnnSearchByVectorMaxDist(t.Vec(n), x, 800, nil)
	vx.Assert(err == nil, "the search succeeds after a restart")
	hx.Complete(t, n, x, hx.Sound(t, ids, n, x, b, db, nil), nil)
	vx.Assert(len(a) == len(b), "a restart does not change the answer")
	for i := range a {
		vx.Assert(da[i] == db[i], "a restart does not change the answer")
	}
	vx.Cover("done")
}

// Prune: more vectors than a node keeps links to, stored along the way; after
// a restart a search over everything reaches exactly what it reached before.
func Prune() {
	n := vx.Param("n", 6)
	t := hx.NewTableTail(n, vx.Param("tail", 1), 2, vx.Param("shape", 2))
	e := hx.NewEnv(t, vx.Param("m", 2), 8)
	idx := e.Open()
	ids := hx.Seq(0, n)
	hx.Level(e.M, 0)
	for i, id := range ids {
		vx.Assert(idx.Add(id, t.Vec(i)) == nil, "adding a vector succeeds")
		e.Vecs[id] = t.Vec(i)
		if i >= n-1-vx.Param("stores", 1) && i < n-1 && vx.Choice("store", 2) == 1 {
			vx.Assert(idx.Flush(uint64(i+1)) == nil, "storing succeeds")
			if vx.Param("reopen", 0) == 1 && vx.Choice("reopen", 2) == 1 {
				idx = e.Open()
				vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
			}
		}
	}
	vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
	vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
	q := t.Far()
	a, da, err := idx.KnnSearchByVectorMaxDist(q, 3, 800, nil)
	vx.Assert(err == nil, "the search succeeds")
	seen := hx.Sound(t, ids, n, 3, a, da, nil)
	idx = e.Open()
	e.Vecs = map[uint64][]float32{}
	vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
	b, db, err := idx.KnnSearchByVectorMaxDist(q, 3, 800, nil)
	vx.Assert(err == nil, "the search succeeds after a restart")
	after := hx.Sound(t, ids, n, 3, b, db, nil)
	for i := range seen {
		vx.Assert(seen[i] == after[i], "a restart does not change the answer")
	}
	vx.Cover("done")
}

// Evict: one batch larger than the number of nodes the index keeps in memory;
// everything is stored all the same.
func Evict() {
	n := vx.Param("n", 10003)
	e := hx.NewEnv(hx.Hub{}, 2, vx.Param("efc", 2))
	idx := e.Open()
	hx.Level(e.M, 0)
	for i := 0; i < n; i++ {
		vx.Assert(idx.Add(uint64(i), []float32{float32(i)}) == nil, "adding a vector succeeds")
	}
	vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
	for i := 0; i < n; i++ {
		_, ok := e.St.KV[hx.Class][fmt.Sprintf("%d", i)]
		vx.Assert(ok, "every added vector has a stored node")
	}
	idx = e.Open()
	vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
	c, err := idx.GetDocCount()
	vx.Assert(err == nil && c == uint64(n), "the count of documents is the same after a restart")
	x := vx.F32("thr")
	vx.Assume(vx.And(x >= 0, x < 1))
	got, dists, err := idx.KnnSearchByVectorMaxDist([]float32{0}, x, 4, nil)
	vx.Assert(err == nil, "the search succeeds after a restart")
	vx.Assert(len(got) == 1 && got[0] == 0 && dists[0] == 0, "the nearest vector is found after a restart")
	vx.Cover("done")
}
