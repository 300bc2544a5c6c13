// Package h03: k-nearest-neighbour searches over the vector index.
package h03

import (
	h "github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairDataSociety/FaVe/zz_verif/hx"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
	wd "github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
)

const inf = float32(3)

func build(n int) (*hx.Env, hx.Index, *hx.Table, []uint64) {
	var t *hx.Table
	if vx.Param("grid", 0) > 0 {
		t = hx.NewTableGrid(n+1, vx.Param("grid", 0))
	} else if vx.Param("tail", 0) > 0 {
		t = hx.NewTableTail(n+1, vx.Param("tail", 0), 2, 0)
	} else {
		t = hx.NewTableLo(n+1, -0.001, 2)
	}
	e := hx.NewEnv(t, vx.Param("m", 30), 60)
	e.UC = func(u *h.UserConfig) {
		u.FlatSearchCutoff = vx.Param("flat", 0)
		u.EF = vx.Param("ef", -1)
		u.DynamicEFMin, u.DynamicEFMax, u.DynamicEFFactor = 100, 500, 8
		if vx.Param("breadth", 0) == 1 {
			// any configured breadth: the search widens it to k
			u.EF = vx.Choice("ef", 4) - 1
			if u.EF < 1 {
				u.DynamicEFMin = 1 + vx.Choice("efmin", 2)
				u.DynamicEFMax = u.DynamicEFMin + vx.Choice("efmax", 2)
				u.DynamicEFFactor = 1 + vx.Choice("effac", 2)
			}
		}
	}
	idx := e.Open()
	ids := hx.Seq(0, n)
	hx.AddAll(e, idx, t, ids, vx.Param("maxlvl", 0))
	vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
	return e, idx, t, ids
}

func pick(n int, ids []uint64) (helpers.AllowList, func(int) bool, int) {
	if vx.Param("allow", 0) == 0 {
		return nil, nil, n
	}
	set := make([]bool, n)
	k := 0
	a := helpers.NewAllowList()
	for i := range set {
		set[i] = vx.Param("allow", 0) == 2 || vx.Choice("allow", 2) == 1
		if set[i] {
			a.Insert(ids[i])
			k++
		}
	}
	return a, func(i int) bool { return set[i] }, k
}

// Knn: the k nearest of the allowed vectors, nearest first, exactly
// min(k, allowed) of them.
func Knn() {
	n := vx.Param("n", 3)
	_, idx, t, ids := build(n)
	allow, allowed, na := pick(n, ids)
	k := vx.Choice("k", vx.Param("kmax", n+2))
	got, dists, err := idx.SearchByVector(t.Vec(n), k, allow)
	vx.Assert(err == nil, "the search succeeds")
	seen := hx.Sound(t, ids, n, inf, got, dists, allowed)
	want := na
	if k < want {
		want = k
	}
	vx.Assert(len(got) == want, "the k nearest are returned, or all there are")
	if len(got) > 0 {
		worst := dists[len(dists)-1]
		for i := range seen {
			if !seen[i] && (allowed == nil || allowed(i)) {
				vx.Assert(t.D[i][n] >= worst, "nothing left out is nearer than what was returned")
			}
		}
	}
	vx.Cover("done")
}

// Dist: unlimited search by distance returns everything within it (the
// documented tolerance of 1e-6 included).
func Dist() {
	n := vx.Param("n", 3)
	_, idx, t, ids := build(n)
	allow, allowed, _ := pick(n, ids)
	x := vx.F32("thr")
	vx.Assume(vx.And(x >= -1, x <= 3))
	got, dists, err := idx.SearchByVectorDistance(t.Vec(n), x, int64(vx.Param("maxlimit", -1)), allow)
	vx.Assert(err == nil, "the search succeeds")
	seen := hx.Sound(t, ids, n, x+0.00001, got, dists, allowed)
	hx.Complete(t, n, x, seen, allowed)
	vx.Cover("done")
}

// turns is the line metric; each search over it may run its goroutines in
// either order.
type turns struct {
	hx.Line
	on bool
}

func (t *turns) New(v []float32) wd.Distancer {
	if t.on {
		vx.Order()
	}
	return t.Line.New(v)
}

// Pages: the distance search reads in pages of 100, then 1000; what lies past
// the first page comes back too, once, also when several vectors around the
// page boundary have the same distance.
func Pages() {
	n := vx.Param("n", 103)
	p := &turns{}
	e := hx.NewEnv(p, vx.Param("m", 200), vx.Param("efc", 300))
	e.UC = func(u *h.UserConfig) {
		u.FlatSearchCutoff = vx.Param("flat", 0)
		u.EF = vx.Param("ef", -1)
		u.DynamicEFMin, u.DynamicEFMax, u.DynamicEFFactor = 100, 500, 8
	}
	idx := e.Open()
	hx.Level(30, 0)
	tie := n + 1 // from this rank on all vectors have one distance
	if vx.Param("tie", 0) > 0 {
		tie = vx.Param("tie", 0) + vx.Choice("tie", 4)
	}
	at := func(i int) float32 {
		if i > tie {
			i = tie
		}
		return float32(i)
	}
	for i := 0; i < n; i++ {
		v := []float32{at(i)}
		vx.Assert(idx.Add(uint64(i), v) == nil, "adding a vector succeeds")
		e.Vecs[uint64(i)] = v
	}
	vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
	x := vx.F32("thr")
	page := float32(vx.Param("page", 100))
	vx.Assume(vx.And(x >= page-3.5, x <= page+4.5))
	p.on = vx.Param("order", 0) == 1
	var allow helpers.AllowList
	if vx.Param("flat", 0) > 0 {
		allow = helpers.NewAllowList()
		for i := 0; i < n; i++ {
			allow.Insert(uint64(i))
		}
	}
	got, dists, err := idx.SearchByVectorDistance([]float32{0}, x, -1, allow)
	vx.Assert(err == nil && len(got) == len(dists), "the search succeeds")
	seen := make([]bool, n)
	for i, id := range got {
		vx.Assert(id < uint64(n) && !seen[id], "each vector comes back once")
		seen[id] = true
		vx.Assert(dists[i] == at(i) && dists[i] == at(int(id)), "each vector comes back in order with its distance")
	}
	vx.Assert(len(got) == n || at(len(got)) > x, "every vector within the distance is returned")
	vx.Assert(len(got) == 0 || dists[len(got)-1] <= x+0.00001, "a result lies within the distance asked for")
	vx.Cover("done")
}

// Third: a distance search that takes three pages, over a short way through
// the allow list.
func Third() {
	n := vx.Param("n", 1110)
	e := hx.NewEnv(hx.Hub{}, 2, 2)
	e.UC = func(u *h.UserConfig) { u.FlatSearchCutoff = 5000 }
	idx := e.Open()
	hx.Level(e.M, 0)
	allow := helpers.NewAllowList()
	skip := uint64(vx.Choice("skip", 2)) * 7
	for i := 0; i < n; i++ {
		vx.Assert(idx.Add(uint64(i), []float32{float32(i)}) == nil, "adding a vector succeeds")
		if uint64(i) != skip {
			allow.Insert(uint64(i))
		}
	}
	vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
	at := func(i int) float32 {
		d, _, _ := hx.Hub{}.SingleDist([]float32{float32(i)}, []float32{0})
		return d
	}
	x := vx.F32("thr")
	page := vx.Param("page", 1100)
	lo, hi := at(page-3), at(page+4)
	vx.Assume(vx.And(x >= lo, x <= hi))
	got, dists, err := idx.SearchByVectorDistance([]float32{0}, x, -1, allow)
	vx.Assert(err == nil && len(got) == len(dists), "the search succeeds")
	next := 0
	for i, id := range got {
		if uint64(next) == skip {
			next++
		}
		vx.Assert(id == uint64(next) && dists[i] == at(next), "each allowed vector comes back in order with its distance")
		next++
	}
	vx.Assert(next >= n || at(next) > x, "every allowed vector within the distance is returned")
	vx.Assert(len(got) == 0 || dists[len(got)-1] <= x+0.00001, "a result lies within the distance asked for")
	vx.Cover("done")
}
