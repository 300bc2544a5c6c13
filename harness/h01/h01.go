// Package h01: searches by maximal distance over the vector index.
package h01

import (
	"github.com/fairDataSociety/FaVe/zz_verif/hx"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
)

func thr() float32 {
	x := vx.F32("thr")
	vx.Assume(x == x)
	return x
}

// Search: n vectors with arbitrary pairwise distances (ties, zero and slightly
// negative ones included), every level assignment up to maxlvl, any
// threshold; the answer is sound, bounded by ef, and complete when the
// collection is smaller than the connection limit and ef.
func Search() {
	n := vx.Param("n", 3)
	t := hx.NewTableLo(n+1, -0.001, 2)
	e := hx.NewEnv(t, vx.Param("m", 30), vx.Param("efc", 60))
	idx := e.Open()
	ids := hx.Seq(uint64(vx.Param("first", 0)), n)
	hx.AddAll(e, idx, t, ids, vx.Param("maxlvl", 0))
	if vx.Param("flush", 1) == 1 {
		vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
	}
	if vx.Param("reopen", 0) == 1 {
		idx = e.Open()
		e.Vecs = map[uint64][]float32{}
		vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
	}
	x := thr()
	ef := vx.Param("ef", 800)
	var allow helpers.AllowList
	var allowed func(int) bool
	if vx.Param("allow", 0) == 1 {
		set := make([]bool, n)
		allow = helpers.NewAllowList()
		for i := range set {
			set[i] = vx.Choice("allow", 2) == 1
			if set[i] {
				allow.Insert(ids[i])
			}
		}
		allowed = func(i int) bool { return set[i] }
	}
	got, dists, err := idx.KnnSearchByVectorMaxDist(t.Vec(n), x, ef, allow)
	vx.Assert(err == nil, "the search succeeds")
	vx.Assert(len(got) <= ef, "at most ef results")
	seen := hx.Sound(t, ids, n, x, got, dists, allowed)
	if ef >= n && n < e.M {
		hx.Complete(t, n, x, seen, allowed)
	}
	vx.Cover("done")
}

// Many: the same index answers many searches (pooled scratch structures are
// reused, version counters wrap); the last one is still right.
func Many() {
	n := vx.Param("n", 2)
	t := hx.NewTable(n+1, 2)
	e := hx.NewEnv(t, 30, 60)
	idx := e.Open()
	ids := hx.Seq(0, n)
	hx.AddAll(e, idx, t, ids, 0)
	vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
	reps := vx.Param("reps", 260)
	for i := 0; i < reps; i++ {
		got, dists, err := idx.KnnSearchByVectorMaxDist(t.Vec(n), 3, 800, nil)
		vx.Assert(err == nil && len(got) == n && len(dists) == n, "a search that covers everything returns everything")
	}
	x := thr()
	got, dists, err := idx.KnnSearchByVectorMaxDist(t.Vec(n), x, 800, nil)
	vx.Assert(err == nil, "the search succeeds")
	hx.Complete(t, n, x, hx.Sound(t, ids, n, x, got, dists, nil), nil)
	vx.Cover("done")
}

// Big: more vectors than a node keeps links to, so neighbour lists are pruned;
// whatever comes back is still sound, and on this data everything in range
// comes back.
func Big() {
	n := vx.Param("n", 70)
	m := vx.Param("m", 30)
	e := hx.NewEnv(hx.Line{}, m, 60)
	idx := e.Open()
	pos := hx.Spread(n)
	for i := range pos {
		l := 0
		if i%9 == 4 {
			l = 1
		}
		hx.Level(m, l)
		v := []float32{pos[i]}
		vx.Assert(idx.Add(uint64(i), v) == nil, "adding a vector succeeds")
		e.Vecs[uint64(i)] = v
		if i == n/2 && vx.Param("reopen", 0) == 1 {
			vx.Assert(idx.Flush(uint64(i+1)) == nil, "storing succeeds")
			idx = e.Open()
			e.Vecs = map[uint64][]float32{}
			vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
		}
	}
	vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
	if vx.Param("reopen", 0) == 1 {
		idx = e.Open()
		e.Vecs = map[uint64][]float32{}
		vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
	}
	x := thr()
	q := float32(vx.IntRange("q", 0, vx.Param("qmax", 0))) + 0.25
	q = float32(vx.Concrete(int(q))) + 0.25
	// only every nth vector is asked for, from some place on
	every, from := vx.Param("every", 0), 0
	in := func(i int) bool { return every == 0 || i >= from && (i-from)%every == 0 }
	var allow helpers.AllowList
	if every > 0 {
		from = vx.Choice("from", 3) * n / 3
		allow = helpers.NewAllowList()
		for i := 0; i < n; i++ {
			if in(i) {
				allow.Insert(uint64(i))
			}
		}
	}
	got, dists, err := idx.KnnSearchByVectorMaxDist([]float32{q}, x, 800, allow)
	vx.Assert(err == nil, "the search succeeds")
	vx.Assert(len(got) == len(dists), "every result has a distance")
	seen := make([]bool, n)
	for i, id := range got {
		vx.Assert(id < uint64(n) && !seen[id] && in(int(id)), "a result is a stored vector, once")
		seen[id] = true
		d, _, _ := hx.Line{}.SingleDist([]float32{pos[id]}, []float32{q})
		vx.Assert(dists[i] == d && d <= x, "the distance is the vector's own and within the one asked for")
		vx.Assert(i == 0 || dists[i-1] <= dists[i], "results come nearest first")
	}
	if vx.Param("complete", 1) == 1 {
		for i := range seen {
			if !seen[i] && in(i) {
				d, _, _ := hx.Line{}.SingleDist([]float32{pos[i]}, []float32{q})
				vx.Assert(!(d <= x), "every stored vector within the distance is returned")
			}
		}
	}
	vx.Cover("done")
}
