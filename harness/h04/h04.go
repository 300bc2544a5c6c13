// Package h04: vectors withdrawn from the index.
package h04

import (
	h "github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairDataSociety/FaVe/zz_verif/hx"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
)

// Delete: n vectors, any of them withdrawn one by one, then more vectors
// added; a search returns exactly those left.
func Delete() {
	n, more := vx.Param("n", 3), vx.Param("more", 0)
	t := hx.NewTableTail(n+more+1, vx.Param("tail", 1), 2, 0)
	e := hx.NewEnv(t, vx.Param("m", 30), vx.Param("efc", 60))
	e.UC = func(u *h.UserConfig) {
		u.FlatSearchCutoff = vx.Param("flat", 0)
		u.EF = -1
		u.DynamicEFMin, u.DynamicEFMax, u.DynamicEFFactor = 100, 500, 8
	}
	idx := e.Open()
	ids := hx.Seq(0, n+more)
	q := n + more
	hx.AddAll(e, idx, t, ids[:n], vx.Param("maxlvl", 0))
	store := vx.Param("store", 2)
	if store == 2 {
		store = vx.Choice("store", 2)
	}
	if store == 1 {
		vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
	}
	gone := make([]bool, n+more)
	there := n
	left := n
	var list helpers.AllowList // any vectors, withdrawn ones too
	in := make([]bool, n+more)
	if vx.Param("allow", 0) == 1 {
		list = helpers.NewAllowList()
		for i := range in {
			if in[i] = vx.Choice("allow", 2) == 1; in[i] {
				list.Insert(ids[i])
			}
		}
	}
	allowed := func(i int) bool { return i < there && !gone[i] && (list == nil || in[i]) }
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	check := func() {
		got, dists, err := idx.KnnSearchByVectorMaxDist(t.Vec(q), thr, 800, list)
		vx.Assert(err == nil, "the search succeeds")
		for _, id := range got {
			vx.Assert(id >= uint64(len(gone)) || !gone[id], "a withdrawn vector is not returned")
		}
		hx.Complete(t, q, thr, hx.Sound(t, ids, q, thr, got, dists, allowed), allowed)
		if vx.Param("knn", 0) == 1 {
			got, dists, err := idx.SearchByVector(t.Vec(q), n+more, list)
			vx.Assert(err == nil, "the search succeeds")
			for _, id := range got {
				vx.Assert(allowed(int(id)), "a withdrawn vector is not returned")
			}
			hx.Complete(t, q, 3, hx.Sound(t, ids, q, 3, got, dists, allowed), allowed)
		}
	}
	var all []uint64
	once := vx.Param("once", 0) == 1 // all in one call
	for k := 0; k < vx.Param("dels", 2); k++ {
		i := vx.Choice("withdraw", n+vx.Param("absent", 0))
		all = append(all, uint64(i))
		if i == n { // one that was never added
			all[k] = 77
			if !once {
				vx.Assert(idx.Delete(77) == nil, "withdrawing what is not there changes nothing")
			}
			continue
		}
		if !once {
			vx.Assert(idx.Delete(uint64(i)) == nil, "withdrawing succeeds")
		}
		if !gone[i] {
			left--
		}
		gone[i] = true
		if vx.Param("each", 0) == 1 {
			check()
		}
	}
	if once {
		vx.Assert(idx.Delete(all...) == nil, "withdrawing succeeds")
	}
	if left < vx.Param("left", 0) {
		vx.Assume(false)
	}
	check()
	for i := n; i < n+more; i++ {
		hx.ChooseLevel("level", e.M, vx.Param("maxlvl", 0))
		vx.Assert(idx.Add(ids[i], t.Vec(i)) == nil, "adding a vector succeeds")
		e.Vecs[ids[i]] = t.Vec(i)
		there++
		left++
		check()
	}
	vx.Cover("done")
}

// Unsaved: the entry point of an index that was never stored is withdrawn,
// then a vector is added (known finding).
func Unsaved() {
	t := hx.NewTable(4, 2)
	e := hx.NewEnv(t, 30, 60)
	idx := e.Open()
	hx.AddAll(e, idx, t, hx.Seq(0, 2), 0)
	vx.Assert(idx.Delete(0) == nil, "withdrawing succeeds")
	vx.Assert(idx.Add(2, t.Vec(2)) == nil, "adding a vector succeeds")
	got, _, err := idx.KnnSearchByVectorMaxDist(t.Vec(3), 3, 800, nil)
	vx.Assert(err == nil, "the search succeeds")
	vx.Cover("searched")
	vx.Assert(len(got) == 2, "a vector left is returned after the entry point was withdrawn unsaved")
}

// Last: the only vector of a stored index is withdrawn, then another one is
// added (known finding).
func Last() {
	t := hx.NewTable(3, 2)
	e := hx.NewEnv(t, 30, 60)
	idx := e.Open()
	hx.AddAll(e, idx, t, hx.Seq(0, 1), 0)
	vx.Assert(idx.Flush(1) == nil, "storing succeeds")
	vx.Assert(idx.Delete(0) == nil, "withdrawing succeeds")
	vx.Assert(idx.Add(1, t.Vec(1)) == nil, "adding a vector succeeds")
	got, _, err := idx.KnnSearchByVectorMaxDist(t.Vec(2), 3, 800, nil)
	vx.Assert(err == nil, "the search succeeds")
	vx.Cover("searched")
	vx.Assert(len(got) == 1 && got[0] == 1, "a vector added after the last one was withdrawn is returned")
}

// Restart: a stored vector is withdrawn and the index opened by a new process
// (known finding).
func Restart() {
	t := hx.NewTable(3, 2)
	e := hx.NewEnv(t, 30, 60)
	idx := e.Open()
	hx.AddAll(e, idx, t, hx.Seq(0, 2), 0)
	vx.Assert(idx.Flush(2) == nil, "storing succeeds")
	i := uint64(vx.Choice("withdraw", 2))
	vx.Assert(idx.Delete(i) == nil, "withdrawing succeeds")
	vx.Assert(idx.Flush(2) == nil, "storing succeeds")
	idx = e.Open()
	vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
	got, _, err := idx.KnnSearchByVectorMaxDist(t.Vec(2), 3, 800, nil)
	vx.Assert(err == nil, "the search succeeds")
	vx.Cover("searched")
	for _, id := range got {
		vx.Assert(id != i, "a vector withdrawn before a restart is not returned")
	}
}
