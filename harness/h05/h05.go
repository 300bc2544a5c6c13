// Package h05: structure of the stored graph, and what survives a restart.
package h05

import (
	h "github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairDataSociety/FaVe/zz_verif/hx"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
)

// Build: n vectors with arbitrary distances and levels, stored after each
// batch, reopened in between when asked; the stored graph is well formed, each
// vector is there, and small collections are fully linked on the bottom layer.
func Build() {
	n := vx.Param("n", 4)
	m := vx.Param("m", 2)
	var t *hx.Table
	if k := vx.Param("tail", 0); k > 0 {
		t = hx.NewTableTail(n, k, 2, vx.Param("shape", 0))
	} else {
		t = hx.NewTable(n, 2)
	}
	e := hx.NewEnv(t, m, vx.Param("efc", 8))
	pauses := vx.Param("pauses", 0)
	if pauses > 0 {
		e.UC = func(c *h.UserConfig) { c.VectorCacheMaxObjects = 0 }
	}
	idx := e.Open()
	ids := hx.Seq(uint64(vx.Param("first", 0)), n)
	if vx.Param("pre", 0) == 1 {
		// a batch of documents without vectors stores an empty index first
		vx.Assert(idx.Flush(0) == nil, "storing succeeds")
	}
	reopened := false
	for i, id := range ids {
		hx.ChooseLevel("level", m, vx.Param("maxlvl", 1))
		vx.Assert(idx.Add(id, t.Vec(i)) == nil, "adding a vector succeeds")
		if vx.Param("source", 1) == 1 {
			e.Vecs[id] = t.Vec(i)
		}
		if pauses > 0 && i >= vx.Param("from", 0) && i+1 < n && vx.Choice("pause", 2) == 1 {
			vx.FireTickers() // the vectors kept in memory are dropped
			pauses--
		}
		if vx.Param("batch", 0) == 1 && i+1 < n && vx.Choice("store", 2) == 1 {
			vx.Assert(idx.Flush(uint64(i+1)) == nil, "storing succeeds")
			if vx.Param("reopen", 0) == 1 {
				idx = e.Open()
				e.Vecs = map[uint64][]float32{}
				vx.Assert(idx.LoadEntrypoint() == nil, "loading succeeds")
				reopened = true // the height of the graph is not stored
			}
		}
	}
	vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
	g := e.Graph(ids)
	e.WellFormed(g, ids, t.Vec)
	ep, cnt := e.StoredEntry()
	vx.Assert(cnt == uint64(n), "the stored count is the number of vectors")
	vx.Assert(g[ep] != nil, "the entry point is a stored node")
	for _, id := range ids {
		vx.Assert(reopened || g[id].Level <= g[ep].Level, "the entry point is on the highest layer")
	}
	vx.Assert(idx.Entrypoint() == ep, "the stored entry point is the index's")
	// links appear in both directions as long as nothing had to be pruned
	if n < m {
		for _, a := range ids {
			for _, b := range ids {
				if a != b {
					ok := false
					for _, c := range g[a].Connections[0] {
						ok = ok || c == b
					}
					vx.Assert(ok, "a collection smaller than the connection limit is fully linked on the bottom layer")
				}
			}
		}
	} else {
		for _, a := range ids {
			if n > 1 {
				vx.Assert(len(g[a].Connections[0]) > 0, "no vector is left without a neighbour")
			}
		}
	}
	if !reopened {
		for l := 1; l <= vx.Param("maxlvl", 1); l++ {
			on := 0
			for _, a := range ids {
				if g[a].Level >= l {
					on++
				}
			}
			for _, a := range ids {
				vx.Assert(on < 2 || g[a].Level < l || len(g[a].Connections[l]) > 0, "no vector is left without a neighbour on a layer it shares with others")
			}
		}
	}
	vx.Cover("done")
}
