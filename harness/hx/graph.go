package hx

import (
	"encoding/json"
	"fmt"

	"github.com/fairDataSociety/FaVe/zz_verif/vx"
)

// Node is a stored graph node.
type Node struct {
	ID          uint64     `json:"_id"`
	Level       int        `json:"level"`
	Connections [][]uint64 `json:"connections"`
	Maintenance bool       `json:"maintenance"`
	Vector      []float32  `json:"vector"`
}

// Graph reads the stored graph back from the key-value table.
func (e *Env) Graph(ids []uint64) map[uint64]*Node {
	g := map[uint64]*Node{}
	for _, id := range ids {
		b, ok := e.St.KV[Class][fmt.Sprintf("%d", id)]
		vx.Assert(ok, "every added vector has a stored node")
		n := &Node{}
		vx.Assert(json.Unmarshal(b, n) == nil, "a stored node can be read back")
		g[id] = n
	}
	nodes := 0
	for k := range e.St.KV[Class] {
		if k != "" && k[0] >= '0' && k[0] <= '9' {
			nodes++
		}
	}
	vx.Assert(nodes == len(ids), "the store holds one node per vector")
	return g
}

// StoredEntry is the stored entry point and count.
func (e *Env) StoredEntry() (uint64, uint64) {
	var ep struct {
		ID uint64 `json:"id"`
	}
	var c struct {
		Count uint64 `json:"count"`
	}
	vx.Assert(json.Unmarshal(e.St.KV[Class]["entrypoint"], &ep) == nil, "the entry point can be read back")
	vx.Assert(json.Unmarshal(e.St.KV[Class]["count"], &c) == nil, "the count can be read back")
	return ep.ID, c.Count
}

// WellFormed checks the structure of a stored graph.
func (e *Env) WellFormed(g map[uint64]*Node, ids []uint64, vec func(i int) []float32) {
	for i, id := range ids {
		n := g[id]
		vx.Assert(n.ID == id, "a node is stored under its own id")
		vx.Assert(!n.Maintenance, "no stored node is left under maintenance")
		vx.Assert(len(n.Connections) == n.Level+1, "a node has one neighbour list per layer it is on")
		if vec != nil {
			w := vec(i)
			vx.Assert(len(n.Vector) == len(w), "a node keeps its vector")
			for k := range w {
				vx.Assert(n.Vector[k] == w[k], "a node keeps its vector")
			}
		}
		for l, conns := range n.Connections {
			max := e.M
			if l == 0 {
				max = 2 * e.M
			}
			vx.Assert(len(conns) <= max, "no node has more neighbours than the connection limit of the layer")
			for a, c := range conns {
				vx.Assert(c != id, "no node is its own neighbour")
				p, ok := g[c]
				vx.Assert(ok, "every neighbour is a stored node")
				vx.Assert(p.Level >= l, "a neighbour reaches the layer of the link")
				for b := 0; b < a; b++ {
					vx.Assert(conns[b] != c, "no neighbour is listed twice")
				}
			}
		}
	}
}
