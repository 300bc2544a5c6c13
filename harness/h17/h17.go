// Package h17: the ordered queues and visited sets every search relies on.
package h17

import (
	"fmt"

	pq "github.com/fairDataSociety/FaVe/pkg/hnsw/priorityqueue"
	"github.com/fairDataSociety/FaVe/pkg/hnsw/visited"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
)

type item struct {
	id, ix uint64
	dist   float32
}

type queue interface {
	insert(item)
	pop() item
	top() item
	Len() int
	Reset()
	ResetCap(int)
}

type plain struct{ *pq.Queue }

func (q plain) insert(i item) { q.Insert(i.id, i.dist) }
func (q plain) pop() item     { x := q.Pop(); return item{x.ID, x.ID + 7, x.Dist} }
func (q plain) top() item     { x := q.Top(); return item{x.ID, x.ID + 7, x.Dist} }

type indexed struct{ *pq.QueueWithIndex }

func (q indexed) insert(i item) { q.Insert(i.id, i.ix, i.dist) }
func (q indexed) pop() item     { x := q.Pop(); return item{x.ID, x.Index, x.Dist} }
func (q indexed) top() item     { x := q.Top(); return item{x.ID, x.Index, x.Dist} }

// Queue: any sequence of insertions and removals with arbitrary distances;
// each removal gives the extreme of what is there, and every item comes out
// once with what it went in with.
func Queue() {
	max := vx.Choice("max", 2) == 1
	c := 2
	if vx.Param("pre", 0) == 0 {
		c = vx.Choice("cap", 3)
	}
	var q queue
	switch {
	case vx.Param("index", 0) == 1 && max:
		q = indexed{pq.NewMaxWithIndex(c)}
	case vx.Param("index", 0) == 1:
		q = indexed{pq.NewMinWithIndex(c)}
	case max:
		q = plain{pq.NewMax(c)}
	default:
		q = plain{pq.NewMin(c)}
	}
	if vx.Param("reused", 0) == 1 {
		// a queue taken from a pool may hold leftovers
		q.insert(item{99, 106, 0.5})
		q.insert(item{98, 105, -1})
		if vx.Choice("how", 2) == 0 {
			q.Reset()
		} else {
			q.ResetCap(1)
		}
	}
	var in []item
	take := func() {
		t := q.top()
		x := q.pop()
		vx.Assert(x == t, "removal gives what was on top")
		k := -1
		for i := range in {
			if in[i].id == x.id {
				k = i
			}
		}
		vx.Assert(k >= 0 && in[k].ix == x.ix && in[k].dist == x.dist, "an item comes out once, as it went in")
		for i := range in {
			if max {
				vx.Assert(x.dist >= in[i].dist, "the largest comes first")
			} else {
				vx.Assert(x.dist <= in[i].dist, "the smallest comes first")
			}
		}
		in = append(append([]item{}, in[:k]...), in[k+1:]...)
		vx.Assert(q.Len() == len(in), "the length follows")
	}
	n := uint64(0)
	// a deeper heap: entries in some order, some taken out and more put in,
	// before the arbitrary ones
	if pre := vx.Param("pre", 0); pre > 0 {
		mul := []int{1, pre - 1, 5, 7}[vx.Choice("order", 4)]
		out := vx.Choice("out", 3) * pre / 3
		for i := 0; i < pre+pre/2; i++ {
			if i == pre {
				for j := 0; j < out; j++ {
					take()
				}
			}
			x := item{n, n + 7, float32(i*mul%pre) / 4}
			n++
			q.insert(x)
			in = append(in, x)
		}
		vx.Assert(q.Len() == len(in), "the length follows")
	}
	for s := 0; s < vx.Param("steps", 4); s++ {
		if len(in) > 0 && vx.Choice("op", 2) == 1 {
			take()
			continue
		}
		if vx.Param("resets", 0) == 1 && vx.Choice("reset", 2) == 1 {
			if c := vx.Choice("to", 4); c == 0 {
				q.Reset()
			} else {
				q.ResetCap([]int{0, 0, 2, 40}[c])
			}
			in = nil
			vx.Assert(q.Len() == 0, "a reset leaves nothing")
			continue
		}
		x := item{n, n + 7, vx.F32("dist")}
		vx.Assume(x.dist == x.dist)
		n++
		q.insert(x)
		in = append(in, x)
		vx.Assert(q.Len() == len(in), "the length follows")
	}
	for len(in) > 0 {
		take()
	}
	vx.Cover("done")
}

// Visited: a set over arbitrary ids, reset any number of times, grown as
// needed; an id is in it exactly when it was put in since the last reset.
func Visited() {
	size := vx.Param("size", 4)
	l := visited.NewList(size)
	for i := 0; i < vx.Param("resets", 0); i++ {
		if i%3 == 0 {
			l.Visit(uint64(i % size))
		}
		l.Reset()
	}
	hi := uint64(vx.Param("hi", 6))
	var in []uint64
	for s := 0; s < vx.Param("steps", 3); s++ {
		if vx.Choice("op", 2) == 1 {
			l.Reset()
			in = nil
			continue
		}
		x := uint64(vx.Choice("x", int(hi)))
		if x == hi-1 {
			x = uint64(vx.Param("far", 5000)) // beyond what is allocated
		}
		l.Visit(x)
		in = append(in, x)
	}
	far := uint64(vx.Param("far", 5000))
	for _, y := range []uint64{uint64(vx.IntRange("y", 0, int(hi))), far - 1, far, far + 1, 2 * far, 1 << 40} {
		want := false
		for _, x := range in {
			want = vx.Or(want, x == y)
		}
		vx.Assert(l.Visited(y) == want, "an id is in the set exactly when it was visited since the last reset")
	}
	vx.Cover("done")
}

// Pool: sets borrowed from a pool start empty and are separate, whatever was
// returned before.
func Pool() {
	p := visited.NewPool(vx.Choice("size", 3), 4)
	rounds := vx.Param("rounds", 2)
	for r := 0; r < rounds; r++ {
		a := p.Borrow()
		b := p.Borrow()
		y := uint64(vx.IntRange(fmt.Sprintf("y%d", r), 0, 6))
		vx.Assert(!a.Visited(y) && !b.Visited(y), "a borrowed set is empty")
		x := uint64(vx.Choice("x", 2)) * 5
		a.Visit(x)
		vx.Assert(a.Visited(x) && !b.Visited(y), "borrowed sets are separate")
		vx.Assert(a.Visited(y) == (x == y), "an id is in the set exactly when it was visited")
		if vx.Param("three", 0) == 1 {
			// a third one, which grows, returned before or after the others
			t := p.Borrow()
			vx.Assert(!t.Visited(y), "a borrowed set is empty")
			t.Visit(3000)
			t.Visit(x + 1)
			vx.Assert(t.Visited(y) == (y == x+1), "an id is in the set exactly when it was visited")
			vx.Assert(a.Visited(y) == (x == y) && !b.Visited(y), "borrowed sets are separate")
			if vx.Choice("third", 2) == 1 {
				p.Return(t)
			} else {
				defer p.Return(t)
			}
		}
		p.Return(a)
		if vx.Choice("both", 2) == 1 {
			b.Visit(2)
			p.Return(b)
		}
	}
	p.Destroy()
	c := p.Borrow()
	y := uint64(vx.IntRange("z", 0, 6))
	vx.Assert(!c.Visited(y), "a borrowed set is empty")
	c.Visit(3)
	vx.Assert(c.Visited(y) == (y == 3), "an id is in the set exactly when it was visited")
	vx.Cover("done")
}
