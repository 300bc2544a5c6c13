package main

import (
	"fmt"
	"strings"
)

// Data races: while on, every access to memory or to a map is compared with
// the earlier ones by other goroutines; two of them that are not ordered by
// locks, channels, wait groups or atomics, one of them writing, are a race,
// whatever order they happened in on this path.

type vclock map[int]int

func (v vclock) join(o vclock) {
	for k, x := range o {
		if v[k] < x {
			v[k] = x
		}
	}
}

type raceAcc struct {
	g, clk int
	fn     string
	at     *cinstr
}

type raceCell struct {
	w raceAcc
	r []raceAcc
}

type raceState struct {
	cells map[any]*raceCell // *any or *Map
	syncs map[any]vclock    // lock, channel, atomic cell, pool
}

func (w *W) raceOn(on bool) {
	if !on {
		w.race = nil
		return
	}
	w.race = &raceState{cells: map[any]*raceCell{}, syncs: map[any]vclock{}}
	for _, g := range w.gs {
		g.vc = vclock{g.id: 1}
	}
}

func (g *G) clock() vclock {
	if g.vc == nil {
		g.vc = vclock{g.id: 1}
	}
	return g.vc
}

// acquire: what was released on key happened before what g does next.
func (g *G) acquire(key any) {
	if g.w.race == nil {
		return
	}
	g.clock().join(g.w.race.syncs[key])
}

func (g *G) release(key any) {
	if g.w.race == nil {
		return
	}
	vc := g.w.race.syncs[key]
	if vc == nil {
		vc = vclock{}
		g.w.race.syncs[key] = vc
	}
	vc.join(g.clock())
	g.vc[g.id]++
}

func (g *G) acqrel(key any) {
	if g.w.race == nil {
		return
	}
	g.acquire(key)
	g.release(key)
}

type readers struct{ l *lockState } // key of what readers released

func (g *G) raceFork(child *G) {
	if g.w.race == nil {
		return
	}
	child.vc = vclock{}
	child.vc.join(g.clock())
	child.vc[child.id] = 1
	g.vc[g.id]++
}

func (g *G) acc(clk int) raceAcc {
	if g.fr == nil {
		return raceAcc{g.id, clk, "?", nil}
	}
	return raceAcc{g.id, clk, g.fr.c.name, g.fr.cur}
}

func (g *G) where(a raceAcc) string {
	if a.at == nil {
		return a.fn
	}
	pos := g.w.p.prog.Fset.Position(a.at.in.Pos())
	return fmt.Sprintf("%s (%s:%d)", a.fn, pos.Filename, pos.Line)
}

func (g *G) access(key any, write bool) {
	rs := g.w.race
	c := rs.cells[key]
	if c == nil {
		c = &raceCell{}
		rs.cells[key] = c
	}
	vc := g.clock()
	if c.w.clk > 0 && c.w.g != g.id && vc[c.w.g] < c.w.clk {
		g.raceFound(c.w, true, write)
	}
	if !write {
		for i := range c.r {
			if c.r[i].g == g.id {
				if c.r[i].clk < vc[g.id] {
					c.r[i] = g.acc(vc[g.id])
				}
				return
			}
		}
		c.r = append(c.r, g.acc(vc[g.id]))
		return
	}
	for _, r := range c.r {
		if r.g != g.id && vc[r.g] < r.clk {
			g.raceFound(r, false, write)
		}
	}
	c.r = c.r[:0]
	c.w = g.acc(vc[g.id])
}

func rw(write bool) string {
	if write {
		return "write"
	}
	return "read"
}

func (g *G) raceFound(o raceAcc, ow, write bool) {
	me := g.acc(1)
	if strings.Contains(o.fn, "/zz_verif/") && strings.Contains(me.fn, "/zz_verif/") {
		return // the harness itself
	}
	msg := fmt.Sprintf("data race: %s in %s, %s in %s", rw(ow), o.fn, rw(write), me.fn)
	ex := g.w.ex
	ex.mu.Lock()
	if ex.races == nil {
		ex.races = map[string]bool{}
	}
	seen := ex.races[msg]
	ex.races[msg] = true
	ex.mu.Unlock()
	if !seen {
		g.w.violation("race", msg, g.w.model, fmt.Sprintf("%s at %s\n%s at:\n%s", rw(ow), g.where(o), rw(write), g.trace(g.fr)))
	}
}

// touch notes an access to the memory at p, with all parts of it.
func (g *G) touch(p *any, write bool) {
	if g.w.race == nil {
		return
	}
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			g.touch(&x[i], write)
		}
		return
	case Array:
		for i := range x {
			g.touch(&x[i], write)
		}
		return
	}
	g.access(p, write)
}

func (g *G) touchMap(m *Map, write bool) {
	if g.w.race == nil || m == nil {
		return
	}
	g.access(m, write)
}

func (g *G) touchSlice(s []any, write bool) {
	if g.w.race == nil {
		return
	}
	for i := range s {
		g.touch(&s[i], write)
	}
}
