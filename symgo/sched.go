package main

import (
	"fmt"
	"go/types"
)

// Interpreted goroutines run on host goroutines, one at a time.
type G struct {
	w        *W
	id       int
	resume   chan bool // true = run, false = die
	depth    int
	fr       *frame
	callerFr *frame
	done     bool
	vc       vclock
	demoted  int // preempted as the how manieth, 0: not
	started  bool
	blocked  func() bool // nil = runnable; otherwise runnable once it returns true
	why      string
}

type Chan struct {
	cap    int
	elem   types.Type
	buf    []any
	closed bool
	// unbuffered hand-off: number of receivers waiting and pending sender values
	sendq []*sendWait
	recvq int
	never bool // never becomes ready (tickers)
}
type sendWait struct {
	v    any
	done bool
}

func (g *G) spawn(cl *Closure, args []any) {
	w := g.w
	ng := &G{w: w, id: w.nGo + 1, resume: make(chan bool)}
	if len(w.gs) >= 64 {
		// forget those that have ended
		live := w.gs[:0:0]
		for _, x := range w.gs {
			if !x.done {
				live = append(live, x)
			}
		}
		w.gs = live
	}
	w.gs = append(w.gs, ng)
	g.raceFork(ng)
	w.wg.Add(1)
	go ng.main(func() { ng.callClosure(cl, args, nil) })
	w.nGo++
	if len(w.gs) > w.maxG {
		panic(pathEnd{"limit", "too many goroutines"})
	}
	g.syncPoint("go")
}

func (g *G) main(f func()) {
	w := g.w
	defer w.wg.Done()
	if !<-g.resume {
		return
	}
	w.curG = g
	g.started = true
	end := g.guard(f)
	g.done = true
	if end == nil && g.id == 0 {
		end = &pathEnd{"ok", ""}
	}
	if end != nil {
		if w.result == nil && end.kind != "killed" {
			w.result = end
		}
		if end.kind != "killed" {
			w.finish <- struct{}{}
		}
		return
	}
	// hand over
	w.switchAway(g)
}

func (g *G) guard(f func()) (end *pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case killG:
				end = &pathEnd{"killed", ""}
			case pathEnd:
				end = &x
			case *unsupportedErr:
				tr := ""
				if g.fr != nil {
					tr = g.trace(g.fr)
				}
				end = &pathEnd{"unsupported", x.msg + "\n" + tr}
			case *targetPanic:
				end = &pathEnd{"panic", g.panicMsg(x) + "\n" + x.trace}
			default:
				tr := ""
				if g.fr != nil {
					tr = g.trace(g.fr)
				}
				end = &pathEnd{"unsupported", fmt.Sprintf("interpreter: %v\n%s\n%s", r, tr, hostStack())}
			}
		}
	}()
	f()
	return nil
}

func (g *G) panicMsg(tp *targetPanic) string {
	v, ok := tp.v.(Iface)
	if !ok || v.T == nil {
		return "panic: nil"
	}
	return "panic: " + safeFmt(g, v)
}

// runnable goroutines in id order
func (w *W) runnable() []*G {
	var r []*G
	for _, g := range w.gs {
		if g.done {
			continue
		}
		if g.blocked == nil || g.blocked() {
			r = append(r, g)
		}
	}
	return r
}

func (w *W) switchTo(from, to *G) {
	w.curG = to
	if from == to {
		return
	}
	to.resume <- true
}

// switchAway is called by a goroutine that has finished.
func (w *W) switchAway(from *G) {
	r := w.runnable()
	if len(r) == 0 {
		if w.result == nil {
			w.result = w.deadlock()
		}
		w.finish <- struct{}{}
		return
	}
	n := w.pick(r, nil)
	n.blocked = nil
	w.switchTo(from, n)
}

func (w *W) deadlock() *pathEnd {
	s := ""
	for _, g := range w.gs {
		if !g.done {
			s += fmt.Sprintf("goroutine %d: %s; ", g.id, g.why)
		}
	}
	return &pathEnd{"deadlock", s}
}

// pick chooses the next goroutine; a schedule decision when asked for.
func (w *W) pick(r []*G, cur *G) *G {
	// a preempted goroutine waits until the others cannot go on
	low := r[0].demoted
	for _, x := range r {
		low = min(low, x.demoted)
	}
	var first []*G
	for _, x := range r {
		if x.demoted == low {
			first = append(first, x)
		}
	}
	r = first
	if len(r) == 1 {
		return r[0]
	}
	if w.pickFork {
		// the order in which waiting goroutines start is a choice; once
		// started they run until they block and continue first come first served
		var fresh []*G
		for _, x := range r {
			if !x.started {
				fresh = append(fresh, x)
			}
		}
		if len(fresh) == len(r) {
			return r[w.schedChoice(len(r))]
		}
		for _, x := range r {
			if x.started {
				return x
			}
		}
	}
	if w.lifo {
		for i := len(r) - 1; i >= 0; i-- {
			if !r[i].started {
				return r[i]
			}
		}
	}
	// FIFO round robin after current
	if cur != nil {
		for _, x := range r {
			if x.id > cur.id {
				return x
			}
		}
	}
	return r[0]
}

// block parks g until ready() holds.
func (g *G) block(why string, ready func() bool) {
	w := g.w
	for !ready() {
		if w.inInit > 0 {
			panic(unsupported("blocking in init: " + why))
		}
		g.blocked = ready
		g.why = why
		r := w.runnable()
		if len(r) == 0 {
			panic(*w.deadlock())
		}
		n := w.pick(r, g)
		n.blocked = nil
		if n == g {
			continue
		}
		w.switchTo(g, n)
		if !<-g.resume {
			panic(killG{})
		}
		w.curG = g
	}
	g.blocked = nil
	g.why = ""
}

// syncPoint is a possible preemption point.
func (g *G) syncPoint(what string) {
	w := g.w
	if w.preempt <= 0 || w.inInit > 0 || len(w.gs) == 1 {
		return
	}
	var r []*G
	r = append(r, g)
	for _, x := range w.gs {
		if x != g && !x.done && (x.blocked == nil || x.blocked()) {
			r = append(r, x)
		}
	}
	if len(r) == 1 {
		return
	}
	i := w.schedChoice(len(r))
	if i == 0 {
		return
	}
	w.preempt--
	w.trailPreempt++
	g.demoted = w.trailPreempt
	n := r[i]
	n.blocked = nil
	w.switchTo(g, n)
	if !<-g.resume {
		panic(killG{})
	}
	w.curG = g
}

// yield lets every other runnable goroutine go first.
func (g *G) othersRunnable() bool {
	for _, x := range g.w.gs {
		if x != g && !x.done && (x.blocked == nil || x.blocked()) {
			return true
		}
	}
	return false
}

func (g *G) yield() {
	w := g.w
	if w.inInit > 0 {
		return
	}
	var n *G
	for _, x := range w.gs {
		if x != g && !x.done && (x.blocked == nil || x.blocked()) {
			if n == nil || (x.id > g.id && n.id < g.id) {
				n = x
			}
		}
	}
	if n == nil {
		return
	}
	n.blocked = nil
	w.switchTo(g, n)
	if !<-g.resume {
		panic(killG{})
	}
	w.curG = g
}

// ---- channels ----

func (g *G) send(c *Chan, v any) {
	g.syncPoint("send")
	if c == nil {
		g.block("send on nil channel", func() bool { return false })
	}
	if c.closed {
		g.chanPanic("send on closed channel")
	}
	if c.cap > 0 {
		g.block("chan send", func() bool { return len(c.buf) < c.cap || c.closed })
		if c.closed {
			g.chanPanic("send on closed channel")
		}
		g.acqrel(c)
		c.buf = append(c.buf, v)
		return
	}
	g.acqrel(c)
	sw := &sendWait{v: v}
	c.sendq = append(c.sendq, sw)
	g.block("chan send", func() bool { return sw.done || c.closed })
	if !sw.done {
		g.chanPanic("send on closed channel")
	}
	g.acquire(c)
}

func (g *G) chanPanic(s string) { g.rtPanic(s) }

func (c *Chan) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func (c *Chan) take() (any, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return norm(v, c.elem), true
	}
	if len(c.sendq) > 0 {
		s := c.sendq[0]
		c.sendq = c.sendq[1:]
		s.done = true
		return norm(s.v, c.elem), true
	}
	return zero(c.elem), false
}

func (g *G) recv(c *Chan) (any, bool) {
	g.syncPoint("recv")
	if c == nil {
		g.block("recv on nil channel", func() bool { return false })
	}
	c.recvq++
	g.block("chan recv", c.canRecv)
	c.recvq--
	g.acqrel(c)
	return c.take()
}

func (g *G) closeChan(c *Chan) {
	if c == nil {
		g.rtPanic("close of nil channel")
	}
	if c.closed {
		g.rtPanic("close of closed channel")
	}
	g.release(c)
	c.closed = true
	if c.cap == 0 {
		for _, s := range c.sendq {
			_ = s
		}
	}
	g.syncPoint("close")
}

func (g *G) selectOp(fr *frame, ci *cinstr) {
	g.syncPoint("select")
	n := len(ci.args) / 2
	chans := make([]*Chan, n)
	sends := make([]any, n)
	isSend := make([]bool, n)
	for i := 0; i < n; i++ {
		chans[i], _ = g.get(fr, &ci.args[2*i]).(*Chan)
		if ci.args[2*i+1].k != oNone {
			isSend[i] = true
			sends[i] = g.get(fr, &ci.args[2*i+1])
		}
	}
	ready := func() []int {
		var r []int
		for i, c := range chans {
			if c == nil {
				continue
			}
			if isSend[i] {
				if c.closed || c.cap > 0 && len(c.buf) < c.cap || c.cap == 0 && c.recvq > 0 {
					r = append(r, i)
				}
			} else if c.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	tt := ci.t2.(*types.Tuple)
	res := make(Tuple, tt.Len())
	for i := 2; i < len(res); i++ {
		res[i] = zero(tt.At(i).Type())
	}
	r := ready()
	if len(r) == 0 {
		if !ci.flag {
			res[0] = uint64(0xffffffffffffffff)
			res[1] = false
			fr.regs[ci.dst] = res
			return
		}
		for i, c := range chans {
			if c != nil && !isSend[i] {
				c.recvq++
			}
		}
		g.block("select", func() bool { return len(ready()) > 0 })
		for i, c := range chans {
			if c != nil && !isSend[i] {
				c.recvq--
			}
		}
		r = ready()
	}
	i := r[0]
	if len(r) > 1 && (g.w.preempt > 0 || g.w.pickFork) {
		i = r[g.w.schedChoice(len(r))]
	}
	res[0] = uint64(i)
	res[1] = false
	g.acqrel(chans[i])
	if isSend[i] {
		c := chans[i]
		if c.closed {
			g.chanPanic("send on closed channel")
		}
		if c.cap > 0 {
			c.buf = append(c.buf, sends[i])
		} else {
			sw := &sendWait{v: sends[i]}
			c.sendq = append(c.sendq, sw)
			g.block("select send", func() bool { return sw.done || c.closed })
		}
	} else {
		v, ok := chans[i].take()
		res[1] = ok
		// position among receive cases
		pos := 2
		for j := 0; j < i; j++ {
			if !isSend[j] {
				pos++
			}
		}
		res[pos] = v
	}
	fr.regs[ci.dst] = res
}

// ---- locks ----

type lockState struct {
	writer  bool
	readers int
	waitW   int
	wg      int64
	once    int // 0 new, 1 running, 2 done
}

func (w *W) lockOf(p *any) *lockState {
	l := w.locks[p]
	if l == nil {
		l = &lockState{}
		w.locks[p] = l
	}
	return l
}
