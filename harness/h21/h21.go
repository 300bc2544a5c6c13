// Package h21 decides what the change log of an index promises: reading it
// back gives the state its records describe, and condensing and combining
// logs never changes that, wherever they are interrupted.
package h21

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	h "github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/sirupsen/logrus"
	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/commitlog"
	"github.com/weaviate/weaviate/adapters/repos/db/vector/ssdhelpers"
	"github.com/weaviate/weaviate/entities/cyclemanager"

	"github.com/fairDataSociety/FaVe/zz_verif/vf"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
)

const (
	addNode = iota
	setEntry
	addLink
	addLinks
	replaceLinks
	addTombstone
	removeTombstone
	clearLinks
	clearAt
	deleteNode
	reset
	kinds
)

type rec struct {
	kind    int
	id      uint64
	level   int
	targets []uint64
}

type node struct {
	level   int
	leveled bool
	links   map[int][]uint64
}

// state is what a sequence of records describes.
type state struct {
	nodes map[uint64]*node
	entry uint64
	top   uint16
	moved bool
	tomb  []uint64
}

func newState() *state { return &state{nodes: map[uint64]*node{}} }

func (s *state) node(id uint64) *node {
	n := s.nodes[id]
	if n == nil {
		n = &node{links: map[int][]uint64{}}
		s.nodes[id] = n
	}
	return n
}

func (s *state) apply(r rec) {
	switch r.kind {
	case addNode:
		n := s.node(r.id)
		n.level, n.leveled = r.level, true
	case setEntry:
		s.entry, s.top, s.moved = r.id, uint16(r.level), true
	case addLink, addLinks:
		n := s.node(r.id)
		n.links[r.level] = append(append([]uint64{}, n.links[r.level]...), r.targets...)
	case replaceLinks:
		s.node(r.id).links[r.level] = r.targets
	case addTombstone:
		s.tomb = append(s.tomb, r.id)
	case removeTombstone:
		var t []uint64
		for _, x := range s.tomb {
			if x != r.id {
				t = append(t, x)
			}
		}
		s.tomb = t
	case clearLinks:
		if n := s.nodes[r.id]; n != nil {
			n.links = map[int][]uint64{}
		}
	case clearAt:
		if n := s.nodes[r.id]; n != nil {
			n.links[r.level] = nil
		}
	case deleteNode:
		delete(s.nodes, r.id)
	case reset:
		s.nodes = map[uint64]*node{}
		s.entry, s.top = 0, 0
	}
}

func describe(rs ...[]rec) *state {
	s := newState()
	for _, l := range rs {
		for _, r := range l {
			s.apply(r)
		}
	}
	return s
}

// same checks what was read against what was described.
func same(s *state, res *h.DeserializationResult, what string) { alike(s, res, what, false) }

// once is a list without repetitions.
func once(l []uint64) []uint64 {
	var out []uint64
	for _, x := range l {
		seen := false
		for _, y := range out {
			seen = seen || x == y
		}
		if !seen {
			out = append(out, x)
		}
	}
	return out
}

func alike(s *state, res *h.DeserializationResult, what string, repeated bool) {
	nodes := 0
	for id, n := range res.Nodes {
		if n == nil {
			continue
		}
		m := s.nodes[uint64(id)]
		if m == nil {
			// a place for links that were cleared is not a node
			empty := true
			for _, l := range n.Connections {
				if len(l) > 0 {
					empty = false
				}
			}
			vx.Assert(empty && n.Level == 0, what+": no node appears that was not added or was deleted")
			continue
		}
		nodes++
		vx.Assert(n.Id == uint64(id), what+": a node has its own id")
		if m.leveled {
			vx.Assert(n.Level == m.level, what+": a node has the level it was added with")
		}
		for level, l := range n.Connections {
			w := m.links[level]
			if repeated {
				l, w = once(l), once(w)
			}
			vx.Assert(len(l) == len(w), what+": a node has the links it was given")
			for i := range l {
				vx.Assert(l[i] == w[i], what+": a node has the links it was given, in order")
			}
		}
		for level, w := range m.links {
			vx.Assert(len(w) == 0 || level < len(n.Connections), what+": no layer of links is lost")
		}
	}
	vx.Assert(nodes == len(s.nodes), what+": no node is lost")
	vx.Assert(res.Entrypoint == s.entry && res.Level == s.top, what+": the entry point is the one set last")
	for _, t := range s.tomb {
		_, ok := res.Tombstones[t]
		vx.Assert(ok, what+": no tombstone is lost")
	}
	for t := range res.Tombstones {
		ok := false
		for _, x := range s.tomb {
			ok = ok || x == t
		}
		vx.Assert(ok, what+": no tombstone appears that was not set or was removed")
	}
}

var far = []uint64{0, 1, 25000, 60000}

// any is an arbitrary record.
func any(tag string, ks []int, ids, maxlvl int) rec {
	r := rec{kind: ks[vx.Choice(tag+" kind", len(ks))]}
	switch r.kind {
	case setEntry:
		r.id = vx.U64(tag + " entry")
		r.level = int(vx.U16(tag + " top"))
		return r
	case addTombstone, removeTombstone:
		r.id = uint64(vx.Choice(tag+" tombstone", ids))
		return r
	case reset:
		return r
	}
	r.id = far[vx.Choice(tag+" id", ids)]
	switch r.kind {
	case addNode, addLink, addLinks, replaceLinks, clearAt:
		r.level = vx.Choice(tag+" level", maxlvl+1)
	}
	n := 0
	switch r.kind {
	case addLink:
		n = 1
	case addLinks:
		n = 2
	case replaceLinks:
		n = 2 * vx.Choice(tag+" links", 2)
	}
	for i := 0; i < n; i++ {
		r.targets = append(r.targets, vx.U64(tag+" target"))
	}
	return r
}

func mk[T interface{}](s []*T) *T { return new(T) }

type log interface {
	SetEntryPointWithMaxLayer(id uint64, level int) error
	AddLinkAtLevel(id uint64, level int, target uint64) error
	ReplaceLinksAtLevel(id uint64, level int, targets []uint64) error
	AddTombstone(id uint64) error
	RemoveTombstone(id uint64) error
	ClearLinks(id uint64) error
	ClearLinksAtLevel(id uint64, level uint16) error
	DeleteNode(id uint64) error
	Reset() error
	Flush() error
}

func write(l log, r rec, node func(id uint64, level int) error) {
	var err error
	switch r.kind {
	case addNode:
		err = node(r.id, r.level)
	case setEntry:
		err = l.SetEntryPointWithMaxLayer(r.id, r.level)
	case addLink, addLinks:
		for _, t := range r.targets {
			if e := l.AddLinkAtLevel(r.id, r.level, t); e != nil {
				err = e
			}
		}
	case replaceLinks:
		err = l.ReplaceLinksAtLevel(r.id, r.level, r.targets)
	case addTombstone:
		err = l.AddTombstone(r.id)
	case removeTombstone:
		err = l.RemoveTombstone(r.id)
	case clearLinks:
		err = l.ClearLinks(r.id)
	case clearAt:
		err = l.ClearLinksAtLevel(r.id, uint16(r.level))
	case deleteNode:
		err = l.DeleteNode(r.id)
	case reset:
		err = l.Reset()
	}
	vx.Assert(err == nil, "a record can be written")
}

// size is the length of a record in the log as it is written.
func size(r rec) int {
	switch r.kind {
	case addNode, setEntry, clearAt:
		return 11
	case addLink, addLinks:
		return 19 * len(r.targets)
	case replaceLinks:
		return 13 + 8*len(r.targets)
	case reset:
		return 1
	}
	return 9
}

// ticker runs a maintenance cycle when it is told to.
type ticker struct {
	c    chan time.Time
	done chan bool
}

func newTicker() *ticker { return &ticker{c: make(chan time.Time), done: make(chan bool)} }

func (t *ticker) Start()               {}
func (t *ticker) Stop()                {}
func (t *ticker) C() <-chan time.Time  { return t.c }
func (t *ticker) CycleExecuted(b bool) { t.done <- b }
func (t *ticker) run() bool            { t.c <- time.Time{}; return <-t.done }

// before is a small graph every log starts from.
func before() []rec {
	rs := []rec{
		{kind: addNode, id: 0, level: 1},
		{kind: setEntry, id: 0, level: 1},
		{kind: addNode, id: 1},
		{kind: addLink, id: 1, targets: []uint64{0}},
		{kind: addLink, id: 0, targets: []uint64{1}},
		{kind: replaceLinks, id: 0, level: 1, targets: []uint64{5, 6}},
		{kind: addTombstone, id: 1},
	}
	if vx.Param("big", 0) == 1 {
		// many nodes, layers and links, more than any buffer holds
		var many []uint64
		for i := uint64(0); i < 700; i++ {
			many = append(many, i*i)
		}
		rs = append(rs, rec{kind: addNode, id: 40, level: 12}, rec{kind: replaceLinks, id: 40, level: 12, targets: many},
			rec{kind: replaceLinks, id: 40, targets: many[:255]}, rec{kind: replaceLinks, id: 40, level: 1, targets: many[:256]},
			rec{kind: replaceLinks, id: 40, level: 2, targets: many[:5]})
		for i := uint64(50); i < 120; i++ {
			rs = append(rs, rec{kind: addNode, id: i, level: int(i % 3)}, rec{kind: addLink, id: i, level: int(i % 3), targets: []uint64{i - 1}},
				rec{kind: addLink, id: i, targets: []uint64{40}}, rec{kind: addTombstone, id: i + 1000})
		}
	}
	return rs
}

func quiet() logrus.FieldLogger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return l
}

func all() []int {
	var ks []int
	for i := 0; i < kinds; i++ {
		ks = append(ks, i)
	}
	return ks
}

func scratch() string {
	d, err := os.MkdirTemp("", "verif-log-*")
	vx.Assert(err == nil, "scratch directory")
	return d
}

// Read: records written by the logger and flushed are read back, whole, in
// two parts, or cut off at any byte of the last one.
func Read() {
	k := vx.Param("k", 2)
	ids := vx.Param("ids", 2)
	root := scratch()
	defer os.RemoveAll(root)
	l, err := h.NewCommitLogger(root, "main", quiet(), h.WithCommitlogCycleTicker(func() cyclemanager.CycleTicker { return newTicker() }))
	vx.Assert(err == nil, "a log can be opened")
	var rs []rec
	if vx.Param("pre", 1) == 1 {
		rs = before()
	}
	for i := 0; i < k; i++ {
		rs = append(rs, any(fmt.Sprintf("record %d", i), all(), ids, 1))
	}
	total := 0
	for _, r := range rs {
		write(l, r, func(id uint64, level int) error {
			v := mk((&h.DeserializationResult{}).Nodes)
			v.Id, v.Level = id, level
			return l.AddNode(v)
		})
		total += size(r)
	}
	vx.Assert(l.Flush() == nil, "a log can be flushed")
	dir := root + "/main.hnsw.commitlog.d"
	names := list(dir)
	vx.Assert(len(names) == 1, "there is one log file")
	data, err := os.ReadFile(names[0])
	vx.Assert(err == nil, "the log file can be read")
	vx.Assert(len(data) == total, "everything flushed is in the file")

	last := rs[len(rs)-1]
	switch vx.Choice("how", 3) {
	case 0: // whole
		res, n, err := h.NewDeserializer(quiet()).Do(bufio.NewReader(bytes.NewReader(data)), nil, vx.Choice("keep", 2) == 1)
		vx.Assert(err == nil, "a complete log is read without an error")
		vx.Assert(n == total, "all bytes of a complete log are valid")
		same(describe(rs), res, "whole log")
	case 1: // in two parts
		cut := total - size(last)
		first, n, err := h.NewDeserializer(quiet()).Do(bufio.NewReader(bytes.NewReader(data[:cut])), nil, false)
		vx.Assert(err == nil && n == cut, "the first log is read without an error")
		same(describe(rs[:len(rs)-1]), first, "first log")
		res, n, err := h.NewDeserializer(quiet()).Do(bufio.NewReader(bytes.NewReader(data[cut:])), first, false)
		vx.Assert(err == nil && n == total-cut, "the second log is read without an error")
		same(describe(rs), res, "second log")
	case 2: // cut off
		if last.kind == addLinks {
			last.targets = last.targets[1:]
			rs[len(rs)-1].targets = rs[len(rs)-1].targets[:1]
			rs = append(rs, last)
		}
		sz := size(last)
		if sz < 2 {
			break
		}
		cut := total - sz + 1 + vx.Choice("cut", sz-1)
		res, n, err := h.NewDeserializer(quiet()).Do(bufio.NewReader(bytes.NewReader(data[:cut])), nil, false)
		vx.Assert(err != nil, "a log that was cut off is noticed")
		vx.Assert(n == total-sz, "the valid part of a log that was cut off ends with its last complete record")
		vx.Assert(res != nil, "what was read of a log that was cut off is returned")
		same(describe(rs[:len(rs)-1]), res, "cut off log")
	}
	vx.Cover("read back")
}

// Switch: a log that goes on in other files, is opened again and is maintained
// in between reads back to the state all its records describe.
func Switch() {
	steps := vx.Param("steps", 3)
	ids := vx.Param("ids", 2)
	root := scratch()
	defer os.RemoveAll(root)
	dir := root + "/main.hnsw.commitlog.d"
	var ts []*ticker
	open := func() log {
		ts = nil
		l, err := h.NewCommitLogger(root, "main", quiet(), h.WithCommitlogCycleTicker(func() cyclemanager.CycleTicker {
			t := newTicker()
			ts = append(ts, t)
			return t
		}), h.WithCommitlogThreshold(int64(vx.Param("single", 60))), h.WithCommitlogThresholdForCombining(int64(vx.Param("combining", 1000))))
		vx.Assert(err == nil, "a log can be opened")
		return l
	}
	type logger interface {
		log
		SwitchCommitLogs(bool) error
		Shutdown(context.Context) error
	}
	l := open().(logger)
	var rs []rec
	add := func(r rec) {
		rs = append(rs, r)
		write(l, r, func(id uint64, level int) error {
			v := mk((&h.DeserializationResult{}).Nodes)
			v.Id, v.Level = id, level
			return addTo(l, v)
		})
	}
	for _, r := range before() {
		add(r)
	}
	vx.Assert(l.Flush() == nil, "a log can be flushed")
	for i := 0; i < steps; i++ {
		switch vx.Choice("step", 4) {
		case 0:
			vf.NextSecond()
			vx.Assert(l.SwitchCommitLogs(true) == nil, "a log can go on in another file")
		case 1:
			vf.NextSecond()
			for _, t := range ts {
				t.run()
			}
		case 2:
			vx.Assert(l.Flush() == nil && l.Shutdown(context.Background()) == nil, "a log can be closed")
			l = open().(logger)
		case 3:
		}
		r := any(fmt.Sprintf("record %d", i), []int{addLink, replaceLinks, addTombstone, removeTombstone, deleteNode}, ids, 1)
		add(r)
		add(rec{kind: addNode, id: uint64(10 + i), level: 1})
		vx.Assert(l.Flush() == nil, "a log can be flushed")
		if vx.Param("each", 0) == 1 {
			same(describe(rs), readAll(dir), "log while it is used")
		}
	}
	vf.NextSecond()
	for i := 0; i < 3; i++ {
		for _, t := range ts {
			t.run()
		}
		same(describe(rs), readAll(dir), "log after maintenance")
	}
	vx.Assert(l.Shutdown(context.Background()) == nil, "a log can be closed")
	same(describe(rs), readAll(dir), "log after it was closed")
	vx.Cover("switched")
}

// addTo calls AddNode, whose parameter has a type that cannot be named here.
func addTo[V interface{}](l interface{}, v *V) error {
	return l.(interface{ AddNode(*V) error }).AddNode(v)
}

// PQ: the record of a product quantizer is read back, whole or cut off, and
// survives condensing.
func PQ() {
	root := scratch()
	defer os.RemoveAll(root)
	dir := root + "/main.hnsw.commitlog.d"
	vx.Assert(os.MkdirAll(dir, 0o777) == nil, "log directory")
	d := ssdhelpers.PQData{Dimensions: 4, M: uint16(1 + vx.Choice("segments", 2)), Ks: uint16(2 + vx.Choice("centroids", 2)),
		EncoderDistribution: byte(vx.Choice("distribution", 2)), UseBitsEncoding: vx.Bool("bits")}
	size := 10
	if vx.Choice("encoder", 2) == 0 {
		d.EncoderType = ssdhelpers.UseKMeansEncoder
		for i := 0; i < int(d.M); i++ {
			var cs [][]float32
			for k := 0; k < int(d.Ks); k++ {
				var c []float32
				for j := 0; j < 4/int(d.M); j++ {
					c = append(c, number(fmt.Sprint("center ", i, k, j)))
				}
				cs = append(cs, c)
			}
			d.Encoders = append(d.Encoders, ssdhelpers.NewKMeansWithCenters(int(d.Ks), 4/int(d.M), i, cs))
		}
		size += 4 * 4 * int(d.Ks)
	} else {
		d.EncoderType = ssdhelpers.UseTileEncoder
		for i := 0; i < int(d.M); i++ {
			var f [6]float64
			for j := range f {
				f[j] = float64(number(fmt.Sprint("tile ", i, j)))
			}
			d.Encoders = append(d.Encoders, ssdhelpers.RestoreTileEncoder(f[0], f[1], f[2], f[3], f[4], f[5], uint16(i), d.EncoderDistribution))
		}
		size += 51 * int(d.M)
	}
	l := commitlog.NewLogger(dir + "/1000")
	vx.Assert(l.AddPQ(d) == nil && l.Close() == nil, "a product quantizer can be written")
	put(dir+"/1001", []rec{{kind: addNode, id: 3}})
	data, err := os.ReadFile(dir + "/1000")
	vx.Assert(err == nil && len(data) == size, "a product quantizer is in the log")
	cut := vx.Choice("cut", 8)
	switch cut {
	case 6:
		cut = size/2 + 1
	case 7:
		cut = size - 1
	}
	if cut > 0 {
		res, n, err := h.NewDeserializer(quiet()).Do(bufio.NewReader(bytes.NewReader(data[:cut])), nil, false)
		vx.Assert(err != nil && n == 0, "a cut off product quantizer is noticed")
		vx.Assert(!res.Compressed, "a cut off product quantizer is not used")
		vx.Cover("cut off")
		return
	}
	both := append(append([]byte(nil), data...), 4, 9, 0, 0, 0, 0, 0, 0, 0)
	res, n, err := h.NewDeserializer(quiet()).Do(bufio.NewReader(bytes.NewReader(both)), nil, false)
	vx.Assert(err == nil && n == size+9, "all bytes of a log with a product quantizer are valid")
	samePQ(d, res, "log as written")
	_, ok := res.Tombstones[9]
	vx.Assert(ok, "a record after a product quantizer is read")
	res, _, err = h.NewDeserializer(quiet()).Do(bufio.NewReader(bytes.NewReader(both[:size+4])), nil, false)
	vx.Assert(err != nil, "a cut off record after a product quantizer is noticed")
	samePQ(d, res, "log cut off after a product quantizer")
	for i := 0; i < 2; i++ {
		vx.Assert(maintain(root, dir) == nil, "logs can be condensed and combined")
		samePQ(d, readAll(dir), "log condensed")
	}
	vx.Cover("read back")
}

func number(tag string) float32 {
	f := vx.F32(tag)
	vx.Assume(f > -1000 && f < 1000)
	return f
}

func samePQ(d ssdhelpers.PQData, res *h.DeserializationResult, what string) {
	r := res.PQData
	vx.Assert(res.Compressed, what+": the index is compressed")
	vx.Assert(r.Dimensions == d.Dimensions && r.M == d.M && r.Ks == d.Ks, what+": the sizes of the product quantizer are the same")
	vx.Assert(r.EncoderType == d.EncoderType && r.EncoderDistribution == d.EncoderDistribution && r.UseBitsEncoding == d.UseBitsEncoding, what+": the kind of the product quantizer is the same")
	vx.Assert(len(r.Encoders) == len(d.Encoders), what+": the product quantizer has all its segments")
	for i := range r.Encoders {
		a, b := d.Encoders[i].ExposeDataForRestore(), r.Encoders[i].ExposeDataForRestore()
		vx.Assert(len(a) == len(b), what+": a segment of the product quantizer has its size")
		for j := range a {
			vx.Assert(a[j] == b[j], what+": a segment of the product quantizer is the same")
		}
	}
}

// list gives the log files of a directory in the order they are read in,
// leaving out files that were still being made.
func list(dir string) []string {
	es, err := os.ReadDir(dir)
	vx.Assert(err == nil, "the log directory can be listed")
	var out []string
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".tmp") {
			out = append(out, dir+"/"+e.Name())
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return stamp(out[i]) < stamp(out[j]) })
	return out
}

func stamp(name string) int {
	name = name[strings.LastIndex(name, "/")+1:]
	n, err := strconv.Atoi(strings.TrimSuffix(name, ".condensed"))
	vx.Assert(err == nil, "a log file is named by its time")
	return n
}

// readAll does what a start does: drop what was left unfinished, then read
// all logs in order.
func readAll(dir string) *h.DeserializationResult {
	names, err := h.NewCorruptedCommitLogFixer(quiet()).Do(list(dir))
	vx.Assert(err == nil, "leftovers can be removed")
	var res *h.DeserializationResult
	for _, n := range names {
		data, err := os.ReadFile(n)
		vx.Assert(err == nil, "a log file can be read")
		res, _, err = h.NewDeserializer(quiet()).Do(bufio.NewReader(bytes.NewReader(data)), res, false)
		vx.Assert(err == nil, "every log is complete")
	}
	return res
}

func put(name string, rs []rec) {
	l := commitlog.NewLogger(name)
	for _, r := range rs {
		if r.kind == addLinks {
			vx.Assert(l.AddLinksAtLevel(r.id, r.level, r.targets) == nil, "a record can be written")
			continue
		}
		write(l, r, l.AddNode)
	}
	vx.Assert(l.Close() == nil, "a log can be closed")
}

// maintain condenses every log but the newest and combines what is condensed.
func maintain(root, dir string) error {
	names := list(dir)
	for i, n := range names {
		if i == len(names)-1 || strings.HasSuffix(n, ".condensed") {
			continue
		}
		if err := h.NewMemoryCondensor(quiet()).Do(n); err != nil {
			return err
		}
	}
	if vx.Param("combine", 1) == 1 {
		_, err := h.NewCommitLogCombiner(root, "main", int64(vx.Param("threshold", 100000)), quiet()).Do()
		return err
	}
	return nil
}

// Condense: logs that are condensed and combined read back to the same state,
// also when that is interrupted at any file operation.
func Condense() {
	k := vx.Param("k", 2)
	ids := vx.Param("ids", 2)
	crash := vx.Param("crash", 0)
	root := scratch()
	defer os.RemoveAll(root)
	dir := root + "/main.hnsw.commitlog.d"
	vx.Assert(os.MkdirAll(dir, 0o777) == nil, "log directory")
	ks := all()
	if m := vx.Param("kinds", 0); m != 0 {
		ks = nil
		for i := 0; i < kinds; i++ {
			if m&(1<<i) != 0 {
				ks = append(ks, i)
			}
		}
	}
	a := before()
	var b, c []rec
	for i := 0; i < k; i++ {
		r := any(fmt.Sprintf("record %d", i), ks, ids, 1)
		if r.kind == addNode && describe(a, b).nodes[r.id] != nil {
			// a node is added once, or again after it was deleted
			vx.Assume(false)
		}
		b = append(b, r)
	}
	c = []rec{{kind: addNode, id: 3}, {kind: addLink, id: 3, targets: []uint64{0}}}
	put(dir+"/1000", a)
	put(dir+"/1001", b)
	put(dir+"/1002", c)
	want := describe(a, b, c)
	same(want, readAll(dir), "logs as written")

	if crash > 0 {
		at := vx.Choice("crash", crash)
		if !vx.Symbolic() {
			vf.Native()
		}
		n := 0
		renamed := false
		repeated := false
		vf.Step = func(op, name string, size int) int {
			n++
			if n-1 != at {
				renamed = op == "rename" || renamed
				return -1
			}
			if size == 0 {
				if op == "remove" && renamed {
					// the second source of a combined log is still there, and is
					// read after the combined log (K6)
					repeated = vx.Param("strict", 0) == 0
				}
				return 0
			}
			return vx.Choice("written", 3) * size / 2
		}
		crashed := func() (crashed bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(vf.Crash); !ok {
						panic(r)
					}
					crashed = true
				}
			}()
			vx.Assert(maintain(root, dir) == nil, "logs can be condensed and combined")
			return false
		}()
		vf.Step = nil
		if !crashed {
			vx.Assert(at >= n, "every operation is reached")
			vx.Cover("not interrupted")
		}
		alike(want, readAll(dir), "logs after an interruption", repeated)
		vx.Assert(maintain(root, dir) == nil, "logs can be condensed and combined")
		alike(want, readAll(dir), "logs condensed and combined after an interruption", repeated)
		vx.Cover("interrupted")
		return
	}
	vx.Assert(maintain(root, dir) == nil, "logs can be condensed and combined")
	same(want, readAll(dir), "logs condensed and combined")
	vx.Assert(maintain(root, dir) == nil, "logs can be condensed and combined again")
	same(want, readAll(dir), "logs condensed and combined again")
	vx.Cover("condensed")
}

// Twice (K6): an interruption after a combined log has its final name and
// before its sources are removed.
func Twice() {
	root := scratch()
	defer os.RemoveAll(root)
	dir := root + "/main.hnsw.commitlog.d"
	vx.Assert(os.MkdirAll(dir, 0o777) == nil, "log directory")
	a := before()
	b := []rec{{kind: addLink, id: 1, targets: []uint64{vx.U64("target")}}}
	c := []rec{{kind: addNode, id: 3}}
	put(dir+"/1000", a)
	put(dir+"/1001", b)
	put(dir+"/1002", c)
	if !vx.Symbolic() {
		vf.Native()
	}
	renamed := false
	vf.Step = func(op, name string, size int) int {
		if op == "remove" && renamed {
			return 0
		}
		renamed = renamed || op == "rename"
		return -1
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(vf.Crash); !ok {
					panic(r)
				}
			}
		}()
		maintain(root, dir)
	}()
	vf.Step = nil
	n := readAll(dir).Nodes[1]
	vx.Cover("interrupted")
	vx.Assert(n != nil && len(n.Connections[0]) == 2, "a link is read once after an interruption of combining")
}
