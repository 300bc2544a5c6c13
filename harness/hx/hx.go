// Package hx holds what the harnesses share: an index over the storage
// stand-in, a distance provider with solver-chosen distances, and control of
// the random level source.
package hx

import (
	"context"
	"fmt"
	"math"
	"math/rand"

	h "github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
	wd "github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
	"github.com/weaviate/weaviate/entities/cyclemanager"
)

// Index is the part of the index the harnesses use (the constructor returns an
// unexported type).
type Index interface {
	Add(id uint64, vector []float32) error
	Flush(docCount uint64) error
	GetDocCount() (uint64, error)
	LoadEntrypoint() error
	KnnSearchByVectorMaxDist(query []float32, dist float32, ef int, allowList helpers.AllowList) ([]uint64, []float32, error)
	SearchByVector(vector []float32, k int, allowList helpers.AllowList) ([]uint64, []float32, error)
	SearchByVectorDistance(query []float32, targetDistance float32, maxLimit int64, allowList helpers.AllowList) ([]uint64, []float32, error)
	Entrypoint() uint64
	Delete(ids ...uint64) error
	CleanUpTombstonedNodes(shouldBreak cyclemanager.ShouldBreakFunc) error
	ValidateBeforeInsert(vector []float32) error
}

// Table is a distance provider over vectors [tag, some component]; the
// distance between tags a and b is D[a][b], any symmetric non-negative table.
type Table struct {
	D     [][]float32
	Calls int
}

// NewTable makes an n-point table of symbolic distances in [0,hi].
func NewTable(n int, hi float32) *Table { return NewTableLo(n, 0, hi) }

// NewTableLo is NewTable over [lo,hi].
func NewTableLo(n int, lo, hi float32) *Table {
	t := &Table{D: make([][]float32, n)}
	for i := range t.D {
		t.D[i] = make([]float32, n)
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			d := vx.F32(fmt.Sprintf("d%d_%d", i, j))
			vx.Assume(vx.And(d >= lo, d <= hi))
			t.D[i][j], t.D[j][i] = d, d
		}
	}
	return t
}

// NewTableTail is a table over [0,hi] of n points where only the distances to
// the last k points are symbolic; the others are fixed and all different.
// With shape 1 they are all equal instead, with shape 2 all points are close to
// point 0 and far from each other. Parameter free: only the distances to that
// many first points are symbolic.
func NewTableTail(n, k int, hi float32, shape int) *Table {
	t := &Table{D: make([][]float32, n)}
	for i := range t.D {
		t.D[i] = make([]float32, n)
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			d := hi/2 + hi*float32((i*7+j*5)%13)/64
			free := vx.Param("free", n)
			switch {
			case shape == 1: // all alike
				d = hi / 2
			case shape == 2 && i == 0: // around point 0
				d = hi/4 + hi*float32(j)/128
			case shape == 2:
				d = hi*0.7 + hi*float32(i*7+j)/512
			}
			if j >= n-k && i < free {
				d = vx.F32(fmt.Sprintf("d%d_%d", i, j))
				vx.Assume(vx.And(d >= 0, d <= hi))
			}
			t.D[i][j], t.D[j][i] = d, d
		}
	}
	return t
}

// Far adds a point with fixed, all different distances to the others and
// returns its vector.
func (t *Table) Far() []float32 {
	n := len(t.D)
	row := make([]float32, n+1)
	for i := range t.D {
		row[i] = 1 + float32(i)/64
		t.D[i] = append(t.D[i], row[i])
	}
	t.D = append(t.D, row)
	return t.Vec(n)
}

// NewTableInt is NewTable over small integer distances 0..k-1.
func NewTableInt(n, k int) *Table {
	t := &Table{D: make([][]float32, n)}
	for i := range t.D {
		t.D[i] = make([]float32, n)
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			d := float32(vx.IntRange(fmt.Sprintf("d%d_%d", i, j), 0, k-1))
			t.D[i][j], t.D[j][i] = d, d
		}
	}
	return t
}

// NewTableGrid has fixed distances between stored points and a choice of k
// values for each distance to the last point (the query).
func NewTableGrid(n, k int) *Table {
	t := &Table{D: make([][]float32, n)}
	for i := range t.D {
		t.D[i] = make([]float32, n)
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			d := float32(1+(i+2*j)%3) / 2
			if j == n-1 {
				d = float32(vx.Choice(fmt.Sprintf("d%d", i), k)) / 2
			}
			t.D[i][j], t.D[j][i] = d, d
		}
	}
	return t
}

// Vec is the vector with that tag: the tag, and a component that keeps its
// value only if nothing is rounded.
func (t *Table) Vec(tag int) []float32 {
	return []float32{float32(tag) + 1, (0.123456789 + float32(tag)) * -1e-5}
}
func (t *Table) dist(a, b []float32) (float32, bool, error) {
	t.Calls++
	if len(a) != 2 || len(b) != 2 {
		return 0, false, fmt.Errorf("bad vector")
	}
	vx.Assert(a[1] == t.Vec(int(a[0]) - 1)[1] && b[1] == t.Vec(int(b[0]) - 1)[1], "distances are those of the vectors that were added")
	return t.D[int(a[0])-1][int(b[0])-1], true, nil
}
func (t *Table) New(v []float32) wd.Distancer { return tableD{t, v} }
func (t *Table) SingleDist(a, b []float32) (float32, bool, error) {
	return t.dist(a, b)
}
func (t *Table) Step(x, y []float32) float32 { panic("step") }
func (t *Table) Wrap(x float32) float32      { return x }
func (t *Table) Type() string                { return "verif-table" }

type tableD struct {
	t *Table
	a []float32
}

func (d tableD) Distance(v []float32) (float32, bool, error) { return d.t.dist(d.a, v) }

// Env is one storage with one index class.
type Env struct {
	St   *collection.Storage
	P    wd.Provider
	M    int
	EFC  int
	Vecs map[uint64][]float32 // what the vector source knows
	UC   func(*h.UserConfig)
}

const Class = "fave_c"

func NewEnv(p wd.Provider, m, efc int) *Env {
	collection.Jitter = vx.Jitter
	e := &Env{St: collection.NewStorage(), P: p, M: m, EFC: efc, Vecs: map[uint64][]float32{}}
	kv := collection.NewKV(e.St)
	if err := kv.CreateKVTable(Class, "", collection.StringIndex); err != nil {
		panic(err)
	}
	return e
}

// Open is what a process start does: a fresh index over the stored table.
func (e *Env) Open() Index {
	kv := collection.NewKV(e.St)
	if err := kv.OpenKVTable(Class, ""); err != nil {
		panic(err)
	}
	uc := h.UserConfig{MaxConnections: e.M, EFConstruction: e.EFC, VectorCacheMaxObjects: 1000000}
	if e.UC != nil {
		e.UC(&uc)
	}
	idx, err := h.New(h.Config{
		RootPath:              "not-used",
		ID:                    "not-used",
		MakeCommitLoggerThunk: h.MakeNoopCommitLogger,
		DistanceProvider:      e.P,
		ClassName:             Class,
		VectorForIDThunk: func(ctx context.Context, id uint64) ([]float32, error) {
			if v, ok := e.Vecs[id]; ok {
				return v, nil
			}
			return nil, fmt.Errorf("document not found")
		},
	}, uc, kv)
	if err != nil {
		panic(err)
	}
	return idx
}

// Level makes the next inserted nodes draw the given level.
func Level(m, lvl int) {
	u := math.Pow(float64(m), -(float64(lvl) + 0.5))
	rand.VerifFloat64 = func() float64 { return u }
}

// ChooseLevel draws a level in 0..max for the next insert.
func ChooseLevel(name string, m, max int) int {
	l := 0
	if max > 0 {
		l = vx.Choice(name, max+1)
	}
	Level(m, l)
	return l
}

// AddAll inserts points 0..n-1 of the table under the given ids.
func AddAll(e *Env, idx Index, t *Table, ids []uint64, maxLvl int) {
	for i, id := range ids {
		ChooseLevel("level", e.M, maxLvl)
		vx.Assert(idx.Add(id, t.Vec(i)) == nil, "adding a vector succeeds")
		e.Vecs[id] = t.Vec(i)
	}
}

// Seq is ids first, first+1, ...
func Seq(first uint64, n int) []uint64 {
	r := make([]uint64, n)
	for i := range r {
		r[i] = first + uint64(i)
	}
	return r
}

// Sound checks a result list of a search for point q: stored ids only, each
// once, with its true distance, nearest first, all within thr and allowed.
// Returns which points came back.
func Sound(t *Table, ids []uint64, q int, thr float32, got []uint64, dists []float32, allowed func(i int) bool) []bool {
	seen := make([]bool, len(ids))
	vx.Assert(len(got) == len(dists), "every result has a distance")
	for i, id := range got {
		k := -1
		for j := range ids {
			if ids[j] == id {
				k = j
			}
		}
		vx.Assert(k >= 0, "a result is a stored vector")
		vx.Assert(!seen[k], "no result appears twice")
		seen[k] = true
		vx.Assert(dists[i] == t.D[k][q], "the reported distance is the distance of that vector to the query")
		vx.Assert(dists[i] <= thr, "a result lies within the distance asked for")
		vx.Assert(allowed == nil || allowed(k), "a result is on the allow list")
		if i > 0 {
			vx.Assert(dists[i-1] <= dists[i], "results come nearest first")
		}
	}
	return seen
}

// Complete checks that every allowed point within thr came back.
func Complete(t *Table, q int, thr float32, seen []bool, allowed func(i int) bool) {
	for i := range seen {
		if !seen[i] && (allowed == nil || allowed(i)) {
			vx.Assert(!(t.D[i][q] <= thr), "every stored vector within the distance is returned")
		}
	}
}

// Line is a distance provider over one-dimensional vectors: |x-y|.
type Line struct{}

func (Line) d(a, b []float32) (float32, bool, error) {
	if len(a) != 1 || len(b) != 1 {
		return 0, false, fmt.Errorf("bad vector")
	}
	x := a[0] - b[0]
	if x < 0 {
		x = -x
	}
	return x, true, nil
}

type lineD struct{ a []float32 }

func (d lineD) Distance(v []float32) (float32, bool, error) { return Line{}.d(d.a, v) }
func (Line) New(v []float32) wd.Distancer                   { return lineD{v} }
func (Line) SingleDist(a, b []float32) (float32, bool, error) {
	return Line{}.d(a, b)
}
func (Line) Step(x, y []float32) float32 { panic("step") }
func (Line) Wrap(x float32) float32      { return x }
func (Line) Type() string                { return "verif-line" }

// Spread gives n distinct positions in a scattered order.
func Spread(n int) []float32 {
	r := make([]float32, n)
	for i := range r {
		r[i] = float32((i * 37) % 101)
	}
	return r
}

// Hub is a metric with one point (zero) close to all others, which are far
// from each other; adding is cheap with it.
type Hub struct{ Line }
type hubD struct{ a []float32 }

func (Hub) dist(a, b []float32) (float32, bool, error) {
	x, y := a[0], b[0]
	switch {
	case x == y:
		return 0, true, nil
	case x == 0 || y == 0:
		return 1 + (x+y)/65536, true, nil
	}
	return 10 + x + y, true, nil
}
func (h Hub) New(v []float32) wd.Distancer                     { return hubD{v} }
func (h Hub) SingleDist(a, b []float32) (float32, bool, error) { return h.dist(a, b) }
func (h hubD) Distance(v []float32) (float32, bool, error)     { return Hub{}.dist(h.a, v) }
