package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"

	"github.com/fairDataSociety/FaVe/pkg/document"
	h "github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
	wd "github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
)

func check(ok bool, f string, a ...any) {
	if !ok {
		fmt.Printf("BROKEN: "+f+"\n", a...)
		os.Exit(1)
	}
}

func must(err error) {
	if err != nil {
		fmt.Println("BROKEN: unexpected error:", err)
		os.Exit(1)
	}
}

// line: one-dimensional vectors, distance |x-y|
type line struct{}
type lineD struct{ a []float32 }

func (line) d(a, b []float32) (float32, bool, error) {
	if len(a) != 1 || len(b) != 1 {
		return 0, false, fmt.Errorf("sizes differ")
	}
	return float32(math.Abs(float64(a[0] - b[0]))), true, nil
}
func (l lineD) Distance(v []float32) (float32, bool, error)    { return line{}.d(l.a, v) }
func (line) New(v []float32) wd.Distancer                      { return lineD{v} }
func (line) SingleDist(a, b []float32) (float32, bool, error)  { return line{}.d(a, b) }
func (line) Step(x, y []float32) float32                       { return 0 }
func (line) Wrap(x float32) float32                            { return x }
func (line) Type() string                                      { return "line" }

type Index interface {
	Add(id uint64, vector []float32) error
	Flush(docCount uint64) error
	GetDocCount() (uint64, error)
	LoadEntrypoint() error
	KnnSearchByVectorMaxDist(query []float32, dist float32, ef int, allowList helpers.AllowList) ([]uint64, []float32, error)
	SearchByVector(vector []float32, k int, allowList helpers.AllowList) ([]uint64, []float32, error)
	SearchByVectorDistance(query []float32, targetDistance float32, maxLimit int64, allowList helpers.AllowList) ([]uint64, []float32, error)
	Delete(ids ...uint64) error
}

// level makes the next inserts draw this level
func level(m, l int) {
	u := math.Pow(float64(m), -(float64(l) + 0.5))
	rand.VerifFloat64 = func() float64 { return u }
}

const class = "fave_demo"

// open gives an index over the storage, as a process start does
func open(st *collection.Storage, m int, p wd.Provider, uc func(*h.UserConfig)) Index {
	kv := collection.NewKV(st)
	if err := kv.CreateKVTable(class, "", collection.StringIndex); err != nil && err != collection.ErrKvTableAlreadyPresent {
		panic(err)
	}
	if err := kv.OpenKVTable(class, ""); err != nil {
		panic(err)
	}
	c := h.UserConfig{MaxConnections: m, EFConstruction: 60, VectorCacheMaxObjects: 1000000}
	if uc != nil {
		uc(&c)
	}
	x, err := h.New(h.Config{RootPath: "none", ID: "none", MakeCommitLoggerThunk: h.MakeNoopCommitLogger, DistanceProvider: p, ClassName: class,
		VectorForIDThunk: func(ctx context.Context, id uint64) ([]float32, error) { return nil, fmt.Errorf("unknown") }}, c, kv)
	if err != nil {
		panic(err)
	}
	return x
}

func client(w *dfs.World) *document.Client {
	c, err := document.New(document.Config{}, dfs.NewStub(w))
	must(err)
	must(c.Login("u", "p"))
	must(c.OpenPod("pod"))
	return c
}

func create(c *document.Client, name string) {
	must(c.CreateCollection(&document.Collection{Name: name, Indexes: map[string]collection.IndexType{}}))
}

func doc(id string, v ...float32) *document.Document {
	p := map[string]interface{}{"name": "n" + id}
	if len(v) > 0 {
		p["vector"] = v
	}
	return &document.Document{ID: id, Properties: p}
}

func idOf(b []byte) string {
	var r struct {
		ID string `json:"id"`
	}
	must(json.Unmarshal(b, &r))
	return r.ID
}

func near(c *document.Client, col string, q []float32, thr float32, limit int) []string {
	raw, _, err := c.GetNearDocumentsByVector(col, q, thr, limit)
	must(err)
	r := []string{}
	for _, b := range raw {
		r = append(r, idOf(b))
	}
	return r
}

var _ = collection.NewStorage
