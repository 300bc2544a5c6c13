// Package dx drives the document client over the storage stand-in.
package dx

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/zz_verif/hx"
	"github.com/fairDataSociety/FaVe/zz_verif/vh"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
)

// Palette: directions in the plane, pairwise clearly apart except for the
// first two pairs (a duplicate direction with another length, a near one).
var Palette = [][]float32{
	{0.50037, 0.01771}, {0, 1}, {-1, 0}, {1.50111, 0.05313}, {0.6, 0.8}, {0.8, -0.6}, {-0.28, 0.96}, {5, 0.5},
}

// Cos is the cosine distance, computed independently in double precision.
func Cos(a, b []float32) float64 {
	var ab, aa, bb float64
	for i := range a {
		ab += float64(a[i]) * float64(b[i])
		aa += float64(a[i]) * float64(a[i])
		bb += float64(b[i]) * float64(b[i])
	}
	return 1 - ab/math.Sqrt(aa*bb)
}

const Eps = 1e-5

// C is a running service over a world of remote storage.
type C struct {
	W   *dfs.World
	Cl  *document.Client
	Vec bool // a vectorizer is configured
	// Texts: what the vectorizer answers, by text, or else by text with
	// surrounding space removed
	Texts map[string][]float32
	Calls int
	// VecStatus is the vectorizer's answer status
	VecStatus int
	VecErr    error
	// VecBody is its answer instead of the vector
	VecBody []byte
	// Sched: near searches explore the orders in which their goroutines run
	Sched bool
	// Before runs before vectorizer call number k
	Before func(k int)
}

func New(vec bool) *C {
	c := &C{W: dfs.NewWorld(), Vec: vec, Texts: map[string][]float32{}, VecStatus: 200}
	collection.Jitter = vx.Jitter
	hx.Level(30, 0)
	c.Restart()
	return c
}

// Start gives a client that has not logged in.
func (c *C) Start() {
	url := ""
	if c.Vec {
		url = "http://vectorizer"
		vh.Hook = c.Http
	}
	cl, err := document.New(document.Config{VectorizerUrl: url}, dfs.NewStub(c.W))
	if err != nil {
		panic(err)
	}
	c.Cl = cl
}

// Restart is a new process over the same remote storage.
func (c *C) Restart() {
	c.Start()
	if err := c.Cl.Login("u", "p"); err != nil {
		panic(err)
	}
	if err := c.Cl.OpenPod("pod"); err != nil {
		panic(err)
	}
}

// Http is the vectorizer's end.
func (c *C) Http(method, url string, body []byte) (int, []byte, error) {
	if method == "GET" {
		return 200, nil, nil
	}
	if c.Before != nil {
		c.Before(c.Calls)
	}
	c.Calls++
	if c.VecErr != nil {
		return 0, nil, c.VecErr
	}
	if c.VecBody != nil {
		return c.VecStatus, c.VecBody, nil
	}
	var q struct {
		Query []string `json:"query"`
	}
	if err := json.Unmarshal(body, &q); err != nil {
		return 400, nil, nil
	}
	v, ok := c.Texts[strings.Join(q.Query, " ")]
	if !ok {
		v, ok = c.Texts[strings.TrimSpace(strings.Join(q.Query, " "))]
	}
	if !ok {
		v = []float32{1, 1}
	}
	b, _ := json.Marshal(map[string][]float32{"vector": v})
	return c.VecStatus, b, nil
}

func (c *C) Create(name string) error {
	return c.Cl.CreateCollection(&document.Collection{Name: name, Indexes: map[string]collection.IndexType{}})
}

// Doc is one document as the harness knows it.
type Doc struct {
	ID  string
	Vec []float32
}

// Iface is the vector as it arrives from the JSON binding.
func Iface(v []float32) []interface{} {
	r := make([]interface{}, len(v))
	for i := range v {
		r[i] = float64(v[i])
	}
	return r
}

func Make(id string, v []float32) *document.Document {
	p := Props(id)
	if v != nil {
		p["vector"] = Iface(v)
	}
	return &document.Document{ID: id, Properties: p}
}

// Props are the properties of a document: a value of every JSON type.
func Props(id string) map[string]interface{} {
	return map[string]interface{}{
		"id": "not " + id, "name": "n" + id, "num": float64(len(id)) + 0.5, "yes": true, "none": nil,
		"tags": []interface{}{"x", id, float64(-3)}, "sub": map[string]interface{}{"of": id, "Z": ""},
	}
}

// Whole: a returned document has its own properties, all of them.
func Whole(b []byte, id string) {
	p := map[string]interface{}{}
	vx.Assert(json.Unmarshal(b, &p) == nil, "a returned document is valid JSON")
	WholeProps(p, id)
}

// WholeProps is Whole for properties already parsed.
func WholeProps(p map[string]interface{}, id string) {
	none, has := p["none"]
	tags, _ := p["tags"].([]interface{})
	sub, _ := p["sub"].(map[string]interface{})
	vx.Assert(p["name"] == "n"+id && p["num"] == float64(len(id))+0.5 && p["yes"] == true && has && none == nil &&
		len(tags) == 3 && tags[0] == "x" && tags[1] == id && tags[2] == float64(-3) &&
		len(sub) == 2 && sub["of"] == id && sub["Z"] == "", "a returned document has its own properties")
}

// Row is what callers look at in a returned document.
type Row struct {
	ID   string `json:"id"`
	Name string `json:"name"`
	Hnsw *int64 `json:"hnswId"`
}

func Parse(b []byte) Row {
	var r Row
	if err := json.Unmarshal(b, &r); err != nil {
		vx.Assert(false, "a returned document is valid JSON")
	}
	return r
}

// CheckNear runs a near search for q and compares with the documents that
// should be there.
func (c *C) CheckNear(col string, docs []Doc, q []float32, thr float32, limit int) {
	vx.Schedules(c.Sched)
	raw, dists, err := c.Cl.GetNearDocumentsByVector(col, q, thr, limit)
	vx.Schedules(false)
	if err != nil {
		vx.Note(err.Error())
	}
	vx.Assert(err == nil, "near search succeeds")
	CheckResult(docs, raw, dists, q, thr, limit)
}

func CheckResult(docs []Doc, raw [][]byte, dists []float32, q []float32, thr float32, limit int) {
	vx.Assert(len(raw) == len(dists), "every returned document has a distance")
	if limit > 0 {
		vx.Assert(len(raw) <= limit, "at most limit documents are returned")
	}
	got := map[string]bool{}
	worst := float32(math.Inf(-1))
	for i := range raw {
		r := Parse(raw[i])
		var d *Doc
		for j := range docs {
			if docs[j].ID == r.ID {
				d = &docs[j]
			}
		}
		vx.Assert(d != nil && d.Vec != nil, "a returned document was added with a vector")
		vx.Assert(!got[r.ID], "no document is returned twice")
		got[r.ID] = true
		Whole(raw[i], r.ID)
		vx.Assert(math.Abs(float64(dists[i])-Cos(d.Vec, q)) <= Eps, "the distance belongs to the returned document")
		vx.Assert(dists[i] <= thr, "a returned document lies within the distance")
		if i > 0 {
			vx.Assert(dists[i-1] <= dists[i], "results come nearest first")
		}
		worst = dists[i]
	}
	full := limit > 0 && len(raw) == limit
	for _, d := range docs {
		if d.Vec == nil || got[d.ID] {
			continue
		}
		t := Cos(d.Vec, q)
		if full {
			vx.Assert(t >= float64(worst)-Eps, "a document left out by the limit is not nearer than those returned")
		} else {
			vx.Assert(thr <= float32(t+Eps), "every document within the distance is returned")
		}
	}
}

// Fault is a scheduled storage failure.
type Fault struct {
	N    int    // operations of the kinds counted so far
	Op   string // what failed first, "" if nothing
	Puts int    // documents put successfully before the failure
}

// FailAt makes storage operation number k (0-based, counted over the kinds
// given) fail, and every later one too when sticky (the process is dying).
func FailAt(k int, sticky bool, kinds ...string) *Fault {
	f := &Fault{}
	collection.Fault = func(op, name, key string) error {
		for _, x := range kinds {
			if op == x {
				f.N++
				if f.N-1 == k || sticky && f.N-1 > k {
					if f.Op == "" {
						f.Op = op
					}
					return errors.New("storage unavailable")
				}
				if op == "docput" && f.Op == "" {
					f.Puts++
				}
			}
		}
		return nil
	}
	return f
}

func NoFault() { collection.Fault = nil }

func ID(i int) string { return fmt.Sprintf("d%d", i) }
