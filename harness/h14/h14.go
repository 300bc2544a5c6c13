// Package h14: the REST handlers, called with bodies as the JSON binding
// delivers them.
package h14

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"os"

	"github.com/fairDataSociety/FaVe/adapters/handlers"
	"github.com/fairDataSociety/FaVe/models"
	"github.com/fairDataSociety/FaVe/restapi/operations"
	"github.com/fairDataSociety/FaVe/zz_verif/dx"
	"github.com/fairDataSociety/FaVe/zz_verif/hx"
	"github.com/fairDataSociety/FaVe/zz_verif/vh"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
	"github.com/go-openapi/runtime/middleware"
	"github.com/go-openapi/strfmt"
)

func start() *handlers.Handler {
	if !vx.Symbolic() {
		for _, k := range []string{"VERBOSE", "BEE_API", "RPC_API", "STAMP_ID", "VECTORIZER_URL", "USER", "PASSWORD", "POD"} {
			os.Unsetenv(k)
		}
	}
	hx.Level(30, 0)
	url = ""
	dfs.Current = dfs.NewWorld()
	return restart()
}

var url string

func restart() *handlers.Handler {
	h, err := handlers.NewHandler(context.Background(), &handlers.HandlerConfig{Username: "u", Password: "p", Pod: "pod", GloveLevelDBUrl: url})
	vx.Assert(err == nil, "the service starts")
	return h
}

type rw struct {
	code int
	body interface{}
	hdr  http.Header
}

func (r *rw) Header() http.Header         { return r.hdr }
func (r *rw) Write(b []byte) (int, error) { return len(b), nil }
func (r *rw) WriteHeader(c int)           { r.code = c }
func (r *rw) Produce(_ io.Writer, v interface{}) error {
	r.body = v
	return nil
}

// send gives status and payload of a response.
func send(r middleware.Responder) (int, interface{}) {
	vx.Assert(r != nil, "every request gets a response")
	w := &rw{hdr: http.Header{}}
	r.WriteResponse(w, w)
	if w.code != 200 {
		e, ok := w.body.(*models.ErrorResponse)
		vx.Assert(ok && w.code >= 400 && w.code < 500 && len(e.Error) > 0 && e.Error[0].Message != "", "a refused request gets a client error with a message")
	}
	return w.code, w.body
}

func create(h *handlers.Handler, name string, ix []*models.Index) int {
	c, _ := send(h.FaveCreateCollectionHandler(operations.FaveCreateCollectionParams{Body: &models.Collection{Name: name, Indexes: ix}}))
	return c
}

func add(h *handlers.Handler, name string, props []string, docs []*models.Document) int {
	c, _ := send(h.FaveAddDocumentsHandler(operations.FaveAddDocumentsParams{Body: &models.AddDocumentsRequest{Name: name, PropertiesToVectorize: props, Documents: docs}}))
	return c
}

func near(h *handlers.Handler, name string, v []float32, thr float32, limit int64) (int, *models.NearestDocumentsResponse) {
	c, b := send(h.FaveGetNearestDocumentsByVectorHandler(operations.FaveGetNearestDocumentsByVectorParams{
		Body: &models.NearestDocumentsByVectorRequest{Name: name, Vector: v, Distance: thr, Limit: limit}}))
	r, _ := b.(*models.NearestDocumentsResponse)
	vx.Assert((r != nil) == (c == 200), "a search is answered with documents or an error")
	return c, r
}

func get(h *handlers.Handler, name, prop, val string) (int, *models.Document) {
	c, b := send(h.GetDocumentsHandlerFunc(operations.FaveGetDocumentsParams{Collection: name, Property: prop, Value: val}))
	r, _ := b.(*models.Document)
	vx.Assert((r != nil) == (c == 200), "a lookup is answered with a document or an error")
	return c, r
}

var uuids = []string{"00000000-0000-4000-8000-000000000000", "00000000-0000-4000-8000-ABCDEFabcdef", "00000000-0000-4000-8000-000000000002"}

// nums is a vector as the JSON consumer delivers it.
func nums(s ...string) []interface{} {
	var r []interface{}
	for _, x := range s {
		r = append(r, json.Number(x))
	}
	return r
}

func fits(h *handlers.Handler, want map[string][]float32, thr float32) {
	q := []float32{1, 0.25}
	lim := vx.Choice("limit", len(want)+1)
	c, r := near(h, "c", q, thr, int64(lim))
	vx.Assert(c == 200, "a valid search succeeds")
	answer(r, want, q, thr, lim)
	for id := range want {
		c, d := get(h, "c", "id", id)
		vx.Assert(c == 200 && string(d.ID) == id, "a stored document can be fetched by id")
		p, ok := d.Properties.(map[string]interface{})
		vx.Assert(ok && p["distance"] == "far", "a fetched document has its own properties")
		dx.WholeProps(p, id)
	}
}

// answer compares what a search answered with the documents there are.
func answer(r *models.NearestDocumentsResponse, want map[string][]float32, q []float32, thr float32, lim int) {
	vx.Assert(r.Name == "c", "the answer names the collection")
	if lim > 0 {
		vx.Assert(len(r.Documents) <= lim, "at most limit documents are returned")
	}
	seen := map[string]bool{}
	last := float32(math.Inf(-1))
	for _, d := range r.Documents {
		v, ok := want[string(d.ID)]
		vx.Assert(ok && v != nil && !seen[string(d.ID)], "a returned document was added, once")
		seen[string(d.ID)] = true
		p, ok := d.Properties.(map[string]interface{})
		vx.Assert(ok, "a returned document has its own properties")
		dx.WholeProps(p, string(d.ID))
		_, has := p["id"]
		vx.Assert(!has, "the id is not repeated among the properties")
		dist, ok := p["distance"].(float32)
		vx.Assert(ok && math.Abs(float64(dist)-dx.Cos(v, q)) <= dx.Eps, "the distance belongs to the returned document")
		vx.Assert(dist <= thr && last <= dist, "documents come nearest first, within the distance")
		last = dist
	}
	for id, v := range want {
		if v != nil && !seen[id] {
			if lim > 0 && len(r.Documents) == lim {
				vx.Assert(dx.Cos(v, q) >= float64(last)-dx.Eps, "a document left out by the limit is not nearer than those returned")
			} else {
				vx.Assert(thr <= float32(dx.Cos(v, q)+dx.Eps), "every document within the distance is returned")
			}
		}
	}
}

func doc(id string, extra map[string]interface{}) *models.Document {
	p := dx.Props(id)
	p["num"] = json.Number(fmt.Sprintf("%d.5", len(id)))
	p["tags"].([]interface{})[2] = json.Number("-3")
	p["distance"] = "far"
	for k, v := range extra {
		p[k] = v
	}
	return &models.Document{ID: strfmt.UUID(id), Properties: p}
}

func index() []*models.Index {
	return []*models.Index{{FieldName: "name", FieldType: "string"}}
}

// Add: a collection with one document; any of these add requests is answered;
// the malformed ones are refused with a client error and change nothing that
// was there, the good ones are found afterwards.
func Add() {
	h := start()
	vx.Assert(create(h, "c", index()) == 200, "a collection is created")
	want := map[string][]float32{uuids[0]: {0, 1}}
	vx.Assert(add(h, "c", []string{}, []*models.Document{doc(uuids[0], map[string]interface{}{"vector": nums("0", "1")})}) == 200, "a document is added")
	name, props := "c", []string{}
	var d *models.Document
	ok, none := false, false
	switch vx.Choice("kind", 22) {
	case 16:
		none = true
	case 18:
		d = doc(uuids[1], map[string]interface{}{"vector": nums("1", "1e400")})
	case 19:
		d = doc(uuids[1], map[string]interface{}{"vector": nums("1e39", "0")})
	case 20:
		d, ok = doc(uuids[1], map[string]interface{}{"vector": nums("-1.2345678e-3", "98765.4321E2")}), true
		want[uuids[1]] = []float32{-0.0012345678, 9876543.21}
	case 21:
		d, ok = doc(uuids[1], map[string]interface{}{"vector": nums("2e25", "-1e25")}), true
		want[uuids[1]] = []float32{2, -1}
	case 17:
		d = doc(uuids[1], map[string]interface{}{"vector": nums("1", "0", "0")})
	case 0:
		d, ok = doc(uuids[1], map[string]interface{}{"vector": nums("0.98765", "0.12345")}), true
		want[uuids[1]] = []float32{0.98765, 0.12345}
	case 1:
		d, ok = doc(uuids[1], map[string]interface{}{"vector": []interface{}{float64(0.6), float32(0.8)}}), true
		want[uuids[1]] = []float32{0.6, 0.8}
	case 2:
		d, ok = doc(uuids[1], nil), true
		want[uuids[1]] = nil
	case 3:
		d = nil
	case 4:
		d = doc(uuids[1], map[string]interface{}{"vector": "x"})
	case 5:
		d = doc(uuids[1], map[string]interface{}{"vector": nums("1", "zz")})
	case 6:
		d = doc(uuids[1], map[string]interface{}{"vector": []interface{}{json.Number("1"), "2"}})
	case 7:
		d = doc(uuids[1], map[string]interface{}{"vector": []interface{}{}})
	case 8:
		d = &models.Document{ID: strfmt.UUID(uuids[1]), Properties: "text"}
	case 9:
		d = &models.Document{ID: strfmt.UUID(uuids[1])}
	case 10:
		d, name = doc(uuids[1], nil), ""
	case 11:
		d, name = doc(uuids[1], nil), "nosuch"
	case 12:
		d, props = doc(uuids[1], nil), nil
	case 13:
		d, props = doc(uuids[1], map[string]interface{}{"t": "text"}), []string{"t"} // no vectorizer
	case 14:
		d = doc("", nil)
	case 15:
		d, props = doc(uuids[1], map[string]interface{}{"t": json.Number("5")}), []string{"t"}
	}
	docs := []*models.Document{d}
	if none {
		docs = nil
	} else if ok && vx.Choice("more", 2) == 1 {
		docs = append(docs, doc(uuids[2], map[string]interface{}{"vector": nums("-1", "0")}))
		want[uuids[2]] = []float32{-1, 0}
	}
	c := add(h, name, props, docs)
	vx.Assert((c == 200) == ok, "valid documents are accepted and malformed requests refused")
	if vx.Choice("restart", 2) == 1 {
		h = restart()
	}
	if !ok && vx.Choice("later", 2) == 1 {
		vx.Assert(add(h, "c", []string{}, []*models.Document{doc(uuids[2], map[string]interface{}{"vector": nums("-1", "0")})}) == 200, "a valid document is added after a refused request")
		want[uuids[2]] = []float32{-1, 0}
	}
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	fits(h, want, thr)
	vx.Cover("done")
}

// Search: any of these searches is answered.
func Search() {
	h := start()
	vx.Assert(create(h, "c", index()) == 200, "a collection is created")
	vx.Assert(create(h, "e", index()) == 200, "a collection is created")
	vx.Assert(add(h, "c", []string{}, []*models.Document{doc(uuids[0], map[string]interface{}{"vector": nums("0", "1")})}) == 200, "a document is added")
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	lim := vx.I64("limit")
	vx.Assume(vx.And(lim >= -3, lim <= 3))
	switch vx.Choice("kind", 10) {
	case 9:
		q := [][]float32{{0.00003, 0.00001}, {1.00004, -0.00002}, {3e20, 1e20}}[vx.Choice("q", 3)]
		c, r := near(h, "c", q, thr, 0)
		vx.Assert(c == 200, "a search is answered")
		t := float32(dx.Cos([]float32{0, 1}, q))
		vx.Assert(len(r.Documents) == 1 || thr < t+dx.Eps, "the document within the distance is returned")
		answer(r, map[string][]float32{uuids[0]: {0, 1}}, q, thr, 0)
	case 0:
		c, r := near(h, "c", []float32{0, 2}, thr, lim)
		vx.Assert((c == 200) == (lim >= 0), "a search with a negative limit is refused, any other answered")
		if c == 200 {
			vx.Assert(len(r.Documents) == 1 || thr < dx.Eps, "the document within the distance is returned")
			vx.Assert(len(r.Documents) == 0 || thr > -dx.Eps, "a document outside the distance is not returned")
			answer(r, map[string][]float32{uuids[0]: {0, 1}}, []float32{0, 2}, thr, int(lim))
		}
	case 1:
		c, _ := near(h, "", []float32{0, 2}, thr, 0)
		vx.Assert(c == 400, "a search without collection is refused")
	case 2:
		c, _ := near(h, "nosuch", []float32{0, 2}, thr, 0)
		vx.Assert(c == 400, "a search in an unknown collection is refused")
	case 3:
		c, _ := near(h, "c", nil, thr, 0)
		vx.Assert(c == 400, "a search without vector is refused")
	case 4:
		c, r := near(h, "e", []float32{0, 2}, thr, 0)
		vx.Assert(c == 200 && len(r.Documents) == 0, "a search in an empty collection finds nothing")
	case 5:
		c, _ := send(h.FaveGetNearestDocumentsHandler(operations.FaveGetNearestDocumentsParams{Body: &models.NearestDocumentsRequest{Name: "c", Text: "t", Distance: thr}}))
		vx.Assert(c == 400, "a text search without vectorizer is refused")
	case 6:
		c, _ := send(h.FaveGetNearestDocumentsHandler(operations.FaveGetNearestDocumentsParams{Body: &models.NearestDocumentsRequest{Name: "c", Distance: thr}}))
		vx.Assert(c == 400, "a text search without text is refused")
		c, _ = send(h.FaveGetNearestDocumentsHandler(operations.FaveGetNearestDocumentsParams{Body: &models.NearestDocumentsRequest{Text: "c", Distance: thr}}))
		vx.Assert(c == 400, "a text search without collection is refused")
	case 7:
		c, _ := near(h, "c", []float32{0, 2, 1}, thr, 0)
		vx.Assert(c == 400, "a search with a vector of another size is refused")
	case 8:
		c, _ := get(h, []string{"", "nosuch", "c", "c", "e"}[vx.Choice("get", 5)], "id", "zz")
		vx.Assert(c == 400, "a lookup that matches nothing is refused")
		c, _ = get(h, "c", "nosuch", "zz")
		vx.Assert(c == 400, "a lookup by an unknown property is refused")
	}
	vx.Cover("done")
}

// Collections: creation requests with arbitrary index declarations; what is
// accepted is listed back as declared, the rest refused without effect.
func Collections() {
	h := start()
	types := []string{"string", "number", "map", "list"}
	n := vx.Param("n", 2)
	var ix []*models.Index
	want := map[string]string{"id": "string", "hnswId": "number"}
	good := true
	for i := 0; i < n; i++ {
		f := []string{"f", "g"}[i]
		switch k := vx.Choice("type", 8); {
		case k < 4:
			ix = append(ix, &models.Index{FieldName: f, FieldType: types[k]})
			want[f] = types[k]
		case k == 7:
			ix = append(ix, &models.Index{FieldName: f})
			good = false
		case k == 4:
			ix = append(ix, nil)
			good = false
		case k == 5:
			w := vx.Str("t", 6)
			vx.Assume(vx.And(w != "string", w != "number"))
			ix = append(ix, &models.Index{FieldName: f, FieldType: w})
			good = false
		}
	}
	name := "c"
	if ix == nil || vx.Choice("noname", 2) == 1 {
		if ix != nil {
			name = ""
		}
		good = false
	}
	c := create(h, name, ix)
	vx.Assert((c == 200) == good, "valid collections are accepted and malformed requests refused")
	if vx.Choice("restart", 2) == 1 {
		h = restart()
	}
	list := func() []*models.Collection {
		c, b := send(h.FaveGetCollectionsHandler(operations.FaveGetCollectionsParams{}))
		r, ok := b.([]*models.Collection)
		vx.Assert(c == 200 && ok, "collections are listed")
		return r
	}
	r := list()
	if !good {
		vx.Assert(len(r) == 0, "a refused request has no effect")
		vx.Cover("refused")
		return
	}
	vx.Assert(len(r) == 1 && r[0].Name == "c" && len(r[0].Indexes) == len(want), "the collection is listed with its indexes")
	for _, x := range r[0].Indexes {
		vx.Assert(want[x.FieldName] == x.FieldType, "an index is listed with its declared type")
	}
	code, _ := send(h.FaveDeleteCollectionHandler(operations.FaveDeleteCollectionParams{Collection: "c"}))
	vx.Assert(code == 200 && len(list()) == 0, "a deleted collection is no longer listed")
	vx.Cover("accepted")
}

// Text: documents added with properties to vectorize are found by text and by
// vector, with the same answer; while the vectorizer fails, the request is
// refused.
func Text() {
	start()
	c := &dx.C{Texts: map[string][]float32{"apple": {1, 0}, "bread": {0, 1}, "apple bread": {0.6, 0.8}, "query": {1, 0.25}, "same": {0, 2}}, VecStatus: 200}
	vh.Hook = c.Http
	url = "http://vectorizer"
	h := restart()
	vx.Assert(create(h, "c", index()) == 200, "a collection is created")
	want := map[string][]float32{}
	var docs []*models.Document
	for i := 0; i < 2; i++ {
		x := map[string]interface{}{}
		switch vx.Choice("kind", 4) {
		case 0:
			x["t"] = "apple"
			want[uuids[i]] = c.Texts["apple"]
		case 1:
			x["u"], x["t"] = "bread", "apple"
			want[uuids[i]] = c.Texts["apple bread"]
		case 2:
			x["u"], x["vector"] = "bread", nums("-1", "0")
			want[uuids[i]] = []float32{-1, 0}
		case 3:
			x["u"] = "bread"
			want[uuids[i]] = c.Texts["bread"]
		}
		docs = append(docs, doc(uuids[i], x))
	}
	vx.Assert(add(h, "c", []string{"t", "u"}, docs) == 200, "documents are added")
	if vx.Choice("down", 2) == 1 {
		c.VecStatus = 500
		vx.Assert(add(h, "c", []string{"t"}, []*models.Document{doc(uuids[2], map[string]interface{}{"t": "apple"})}) == 400, "a document that could not be vectorized is refused")
		code, _ := send(h.FaveGetNearestDocumentsHandler(operations.FaveGetNearestDocumentsParams{Body: &models.NearestDocumentsRequest{Name: "c", Text: "query", Distance: 3}}))
		vx.Assert(code == 400, "a query that could not be vectorized is refused")
		c.VecStatus = 200
	}
	if vx.Choice("restart", 2) == 1 {
		h = restart()
	}
	thr := vx.F32("thr")
	vx.Assume(thr == thr)
	lim := vx.Choice("limit", 3)
	q := []string{"query", "same"}[vx.Choice("q", 2)]
	code, b := send(h.FaveGetNearestDocumentsHandler(operations.FaveGetNearestDocumentsParams{Body: &models.NearestDocumentsRequest{Name: "c", Text: q, Distance: thr, Limit: int64(lim)}}))
	r, ok := b.(*models.NearestDocumentsResponse)
	vx.Assert(code == 200 && ok, "a valid text search succeeds")
	answer(r, want, c.Texts[q], thr, lim)
	vx.Cover("done")
}

// Large: more documents than fit a page, in batches, searched with limits
// around the sizes involved and any threshold around a few places.
func Large() {
	n := vx.Param("n", 115)
	h := start()
	vx.Assert(create(h, "c", index()) == 200, "a collection is created")
	want := map[string][]float32{}
	var batch []*models.Document
	for i := 0; i < n; i++ {
		x := float32((i*37)%131) / 131
		v := []float32{1 - 2*x, 0.3 + x*(1-x)}
		id := fmt.Sprintf("00000000-0000-4000-8000-%012d", i)
		want[id] = v
		batch = append(batch, doc(id, map[string]interface{}{"vector": nums(fmt.Sprint(v[0]), fmt.Sprint(v[1]))}))
		if i%50 == 49 || i == n-1 {
			vx.Assert(add(h, "c", []string{}, batch) == 200, "documents are added")
			batch = nil
		}
	}
	if vx.Param("restart", 1) == 1 {
		h = restart()
	}
	q := []float32{1, 0.25}
	thr := vx.F32("thr")
	at := []float32{0.3, 1.6, 2.5}[vx.Choice("at", 3)]
	vx.Assume(vx.And(thr >= at-0.04, thr <= at+0.04))
	lim := []int{0, 1, 25, 99, 101, n - 1, n + 1, 1000}[vx.Choice("limit", 8)]
	c, r := near(h, "c", q, thr, int64(lim))
	vx.Assert(c == 200, "a valid search succeeds")
	answer(r, want, q, thr, lim)
	vx.Cover("done")
}
