// Package h24: whole HTTP requests, from path, query and body to status and
// JSON answer, against the service as it is wired at start.
package h24

import (
	"bytes"
	"encoding/json"
	"io"
	"math"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/fairDataSociety/FaVe/models"
	"github.com/fairDataSociety/FaVe/restapi"
	"github.com/fairDataSociety/FaVe/restapi/operations"
	"github.com/fairDataSociety/FaVe/zz_verif/dx"
	"github.com/fairDataSociety/FaVe/zz_verif/hx"
	"github.com/fairDataSociety/FaVe/zz_verif/ve"
	"github.com/fairDataSociety/FaVe/zz_verif/vh"
	"github.com/fairDataSociety/FaVe/zz_verif/vr"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
	"github.com/go-openapi/loads"
	"github.com/go-openapi/runtime"
	"github.com/go-openapi/runtime/middleware"
	"github.com/go-openapi/strfmt"
)

var server http.Handler

// start is what the main function does up to listening.
func start() {
	var doc *loads.Document
	if vx.Symbolic() {
		vr.Spec = restapi.SwaggerJSON
	} else {
		d, err := loads.Embedded(restapi.SwaggerJSON, restapi.FlatSwaggerJSON)
		vx.Assert(err == nil, "the published description is readable")
		doc = d
	}
	s := restapi.NewServer(operations.NewFaveAPI(doc))
	s.ConfigureAPI()
	server = s.GetHandler()
	vx.Assert(server != nil, "requests are served")
}

// answer is what comes back.
type answer struct {
	code int
	hdr  http.Header
	body bytes.Buffer
}

func (a *answer) Header() http.Header { return a.hdr }
func (a *answer) WriteHeader(c int) {
	if a.code == 0 {
		a.code = c
	}
}
func (a *answer) Write(b []byte) (int, error) {
	a.WriteHeader(200)
	return a.body.Write(b)
}

func send(method, path string, q url.Values, body []byte) *answer {
	r := &http.Request{Method: method, URL: &url.URL{Path: path, RawQuery: q.Encode()}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "localhost"}
	if body != nil {
		r.Body = io.NopCloser(bytes.NewReader(body))
		r.ContentLength = int64(len(body))
		if chunked {
			r.ContentLength = -1
		}
		r.Header.Set("Content-Type", "application/json")
	} else {
		r.Body = http.NoBody
	}
	a := &answer{hdr: http.Header{}}
	server.ServeHTTP(a, r)
	if a.code == 0 {
		a.code = 200
	}
	vx.Assert(a.code == 200 || a.code >= 400 && a.code < 500, "a request is carried out or refused as the client's mistake")
	if a.code != 200 {
		var m map[string]interface{}
		vx.Assert(json.Unmarshal(a.body.Bytes(), &m) == nil && len(m) > 0, "a refusal comes with an explanation")
	}
	return a
}

var chunked bool

func post(path string, v interface{}) *answer {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return send("POST", path, nil, b)
}

// read gives the answer's JSON content.
func read(a *answer, v interface{}) {
	vx.Assert(a.code == 200, "a valid request is carried out")
	vx.Assert(json.Unmarshal(a.body.Bytes(), v) == nil, "the answer is JSON of the published shape")
}

var uuids = []string{"00000000-0000-4000-8000-000000000000", "00000000-0000-4000-8000-000000000001", "00000000-0000-4000-8000-00000000000f"}

type m = map[string]interface{}

func doc(id, name string, v ...float32) m {
	return m{"id": id, "properties": m{"name": name, "vector": v, "note": "of " + name}}
}

// expected content: collection -> document id -> name, vector
type entry struct {
	name string
	v    []float32
}
type world map[string]map[string]entry

func (w world) check() {
	var cs []*models.Collection
	read(send("GET", "/v1/collections", nil, nil), &cs)
	vx.Assert(len(cs) == len(w), "exactly the collections there are, are listed")
	for _, c := range cs {
		_, ok := w[c.Name]
		vx.Assert(ok, "a listed collection is one that was created")
		for _, x := range c.Indexes {
			t := map[string]string{"id": "string", "hnswId": "number", "name": "string"}[x.FieldName]
			vx.Assert(t == x.FieldType && t != "", "an index is listed as declared")
		}
		vx.Assert(len(c.Indexes) == 3, "the indexes are listed")
	}
	for name, docs := range w {
		w.near("/v1/nearest-documents-by-vector", m{"name": name, "vector": []float32{1, 0.5}, "distance": 3, "limit": 0}, name, []float32{1, 0.5}, 3, 0)
		for id, e := range docs {
			var d models.Document
			read(send("GET", "/v1/documents", url.Values{"collection": {name}, "property": {"id"}, "value": {id}}, nil), &d)
			whole(&d, id, e)
		}
	}
}

func whole(d *models.Document, id string, e entry) m {
	p, ok := d.Properties.(m)
	vx.Assert(string(d.ID) == id && ok && p["name"] == e.name && p["note"] == "of "+e.name, "a document comes back as it was added")
	return p
}

// near sends a search and compares the answer with what is there.
func (w world) near(path string, body m, name string, q []float32, thr float32, lim int) {
	var r models.NearestDocumentsResponse
	read(post(path, body), &r)
	vx.Assert(r.Name == name, "the answer names the collection")
	seen := map[string]bool{}
	last := math.Inf(-1)
	for _, d := range r.Documents {
		e, ok := w[name][string(d.ID)]
		vx.Assert(ok && !seen[string(d.ID)], "a returned document is in the collection, and comes once")
		seen[string(d.ID)] = true
		dist, ok := whole(d, string(d.ID), e)["distance"].(float64)
		vx.Assert(ok && math.Abs(dist-dx.Cos(e.v, q)) <= dx.Eps, "the distance belongs to the returned document")
		vx.Assert(float32(dist) <= thr && last <= dist, "documents come nearest first, within the distance")
		last = dist
	}
	vx.Assert(lim == 0 || len(r.Documents) <= lim, "at most limit documents are returned")
	for id, e := range w[name] {
		if !seen[id] {
			if lim > 0 && len(r.Documents) == lim {
				vx.Assert(dx.Cos(e.v, q) >= last-dx.Eps, "a document left out by the limit is not nearer than those returned")
			} else {
				vx.Assert(thr <= float32(dx.Cos(e.v, q)+dx.Eps), "every document within the distance is returned")
			}
		}
	}
}

// word is any text of n printable characters.
func word(name string, n int) string {
	s := vx.Str(name, n)
	for i := 0; i < n; i++ {
		vx.Assume(vx.And(s[i] >= ' ', s[i] <= '~'))
	}
	return s
}

func begin() world {
	hx.Level(30, 0)
	dfs.Current = dfs.NewWorld()
	chunked = false
	for k, v := range map[string]string{"VERBOSE": "", "BEE_API": "http://bee", "RPC_API": "http://rpc", "STAMP_ID": "stamp", "VECTORIZER_URL": "http://vectorizer", "USER": "me", "PASSWORD": "secret", "POD": "pod"} {
		ve.Set(k, v)
	}
	c := &dx.C{Texts: map[string][]float32{"apple": {1, 0.25}, "bread": {0, 2}}, VecStatus: 200}
	vh.Hook = c.Http
	start()
	ix := []m{{"fieldName": "name", "fieldType": "string"}}
	for _, n := range []string{"c", "d"} {
		vx.Assert(post("/v1/collections", m{"name": n, "indexes": ix}).code == 200, "a collection is created")
	}
	vx.Assert(post("/v1/documents", m{"name": "c", "propertiesToVectorize": []string{}, "documents": []m{doc(uuids[0], "ab", 0, 1)}}).code == 200, "a document is added")
	vx.Assert(post("/v1/documents", m{"name": "d", "propertiesToVectorize": []string{}, "documents": []m{doc(uuids[1], "b", 1, 0), doc(uuids[0], "b+c", -1, 0)}}).code == 200, "documents are added")
	return world{"c": {uuids[0]: {"ab", []float32{0, 1}}}, "d": {uuids[1]: {"b", []float32{1, 0}}, uuids[0]: {"b+c", []float32{-1, 0}}}}
}

// Valid: any one well-formed request does what its method and path say, with
// the values it carries, and nothing else.
func Valid() {
	w := begin()
	n := vx.Param("n", 2)
	k := only(8)
	chunked = k != 0 && k != 2 && k != 3 && vx.Choice("chunked", 2) == 1
	switch k {
	case 0:
		vx.Assert(send("GET", "/v1/", nil, nil).code == 200, "the service says that it is there")
	case 1:
		name := word("name", 1+vx.Choice("size", n))
		a := post("/v1/collections", m{"name": name, "indexes": []m{{"fieldName": "name", "fieldType": "string"}}})
		vx.Assert(a.code == 200, "a collection is created, one that exists is left as it is")
		if name != "c" && name != "d" {
			w[name] = map[string]entry{}
		}
	case 2:
		name := word("name", 1+vx.Choice("size", n))
		for i := 0; i < len(name); i++ {
			vx.Assume(vx.And(name[i] != '/', vx.And(name[i] != '.', vx.And(name[i] != ':', vx.And(name[i] != '*', name[i] != '#')))))
		}
		a := send("DELETE", "/v1/collections/"+name, nil, nil)
		_, there := w[name]
		vx.Assert(a.code == 200 || !there, "a collection that exists can be deleted")
		delete(w, name)
	case 3:
		name := ""
		switch k := vx.Choice("size", 3); k {
		case 2:
			name = "b" + word("value", vx.Param("middle", 1)) + "c"
		default:
			name = word("value", 1+k)
		}
		col := []string{"c", "d"}[vx.Choice("collection", 2)]
		a := send("GET", "/v1/documents", url.Values{"collection": {col}, "property": {"name"}, "value": {name}}, nil)
		id := ""
		for k, e := range w[col] {
			if e.name == name {
				id = k
			}
		}
		if id == "" {
			vx.Assert(a.code != 200, "no document is made up")
		} else {
			var d models.Document
			read(a, &d)
			whole(&d, id, w[col][id])
		}
	case 4:
		col := []string{"c", "d"}[vx.Choice("collection", 2)]
		var ds []m
		for i := 0; i <= vx.Choice("documents", 2); i++ {
			id, v := []string{"0000000a-0000-4000-8000-000000000000", "0000000b-0000-4000-8000-000000000000"}[i], []float32{0.6, 0.8 - float32(i)}
			x := doc(id, "new", v...)
			if vx.Choice("text", 2) == 1 {
				delete(x["properties"].(m), "vector")
				x["properties"].(m)["text"] = "bread"
				v = []float32{0, 2}
			}
			ds = append(ds, x)
			w[col][id] = entry{"new", v}
		}
		vx.Assert(post("/v1/documents", m{"name": col, "propertiesToVectorize": []string{"text"}, "documents": ds}).code == 200, "documents are added")
	case 5:
		col := []string{"c", "d"}[vx.Choice("collection", 2)]
		thr := vx.F32("thr")
		vx.Assume(vx.And(thr > -1000, thr < 1000))
		lim := vx.Choice("limit", 4)
		w.near("/v1/nearest-documents-by-vector", m{"name": col, "vector": []float32{1, 0.25}, "distance": thr, "limit": lim}, col, []float32{1, 0.25}, thr, lim)
	case 6:
		col := []string{"c", "d"}[vx.Choice("collection", 2)]
		thr := vx.F32("thr")
		vx.Assume(vx.And(thr > -1000, thr < 1000))
		lim := vx.Choice("limit", 4)
		w.near("/v1/nearest-documents", m{"name": col, "text": "apple", "distance": thr, "limit": lim}, col, []float32{1, 0.25}, thr, lim)
	case 7:
		// names and values with parts that look encoded
		s := []string{"50%2", "a+b%20", "x&value=y;", " A=%C3%BC?", "\u00fc<\"\\'>"}[vx.Choice("nasty", 5)] + word("end", 1)
		vx.Assume(s[len(s)-1] != '/' && s[len(s)-1] != '.' && s[len(s)-1] != ':' && s[len(s)-1] != '*' && s[len(s)-1] != '#')
		vx.Assert(post("/v1/collections", m{"name": s, "indexes": []m{{"fieldName": "name", "fieldType": "string"}}}).code == 200, "a collection is created")
		vx.Assert(post("/v1/documents", m{"name": s, "propertiesToVectorize": []string{}, "documents": []m{doc(uuids[2], s, 1, 1)}}).code == 200, "a document is added")
		w[s] = map[string]entry{uuids[2]: {s, []float32{1, 1}}}
		var d models.Document
		read(send("GET", "/v1/documents", url.Values{"collection": {s}, "property": {"name"}, "value": {s}}, nil), &d)
		whole(&d, uuids[2], w[s][uuids[2]])
		if vx.Choice("delete", 2) == 1 {
			vx.Assert(send("DELETE", "/v1/collections/"+s, nil, nil).code == 200, "a collection that exists can be deleted")
			delete(w, s)
		}
	}
	chunked = false
	w.check()
	vx.Cover("done")
}

// Refused: a request without a value it needs, with an unreadable one, or for
// nothing there is, is refused and changes nothing.
func Refused() {
	w := begin()
	chunked = vx.Choice("chunked", 2) == 1
	var a *answer
	posts := []string{"/v1/collections", "/v1/documents", "/v1/nearest-documents", "/v1/nearest-documents-by-vector"}
	switch vx.Choice("request", 6) {
	case 0:
		p := posts[vx.Choice("path", 4)]
		switch k := vx.Choice("body", 8); k {
		case 0:
			a = send("POST", p, nil, nil)
		default:
			a = send("POST", p, nil, []byte([]string{"", "{", "null", "[]", "5", `"c"`, `{"name":5}`, "{}"}[k]))
		}
	case 1:
		q := url.Values{"collection": {"c"}, "property": {"name"}, "value": {"ab"}}
		k := []string{"collection", "property", "value"}[vx.Choice("missing", 3)]
		switch vx.Choice("how", 3) {
		case 0:
			q.Del(k)
		case 1:
			q.Set(k, "")
		case 2:
			s := q.Get(k)
			q.Del(k)
			q.Set(k+word("more", 1), s)
		}
		a = send("GET", "/v1/documents", q, nil)
	case 2:
		id := []string{"", "00000000-0000-4000-8000-00000000000", "00000000-0000-4000-8000-000000000000"}[vx.Choice("id", 3)]
		x := word("odd", 1)
		if len(id) == 35 {
			vx.Assume(vx.Or(x[0] < '0', vx.And(x[0] > '9', vx.Or(x[0] < 'A', vx.And(x[0] > 'F', vx.Or(x[0] < 'a', x[0] > 'f'))))))
		}
		id += x
		ds := []m{doc(id, "new", 0.6, 0.8)}
		if vx.Choice("second", 2) == 1 {
			ds = []m{doc(uuids[2], "new", 0.8, 0.6), ds[0]}
		}
		a = post("/v1/documents", m{"name": "c", "propertiesToVectorize": []string{}, "documents": ds})
	case 3:
		mth := []string{"GET", "POST", "DELETE", "PUT", "PATCH"}[vx.Choice("method", 5)]
		p := []string{"/v1/", "/v1/collections", "/v1/collections/c", "/v1/documents", "/v1/nearest-documents", "/v1/nearest-documents-by-vector", "/v1/" + word("other", 3)}[vx.Choice("path", 7)]
		switch mth + p {
		case "GET/v1/", "GET/v1/collections", "POST/v1/collections", "DELETE/v1/collections/c", "GET/v1/documents", "POST/v1/documents", "POST/v1/nearest-documents", "POST/v1/nearest-documents-by-vector":
			return
		}
		for i := 4; i < len(p) && len(p) == 7; i++ {
			vx.Assume(vx.And(p[i] != '/', p[i] != '.'))
		}
		a = send(mth, p, nil, nil)
	case 4:
		b := m{"name": "c", "vector": []float32{1, 0}, "distance": 1, "limit": 1, "text": "apple"}
		k := []string{"name", "vector", "distance", "limit", "text"}[vx.Choice("field", 5)]
		b[k] = m{"a": 1}
		p := posts[2]
		if k == "vector" || k != "text" && vx.Choice("vector", 2) == 1 {
			p = posts[3]
		}
		a = post(p, b)
	case 5:
		b := m{"name": "c", "propertiesToVectorize": []string{}, "documents": []m{doc(uuids[2], "new", 0.6, 0.8)}}
		p := posts[1]
		switch vx.Choice("field", 5) {
		case 0:
			b["name"] = 5
		case 1:
			b["propertiesToVectorize"] = "t"
		case 2:
			b["documents"] = m{}
		case 3:
			b["documents"] = []interface{}{doc(uuids[2], "new", 0.6, 0.8), 7}
		case 4:
			b = m{"name": "n", "indexes": []m{{"fieldName": 5, "fieldType": "string"}}}
			p = posts[0]
		}
		a = post(p, b)
	}
	vx.Assert(a.code != 200, "a request that cannot be carried out is refused")
	chunked = false
	w.check()
	vx.Cover("done")
}

// only is the request to send: any of n, or the one the run is about.
func only(n int) int {
	if k := vx.Param("only", -1); k >= 0 {
		return k
	}
	return vx.Choice("request", n)
}

// carried is what the operations were called with.
var carried struct {
	create *models.Collection
	add    *models.AddDocumentsRequest
	text   *models.NearestDocumentsRequest
	vector *models.NearestDocumentsByVectorRequest
	get    *operations.FaveGetDocumentsParams
	gone   *string
	calls  int
}

// record serves requests with operations that only note what they are called
// with.
func record() {
	hx.Level(30, 0)
	dfs.Current = dfs.NewWorld()
	chunked = false
	var doc *loads.Document
	if vx.Symbolic() {
		vr.Spec = restapi.SwaggerJSON
	} else {
		doc, _ = loads.Embedded(restapi.SwaggerJSON, restapi.FlatSwaggerJSON)
	}
	carried.calls = 0
	api := operations.NewFaveAPI(doc)
	api.JSONConsumer = runtime.JSONConsumer()
	api.JSONProducer = runtime.JSONProducer()
	api.FaveCreateCollectionHandler = operations.FaveCreateCollectionHandlerFunc(func(p operations.FaveCreateCollectionParams) middleware.Responder {
		carried.create = p.Body
		carried.calls++
		return operations.NewFaveCreateCollectionOK().WithPayload(&models.OKResponse{})
	})
	api.FaveAddDocumentsHandler = operations.FaveAddDocumentsHandlerFunc(func(p operations.FaveAddDocumentsParams) middleware.Responder {
		carried.add = p.Body
		carried.calls++
		return operations.NewFaveAddDocumentsOK().WithPayload(&models.OKResponse{})
	})
	api.FaveGetNearestDocumentsHandler = operations.FaveGetNearestDocumentsHandlerFunc(func(p operations.FaveGetNearestDocumentsParams) middleware.Responder {
		carried.text = p.Body
		carried.calls++
		return operations.NewFaveGetNearestDocumentsOK().WithPayload(&models.NearestDocumentsResponse{})
	})
	api.FaveGetNearestDocumentsByVectorHandler = operations.FaveGetNearestDocumentsByVectorHandlerFunc(func(p operations.FaveGetNearestDocumentsByVectorParams) middleware.Responder {
		carried.vector = p.Body
		carried.calls++
		return operations.NewFaveGetNearestDocumentsByVectorOK().WithPayload(&models.NearestDocumentsResponse{})
	})
	api.FaveGetDocumentsHandler = operations.FaveGetDocumentsHandlerFunc(func(p operations.FaveGetDocumentsParams) middleware.Responder {
		carried.get = &p
		carried.calls++
		return operations.NewGetDocumentsOK().WithPayload(&models.Document{})
	})
	api.FaveDeleteCollectionHandler = operations.FaveDeleteCollectionHandlerFunc(func(p operations.FaveDeleteCollectionParams) middleware.Responder {
		carried.gone = &p.Collection
		carried.calls++
		return operations.NewFaveDeleteCollectionOK().WithPayload(&models.OKResponse{})
	})
	server = api.Serve(nil)
}

// Carry: an operation is called once, with exactly the values of the request.
func Carry() {
	record()
	long := vx.Choice("long", 2) == 1
	kind := only(6)
	chunked = kind < 4 && vx.Choice("chunked", 2) == 1
	name, text := "n", "t"
	if kind < 4 {
		name, text = word("name", 1+vx.Choice("size", 2)), word("text", 1)
	}
	if long {
		name, text = name+strings.Repeat("x-", 200), text+strings.Repeat("all\tof it\n", 500)
	}
	switch kind {
	case 4:
		b := vx.Str("name", 1)
		vx.Assume(vx.And(b[0] >= 'A', b[0] <= 'z'))
		a := send("DELETE", "/v1/collections/"+name+b, nil, nil)
		vx.Assert(a.code == 200 && carried.calls == 1 && *carried.gone == name+b, "the collection that the request names is deleted")
	case 5:
		b := vx.Str("name", 1)
		vx.Assume(vx.And(b[0] >= 'a', b[0] <= 'z'))
		a := send("GET", "/v1/documents", url.Values{"collection": {name + b}, "property": {"p" + b + text}, "value": {b + name + "  "}}, nil)
		vx.Assert(a.code == 200 && carried.calls == 1, "a valid request is carried out once")
		g := carried.get
		vx.Assert(g.Collection == name+b && g.Property == "p"+b+text && g.Value == b+name+"  ", "a lookup has the values of its request")
	case 0:
		want, thr := vx.I64("limit"), vx.F32("thr")
		vx.Assume(vx.And(thr > -1000, thr < 1000))
		a := post("/v1/nearest-documents", m{"name": name, "text": text, "distance": thr, "limit": want})
		b := carried.text
		vx.Assert(a.code == 200 && carried.calls == 1, "a valid request is carried out once")
		vx.Assert(b.Name == name && b.Text == text && b.Limit == want && b.Distance == thr, "a text search has the values of its request")
	case 1:
		want, thr, x := vx.I64("limit"), vx.F32("thr"), vx.F32("x")
		vx.Assume(vx.And(thr > -1000, thr < 1000))
		vx.Assume(vx.And(x > -1000, x < 1000))
		vec := []float32{0.5, x, 0.002}
		if long {
			for i := 0; i < 100; i++ {
				vec = append(vec, 7, x, -0.25)
			}
		}
		a := post("/v1/nearest-documents-by-vector", m{"name": name, "vector": vec, "distance": thr, "limit": want})
		b := carried.vector
		vx.Assert(a.code == 200 && carried.calls == 1, "a valid request is carried out once")
		vx.Assert(b.Name == name && b.Limit == want && b.Distance == thr && len(b.Vector) == len(vec), "a vector search has the values of its request")
		for i, x := range b.Vector {
			vx.Assert(x == vec[i], "a vector search has the vector of its request")
		}
	case 2:
		num := json.Number([]string{"0", "-12.50", "1e30", "9007199254740993"}[vx.Choice("number", 4)])
		n := 1 + vx.Choice("documents", 2)
		if long {
			n += 150
		}
		var ds []m
		for i := 0; i < n; i++ {
			d := m{"id": uuids[i%3], "properties": m{"a": num, "b": text, "c": []interface{}{true, nil, m{"d": strconv.Itoa(i)}}, "e": false, "id": "own"}}
			if i%5 == 4 {
				delete(d, "id")
			}
			ds = append(ds, d)
		}
		a := post("/v1/documents", m{"name": name, "propertiesToVectorize": []string{"b", "a", text, "b"}, "documents": ds})
		b := carried.add
		vx.Assert(a.code == 200 && carried.calls == 1, "a valid request is carried out once")
		vx.Assert(b.Name == name && len(b.Documents) == n, "the documents of the request are added")
		pv := b.PropertiesToVectorize
		vx.Assert(len(pv) == 4 && pv[0] == "b" && pv[1] == "a" && pv[2] == text && pv[3] == "b", "the properties to vectorize are those of the request, in order")
		for i, d := range b.Documents {
			p, ok := d.Properties.(m)
			vx.Assert(ok && len(p) == 5, "a document has the properties of the request")
			l, ok := p["c"].([]interface{})
			vx.Assert(ok && len(l) == 3 && l[0] == true && l[1] == nil && l[2].(m)["d"] == strconv.Itoa(i), "a document has the properties of the request")
			id := uuids[i%3]
			if i%5 == 4 {
				id = ""
			}
			x, isNumber := p["a"].(json.Number)
			vx.Assert(isNumber && x == num && p["b"] == text && p["e"] == false && p["id"] == "own" && string(d.ID) == id, "a document has the id and properties of the request")
		}
	case 3:
		n := vx.Choice("indexes", 3)
		if long {
			n += 40
		}
		ix := []m{}
		for i := 0; i < n; i++ {
			ix = append(ix, m{"fieldName": text + strconv.Itoa(i), "fieldType": name})
		}
		a := post("/v1/collections", m{"name": name, "indexes": ix})
		b := carried.create
		vx.Assert(a.code == 200 && carried.calls == 1, "a valid request is carried out once")
		vx.Assert(b.Name == name && len(b.Indexes) == n, "a collection is created as the request says")
		for i, x := range b.Indexes {
			vx.Assert(x.FieldName == text+strconv.Itoa(i) && x.FieldType == name, "an index is declared as the request says")
		}
	}
	vx.Cover("done")
}

// Answers: what an operation answers is what the client gets.
func Answers() {
	record()
	api := operations.NewFaveAPI(nil)
	if !vx.Symbolic() {
		d, _ := loads.Embedded(restapi.SwaggerJSON, restapi.FlatSwaggerJSON)
		api = operations.NewFaveAPI(d)
	}
	api.JSONConsumer = runtime.JSONConsumer()
	api.JSONProducer = runtime.JSONProducer()
	n := []int{0, 1, 2, 150}[vx.Choice("n", 4)]
	name, text := word("name", 1), word("text", 2)
	dist := vx.F32("dist")
	vx.Assume(vx.And(dist > -1000, dist < 1000))
	near := &models.NearestDocumentsResponse{Name: name}
	for i := 0; i < n; i++ {
		near.Documents = append(near.Documents, &models.Document{ID: strfmt.UUID(uuids[i%3]), Properties: m{"t": text, "i": strconv.Itoa(i), "distance": dist}})
	}
	bad := &models.ErrorResponse{}
	for i := 0; i < n; i++ {
		bad.Error = append(bad.Error, &models.ErrorResponseErrorItems0{Message: text + strconv.Itoa(i)})
	}
	fails := vx.Choice("fails", 2) == 1
	kind := vx.Choice("request", 7)
	var a *answer
	ok := &models.OKResponse{Message: text}
	switch kind {
	case 0:
		api.FaveCreateCollectionHandler = operations.FaveCreateCollectionHandlerFunc(func(operations.FaveCreateCollectionParams) middleware.Responder {
			if fails {
				return operations.NewFaveCreateCollectionBadRequest().WithPayload(bad)
			}
			return operations.NewFaveCreateCollectionOK().WithPayload(ok)
		})
		server = api.Serve(nil)
		a = post("/v1/collections", m{"name": "c", "indexes": []m{}})
	case 1:
		api.FaveAddDocumentsHandler = operations.FaveAddDocumentsHandlerFunc(func(operations.FaveAddDocumentsParams) middleware.Responder {
			if fails {
				return operations.NewFaveAddDocumentsBadRequest().WithPayload(bad)
			}
			return operations.NewFaveAddDocumentsOK().WithPayload(ok)
		})
		server = api.Serve(nil)
		a = post("/v1/documents", m{"name": "c", "propertiesToVectorize": []string{}, "documents": []m{}})
	case 2:
		api.FaveDeleteCollectionHandler = operations.FaveDeleteCollectionHandlerFunc(func(operations.FaveDeleteCollectionParams) middleware.Responder {
			if fails {
				return operations.NewFaveDeleteCollectionBadRequest().WithPayload(bad)
			}
			return operations.NewFaveDeleteCollectionOK().WithPayload(ok)
		})
		server = api.Serve(nil)
		a = send("DELETE", "/v1/collections/c", nil, nil)
	case 3:
		api.FaveGetNearestDocumentsHandler = operations.FaveGetNearestDocumentsHandlerFunc(func(operations.FaveGetNearestDocumentsParams) middleware.Responder {
			if fails {
				return operations.NewFaveGetNearestDocumentsBadRequest().WithPayload(bad)
			}
			return operations.NewFaveGetNearestDocumentsOK().WithPayload(near)
		})
		server = api.Serve(nil)
		a = post("/v1/nearest-documents", m{"name": "c", "text": "t"})
	case 4:
		api.FaveGetNearestDocumentsByVectorHandler = operations.FaveGetNearestDocumentsByVectorHandlerFunc(func(operations.FaveGetNearestDocumentsByVectorParams) middleware.Responder {
			if fails {
				return operations.NewFaveGetNearestDocumentsByVectorBadRequest().WithPayload(bad)
			}
			return operations.NewFaveGetNearestDocumentsByVectorOK().WithPayload(near)
		})
		server = api.Serve(nil)
		a = post("/v1/nearest-documents-by-vector", m{"name": "c", "vector": []float32{1}})
	case 5:
		api.FaveGetDocumentsHandler = operations.FaveGetDocumentsHandlerFunc(func(operations.FaveGetDocumentsParams) middleware.Responder {
			if fails {
				return operations.NewFaveGetDocumentsBadRequest().WithPayload(bad)
			}
			return operations.NewFaveGetDocumentsOK().WithPayload(&models.Document{ID: strfmt.UUID(uuids[0]), Properties: m{"t": text, "i": "0", "distance": dist}})
		})
		server = api.Serve(nil)
		a = send("GET", "/v1/documents", url.Values{"collection": {"c"}, "property": {"p"}, "value": {"v"}}, nil)
	case 6:
		var cs []*models.Collection
		for i := 0; i < n; i++ {
			cs = append(cs, &models.Collection{Name: name + strconv.Itoa(i), Indexes: []*models.Index{{FieldName: text, FieldType: "string"}, {FieldName: "x", FieldType: name}}})
		}
		api.FaveGetCollectionsHandler = operations.FaveGetCollectionsHandlerFunc(func(operations.FaveGetCollectionsParams) middleware.Responder {
			if fails {
				return operations.NewFaveGetCollectionsBadRequest().WithPayload(bad)
			}
			return operations.NewFaveGetCollectionsOK().WithPayload(cs)
		})
		server = api.Serve(nil)
		a = send("GET", "/v1/collections", nil, nil)
	}
	if fails {
		vx.Assert(a.code == 400, "an operation that failed is answered so")
		var e models.ErrorResponse
		vx.Assert(json.Unmarshal(a.body.Bytes(), &e) == nil && len(e.Error) == n, "the reasons come back")
		for i := range e.Error {
			vx.Assert(e.Error[i].Message == text+strconv.Itoa(i), "the reasons come back")
		}
		vx.Cover("done")
		return
	}
	one := func(d *models.Document, i int) {
		p, is := d.Properties.(m)
		vx.Assert(is && string(d.ID) == uuids[i%3] && len(p) == 3 && p["t"] == text && p["i"] == strconv.Itoa(i), "a document comes back as it is")
		x, is := p["distance"].(float64)
		vx.Assert(is && float32(x) == dist, "a distance comes back as it is")
	}
	switch kind {
	case 0, 1, 2:
		var r models.OKResponse
		read(a, &r)
		vx.Assert(r.Message == text, "the message comes back")
	case 3, 4:
		var r models.NearestDocumentsResponse
		read(a, &r)
		vx.Assert(r.Name == name && len(r.Documents) == n, "all documents come back")
		for i, d := range r.Documents {
			one(d, i)
		}
	case 5:
		var d models.Document
		read(a, &d)
		one(&d, 0)
	case 6:
		var cs []*models.Collection
		read(a, &cs)
		vx.Assert(len(cs) == n, "all collections come back")
		for i, c := range cs {
			vx.Assert(c.Name == name+strconv.Itoa(i) && len(c.Indexes) == 2 && c.Indexes[0].FieldName == text && c.Indexes[0].FieldType == "string" && c.Indexes[1].FieldType == name, "a collection comes back as it is")
		}
	}
	vx.Cover("done")
}
