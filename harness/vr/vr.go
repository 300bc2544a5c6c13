// Package vr stands in for the router and the request context of go-openapi
// in the executor: a request is matched against the paths of the published
// description and handed to the handler the service registered for it.
// Natively the real ones run.
package vr

import (
	"context"
	"encoding/json"
	"net/http"
	"strings"

	"github.com/fairDataSociety/FaVe/models"
	"github.com/go-openapi/errors"
	"github.com/go-openapi/loads"
	"github.com/go-openapi/runtime"
	"github.com/go-openapi/runtime/middleware"
	"github.com/go-openapi/strfmt"
)

// Spec is the published description.
var Spec []byte

var (
	api   middleware.RoutableAPI
	paths []path
	base  string
	now   *middleware.MatchedRoute
)

type path struct{ method, path string }

func NewRoutableContext(_ *loads.Document, a middleware.RoutableAPI, _ middleware.Router) *middleware.Context {
	api = a
	var d struct {
		BasePath string                                `json:"basePath"`
		Paths    map[string]map[string]json.RawMessage `json:"paths"`
	}
	if err := json.Unmarshal(Spec, &d); err != nil {
		panic(err)
	}
	base, paths = d.BasePath, nil
	for p, ms := range d.Paths {
		for m := range ms {
			paths = append(paths, path{strings.ToUpper(m), p})
		}
	}
	return &middleware.Context{}
}

// Handler is what serves the requests.
func Handler(_ *middleware.Context, b middleware.Builder) http.Handler {
	h := http.Handler(router{})
	if b != nil {
		h = b(h)
	}
	return h
}

type router struct{}

func (router) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	p := r.URL.Path
	if !strings.HasPrefix(p, base) {
		errors.ServeError(rw, r, errors.NotFound("path was not found"))
		return
	}
	p = p[len(base):]
	if p == "" {
		p = "/"
	}
	other := false
	for _, t := range paths {
		ps, ok := match(t.path, p)
		if !ok {
			continue
		}
		if t.method != r.Method {
			other = true
			continue
		}
		h, ok := api.HandlerFor(t.method, t.path)
		if !ok {
			continue
		}
		now = &middleware.MatchedRoute{Params: ps}
		now.Produces = []string{"application/json"}
		now.Consumes = []string{"application/json"}
		now.Producers = api.ProducersFor(now.Produces)
		now.Consumers = api.ConsumersFor(now.Consumes)
		now.Formats = api.Formats()
		h.ServeHTTP(rw, r)
		return
	}
	if other {
		errors.ServeError(rw, r, errors.MethodNotAllowed(r.Method, nil))
		return
	}
	errors.ServeError(rw, r, errors.NotFound("path was not found"))
}

func match(t, p string) (middleware.RouteParams, bool) {
	i := strings.Index(t, "{")
	if i < 0 {
		return nil, t == p
	}
	j := strings.Index(t, "}")
	if len(p) <= i || p[:i] != t[:i] || j != len(t)-1 {
		return nil, false
	}
	return middleware.RouteParams{{Name: t[i+1 : j], Value: p[i:]}}, true
}

func RouteInfo(_ *middleware.Context, r *http.Request) (*middleware.MatchedRoute, *http.Request, bool) {
	return now, r, true
}

func BindValidRequest(_ *middleware.Context, r *http.Request, route *middleware.MatchedRoute, b middleware.RequestBinder) error {
	if runtime.HasBody(r) {
		c, ok := route.Consumers[r.Header.Get("Content-Type")]
		if !ok {
			return errors.New(500, "no consumer")
		}
		route.Consumer = c
	}
	return b.BindRequest(r, route)
}

func Respond(_ *middleware.Context, rw http.ResponseWriter, r *http.Request, produces []string, route *middleware.MatchedRoute, data interface{}) {
	rw.Header().Set("Content-Type", "application/json")
	switch d := data.(type) {
	case middleware.Responder:
		p, ok := route.Producers["application/json"]
		if !ok {
			panic("no producer")
		}
		d.WriteResponse(rw, p)
	case error:
		api.ServeErrorFor("")(rw, r, d)
	default:
		panic("neither a responder nor an error")
	}
}

// ServeError is errors.ServeError without reflection.
func ServeError(rw http.ResponseWriter, r *http.Request, err error) {
	rw.Header().Set("Content-Type", "application/json")
	if c, ok := err.(*errors.CompositeError); ok && len(c.Errors) > 0 {
		ServeError(rw, r, c.Errors[0])
		return
	}
	code, msg := 500, "Unknown error"
	if e, ok := err.(errors.Error); ok {
		code, msg = int(e.Code()), e.Error()
		if code >= 600 {
			code = 422
		}
	} else if err != nil {
		msg = err.Error()
	}
	rw.WriteHeader(code)
	b, _ := json.Marshal(map[string]interface{}{"code": code, "message": msg})
	_, _ = rw.Write(b)
}

// IsZero is swag.IsZero for the values of the models.
func IsZero(d interface{}) bool {
	switch v := d.(type) {
	case nil:
		return true
	case strfmt.UUID:
		return v == ""
	case string:
		return v == ""
	case []*models.Document:
		return v == nil
	case []*models.Index:
		return v == nil
	case *models.Document:
		return v == nil
	case *models.Index:
		return v == nil
	}
	panic("IsZero of something else")
}

// FormatOf is validate.FormatOf for ids.
func FormatOf(path, in, format, data string, _ strfmt.Registry) *errors.Validation {
	if format != "uuid" {
		panic("another format")
	}
	n := 0
	for i := 0; i < len(data); i++ {
		c := data[i]
		switch {
		case c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F':
			n++
		case c == '-' && (n == 8 || n == 12 || n == 16 || n == 20):
		default:
			return errors.InvalidType(path, in, format, data)
		}
	}
	if n != 32 {
		return errors.InvalidType(path, in, format, data)
	}
	return nil
}

type valued struct {
	context.Context
	k, v interface{}
}

func (c valued) Value(k interface{}) interface{} {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

// WithValue is context.WithValue without reflection.
func WithValue(c context.Context, k, v interface{}) context.Context { return valued{c, k, v} }
