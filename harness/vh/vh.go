// Package vh answers the HTTP calls the code under check makes: in the
// executor by standing in for the client calls, natively by replacing the
// default transport.
package vh

import (
	"bytes"
	"errors"
	"io"
	"net/http"

	"github.com/fairDataSociety/FaVe/zz_verif/vx"
)

// Hook is the remote end.
var Hook func(method, url string, body []byte) (status int, resp []byte, err error)

// Body wraps the response body; Broken makes reading it fail half way.
var Broken bool

var errBroken = errors.New("connection reset")

type brokenBody struct{ r io.Reader }

func (b brokenBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		return n, errBroken
	}
	return n, err
}
func (b brokenBody) Close() error { return nil }

type rt struct{}

func (rt) RoundTrip(r *http.Request) (*http.Response, error) {
	return call(r.Method, r.URL.String(), r.Body)
}

func init() {
	if !vx.Symbolic() {
		http.DefaultTransport = rt{}
	}
}

func call(method, url string, body io.Reader) (*http.Response, error) {
	var b []byte
	if body != nil {
		b, _ = io.ReadAll(body)
	}
	st, resp, err := Hook(method, url, b)
	if err != nil {
		return nil, err
	}
	r := &http.Response{StatusCode: st, Header: http.Header{}}
	if Broken {
		r.Body = brokenBody{bytes.NewReader(resp)}
	} else {
		r.Body = io.NopCloser(bytes.NewReader(resp))
	}
	return r, nil
}

func Get(url string) (*http.Response, error) { return call("GET", url, nil) }
func Post(url, contentType string, body io.Reader) (*http.Response, error) {
	return call("POST", url, body)
}
func ClientGet(c *http.Client, url string) (*http.Response, error) { return call("GET", url, nil) }
func ClientPost(c *http.Client, url, contentType string, body io.Reader) (*http.Response, error) {
	return call("POST", url, body)
}
func ClientDo(c *http.Client, r *http.Request) (*http.Response, error) {
	if r.Body == nil {
		return call(r.Method, r.URL.String(), nil)
	}
	return call(r.Method, r.URL.String(), r.Body)
}
