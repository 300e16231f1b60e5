// Package cx contains a transport that records the requests and returns prepared responses.
package cx

import (
	"bytes"
	"context"
	"io"
	"io/ioutil"
	"net/http"
	"net/url"

	"verifgen/zzverif/nd"
)

// Request is what was sent.
type Request struct {
	Method  string
	Path    string
	Scheme  string
	Host    string
	Query   url.Values
	Raw     string
	Header  http.Header
	HasBody bool
	Body    string
	Context context.Context
}

// Transport records the requests.
type Transport struct {
	Requests []*Request
	// Respond calculates the response.
	Respond func(n int, r *Request) (*http.Response, error)
	Closed  int
}

// Body is a response body that remembers that it has been closed.
type Body struct {
	Reader io.Reader
	t      *Transport
}

func (b *Body) Read(p []byte) (int, error) { return b.Reader.Read(p) }

func (b *Body) Close() error {
	b.t.Closed++
	return nil
}

// Response creates a response.
func (t *Transport) Response(status int, body string) *http.Response {
	return &http.Response{StatusCode: status, Header: http.Header{"Content-Type": []string{"application/json"}}, Body: &Body{Reader: bytes.NewReader([]byte(body)), t: t}}
}

// Stream creates a response from a reader.
func (t *Transport) Stream(status int, r io.Reader) *http.Response {
	return &http.Response{StatusCode: status, Header: http.Header{}, Body: &Body{Reader: r, t: t}}
}

func (t *Transport) RoundTrip(r *http.Request) (*http.Response, error) {
	q := &Request{Method: r.Method, Path: r.URL.Path, Scheme: r.URL.Scheme, Host: r.URL.Host, Raw: r.URL.RawQuery, Header: r.Header, Context: r.Context()}
	var err error
	q.Query, err = url.ParseQuery(r.URL.RawQuery)
	nd.Assert(err == nil, "the query can't be parsed")
	if r.Body != nil {
		q.HasBody = true
		data, err := ioutil.ReadAll(r.Body)
		nd.Assert(err == nil, "the body can't be read")
		q.Body = string(data)
	}
	t.Requests = append(t.Requests, q)
	if t.Respond != nil {
		return t.Respond(len(t.Requests)-1, q)
	}
	return t.Response(200, ""), nil
}

// One returns the only request.
func (t *Transport) One() *Request {
	nd.Assert(len(t.Requests) == 1, "the number of requests isn't one")
	return t.Requests[0]
}
