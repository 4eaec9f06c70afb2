package http

import (
	"errors"
	"internal/simk"
	"io"
)

// simRoundTrip carries a request over the simulated network.
func simRoundTrip(t *Transport, req *Request) (*Response, error) {
	if req.Body != nil {
		io.Copy(io.Discard, req.Body)
		req.Body.Close()
	}
	ctx := req.Context()
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	c := simk.NetStart(req.Method, req.URL.String(), req.Header.Get("If-None-Match"), req.Header.Get("User-Agent"), 0)
	select {
	case <-ctx.Done():
		c.Close()
		return nil, ctx.Err()
	case <-req.Cancel:
		c.Close()
		return nil, errors.New("net/http: request canceled")
	case e := <-c.C:
		if e.Err != "" {
			c.Close()
			return nil, errors.New(e.Err)
		}
		h := Header{}
		for i := 0; i+1 < len(e.Hdr); i += 2 {
			h.Add(e.Hdr[i], e.Hdr[i+1])
		}
		return &Response{
			Status: StatusText(e.Status), StatusCode: e.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: h, ContentLength: -1, Request: req,
			Body: &simBody{c: c, req: req},
		}, nil
	}
}

type simBody struct {
	c    *simk.NetConn
	req  *Request
	rest []byte
	err  error
}

func (b *simBody) Read(p []byte) (int, error) {
	for {
		if b.err != nil {
			return 0, b.err
		}
		if len(b.rest) > 0 {
			n := copy(p, b.rest)
			b.rest = b.rest[n:]
			return n, nil
		}
		if len(p) == 0 {
			return 0, nil
		}
		select {
		case <-b.req.Context().Done():
			b.err = b.req.Context().Err()
			b.c.Close()
		case e := <-b.c.C:
			switch {
			case e.Err != "":
				b.err = errors.New(e.Err)
			case e.EOF:
				b.err = io.EOF
			default:
				b.rest = e.Data
			}
		}
	}
}

func (b *simBody) Close() error {
	if b.err == nil {
		b.err = errors.New("http: read on closed response body")
	}
	b.c.Close()
	return nil
}
