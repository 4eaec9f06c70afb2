package simk

import "runtime"

// The network stub: what the far end does with each HTTP request.

type netChunk struct {
	delay int64
	data  string
}

const (
	nrReply   = iota // answer with status, headers and chunks
	nrAuto           // as nrReply, but 304 when the request carries the current ETag
	nrDNS            // name resolution fails
	nrRefused        // connection refused
	nrBlack          // no answer, ever
	nrReset          // connection reset before any header
	nrTLS            // TLS failure
)

const (
	neEOF   = iota
	neReset // connection reset in the body
	neHang  // body never finishes
)

type netReply struct {
	kind   int
	delay  int64
	status int
	etag   string
	hdr    []string // alternating names and values
	chunks []netChunk
	end    int
}

// NetEvent is one thing the client observes.
type NetEvent struct {
	Err    string
	Status int
	Hdr    []string
	Data   []byte
	EOF    bool
	Header bool
}

// NetConn is one request in flight.
type NetConn struct {
	C      chan NetEvent
	closed chan struct{}
	done   bool
	id     int
}

var netCount int

// NetStart sends a request.
func NetStart(method, url, etag, ua string, extra int) *NetConn {
	sysEnter("net", url)
	id := netCount
	netCount++
	ev("netreq", id, method, url, etag, ua)
	fireEvents(trNet, "", 0)
	var r netReply
	switch {
	case len(conf.net) == 0:
		r.kind = nrRefused
	case id < len(conf.net):
		r = conf.net[id]
	default:
		r = conf.net[len(conf.net)-1]
	}
	c := &NetConn{C: make(chan NetEvent), closed: make(chan struct{}), id: id}
	go c.serve(r, etag)
	return c
}

func (c *NetConn) send(e NetEvent) bool {
	select {
	case c.C <- e:
		return true
	case <-c.closed:
		return false
	}
}

func (c *NetConn) serve(r netReply, etag string) {
	ev("netkind", c.id, r.kind, r.end)
	if r.delay > 0 {
		runtime.SimSleep(r.delay)
	}
	switch r.kind {
	case nrDNS:
		c.send(NetEvent{Err: "dial tcp: lookup api.github.com: no such host"})
		return
	case nrRefused:
		c.send(NetEvent{Err: "dial tcp 192.0.2.1:443: connect: connection refused"})
		return
	case nrTLS:
		c.send(NetEvent{Err: "tls: failed to verify certificate: x509: certificate signed by unknown authority"})
		return
	case nrReset:
		c.send(NetEvent{Err: "read tcp 192.0.2.1:443: connection reset by peer"})
		return
	case nrBlack:
		<-c.closed
		return
	}
	hdr := append([]string(nil), r.hdr...)
	if r.etag != "" {
		hdr = append(hdr, "Etag", r.etag)
	}
	if r.kind == nrAuto && etag != "" && etag == r.etag {
		ev("netresp", c.id, 304)
		if c.send(NetEvent{Header: true, Status: 304, Hdr: hdr}) {
			c.send(NetEvent{EOF: true})
		}
		return
	}
	ev("netresp", c.id, r.status)
	if !c.send(NetEvent{Header: true, Status: r.status, Hdr: hdr}) {
		return
	}
	for _, k := range r.chunks {
		if k.delay > 0 {
			runtime.SimSleep(k.delay)
		}
		if !c.send(NetEvent{Data: []byte(k.data)}) {
			return
		}
	}
	switch r.end {
	case neEOF:
		ev("netdone", c.id)
		c.send(NetEvent{EOF: true})
	case neReset:
		c.send(NetEvent{Err: "read tcp 192.0.2.1:443: connection reset by peer"})
	case neHang:
		<-c.closed
	}
}

// Close abandons the request.
func (c *NetConn) Close() {
	if !c.done {
		c.done = true
		ev("netclose", c.id)
		close(c.closed)
	}
}
