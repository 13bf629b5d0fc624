//go:build go1.21

package ht

import (
	"bufio"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/plugin/ochttp"
)

var bg = context.Background()

// rw is a server's response writer following net/http: the first final status wins,
// any output before it means 200.
type rw struct {
	hdr     http.Header
	status  int // 0: not yet
	codes   []int
	body    []byte
	calls   int
	nb      int
	nerr    error
	max     int // bytes accepted per write (short writes), < 0 for all
	flushes int
}

func newRW() *rw { return &rw{hdr: http.Header{}, max: -1} }

func (r *rw) Header() http.Header { return r.hdr }
func (r *rw) Write(b []byte) (int, error) {
	if r.status == 0 {
		r.status = 200
	}
	r.calls++
	n := len(b)
	if r.max >= 0 && n > r.max {
		r.body = append(r.body, b[:r.max]...)
		return r.max, r.nerr
	}
	r.body = append(r.body, b...)
	return n, nil
}
func (r *rw) WriteHeader(code int) {
	r.codes = append(r.codes, code)
	if r.status == 0 && (code >= 200 || code == 101) {
		r.status = code
	}
}

// the optional capabilities, each recording its calls
type hj struct{ n int }

func (h *hj) Hijack() (net.Conn, *bufio.ReadWriter, error) { h.n++; return nil, nil, errHijack }

type cn struct {
	n  int
	ch chan bool
}

func (c *cn) CloseNotify() <-chan bool { c.n++; return c.ch }

type pu struct {
	n    int
	path string
	opts *http.PushOptions
}

func (p *pu) Push(t string, o *http.PushOptions) error {
	p.n++
	p.path, p.opts = t, o
	return errPush
}

type fl struct{ w *rw }

func (f fl) Flush() {
	f.w.flushes++
	if f.w.status == 0 {
		f.w.status = 200
	}
}

type rf struct {
	w   *rw
	n   int
	src io.Reader
	ret int64
	err error
}

func (r *rf) ReadFrom(src io.Reader) (int64, error) {
	r.n++
	r.src = src
	if r.w.status == 0 {
		r.w.status = 200
	}
	return r.ret, r.err
}

var errHijack, errPush = errors.New("hijack"), errors.New("push")

type src struct{}

func (*src) Read(b []byte) (int, error) { return 0, io.EOF }

// combine gives w the capabilities in mask (1 hijack, 2 close-notify, 4 push, 8 flush, 16 read-from).
func combine(mask int, w *rw, h *hj, c *cn, p *pu, f fl, r *rf) http.ResponseWriter {
	switch mask {
	case 0:
		return struct {
			http.ResponseWriter
		}{w}
	case 1:
		return struct {
			http.ResponseWriter
			http.Hijacker
		}{w, h}
	case 2:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
		}{w, c}
	case 3:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
		}{w, h, c}
	case 4:
		return struct {
			http.ResponseWriter
			http.Pusher
		}{w, p}
	case 5:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Pusher
		}{w, h, p}
	case 6:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Pusher
		}{w, c, p}
	case 7:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
		}{w, h, c, p}
	case 8:
		return struct {
			http.ResponseWriter
			http.Flusher
		}{w, f}
	case 9:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Flusher
		}{w, h, f}
	case 10:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Flusher
		}{w, c, f}
	case 11:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Flusher
		}{w, h, c, f}
	case 12:
		return struct {
			http.ResponseWriter
			http.Pusher
			http.Flusher
		}{w, p, f}
	case 13:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Pusher
			http.Flusher
		}{w, h, p, f}
	case 14:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Pusher
			http.Flusher
		}{w, c, p, f}
	case 15:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
			http.Flusher
		}{w, h, c, p, f}
	case 16:
		return struct {
			http.ResponseWriter
			io.ReaderFrom
		}{w, r}
	case 17:
		return struct {
			http.ResponseWriter
			http.Hijacker
			io.ReaderFrom
		}{w, h, r}
	case 18:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			io.ReaderFrom
		}{w, c, r}
	case 19:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
		}{w, h, c, r}
	case 20:
		return struct {
			http.ResponseWriter
			http.Pusher
			io.ReaderFrom
		}{w, p, r}
	case 21:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Pusher
			io.ReaderFrom
		}{w, h, p, r}
	case 22:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Pusher
			io.ReaderFrom
		}{w, c, p, r}
	case 23:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
			io.ReaderFrom
		}{w, h, c, p, r}
	case 24:
		return struct {
			http.ResponseWriter
			http.Flusher
			io.ReaderFrom
		}{w, f, r}
	case 25:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Flusher
			io.ReaderFrom
		}{w, h, f, r}
	case 26:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Flusher
			io.ReaderFrom
		}{w, c, f, r}
	case 27:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Flusher
			io.ReaderFrom
		}{w, h, c, f, r}
	case 28:
		return struct {
			http.ResponseWriter
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{w, p, f, r}
	case 29:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{w, h, p, f, r}
	case 30:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{w, c, p, f, r}
	case 31:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{w, h, c, p, f, r}
	}
	return w
}

// HWrap: the writer handed to the handler has the capabilities of the original and
// hands every call on.
func HWrap() {
	mask := sym.Range("mask", 0, 31)
	w := newRW()
	h, c, p, f := &hj{}, &cn{ch: make(chan bool)}, &pu{}, fl{w}
	r := &rf{w: w, ret: int64(sym.Range("read", 0, 3))}
	if sym.Bool("readErr") {
		r.err = errPush
	}
	orig := combine(mask, w, h, c, p, f, r)
	ran := 0
	op := sym.Range("op", 0, 7)
	hd := &ochttp.Handler{Handler: http.HandlerFunc(func(got http.ResponseWriter, req *http.Request) {
		ran++
		gh, ih := got.(http.Hijacker)
		gc, ic := got.(http.CloseNotifier)
		gp, ip := got.(http.Pusher)
		gf, iff := got.(http.Flusher)
		gr, ir := got.(io.ReaderFrom)
		ck(32, ih == (mask&1 != 0), "hijack is available exactly when the server offers it")
		ck(32, ic == (mask&2 != 0), "close notification is available exactly when the server offers it")
		ck(32, ip == (mask&4 != 0), "push is available exactly when the server offers it")
		ck(32, iff == (mask&8 != 0), "flush is available exactly when the server offers it")
		ck(32, ir == (mask&16 != 0), "read-from is available exactly when the server offers it")
		got.Header()["K"] = []string{"v"}
		ck(32, len(w.hdr["K"]) == 1, "the header map is the server's")
		switch op {
		case 0:
			if ih {
				_, _, err := gh.Hijack()
				ck(32, h.n == 1 && err == errHijack, "hijack reaches the server's writer once")
				sym.Cover("hijack")
			}
		case 1:
			if ic {
				ch := gc.CloseNotify()
				ck(32, c.n == 1 && ch == (<-chan bool)(c.ch), "close notification comes from the server's writer")
				sym.Cover("closenotify")
			}
		case 2:
			if ip {
				o := &http.PushOptions{Method: "GET"}
				err := gp.Push("/p", o)
				ck(32, p.n == 1 && p.path == "/p" && p.opts == o && err == errPush, "push reaches the server's writer once")
				sym.Cover("push")
			}
		case 3:
			if iff {
				gf.Flush()
				ck(32, w.flushes == 1, "flush reaches the server's writer once")
				sym.Cover("flush")
			}
		case 4:
			if ir {
				s := &src{}
				n, err := gr.ReadFrom(s)
				ck(32, r.n == 1 && n == r.ret && err == r.err, "read-from reaches the server's writer once, with its result")
				ck(32, r.src == io.Reader(s), "read-from passes the same source")
				sym.Cover("readfrom")
			}
		case 5:
			b := sym.Bytes("data", sym.Range("len", 0, 2))
			w.max = sym.Range("max", -1, 1)
			if sym.Bool("writeErr") {
				w.nerr = errPush
			}
			n, err := got.Write(b)
			wn, werr := len(b), error(nil)
			if w.max >= 0 && wn > w.max {
				wn, werr = w.max, w.nerr
			}
			ck(32, w.calls == 1 && n == wn && err == werr, "a write reaches the server's writer once, with its result")
			ck(32, string(w.body) == string(b[:wn]), "a write passes the same bytes")
			sym.Cover("write")
		case 6:
			code := []int{100, 103, 200, 404, 999}[sym.Range("code", 0, 4)]
			got.WriteHeader(code)
			ck(32, len(w.codes) == 1 && w.codes[0] == code, "the status reaches the server's writer once")
			sym.Cover("status")
		case 7:
			// nothing
		}
		ck(32, h.n <= 1 && c.n <= 1 && p.n <= 1 && r.n <= 1 && w.calls <= 1 && len(w.codes) <= 1 && w.flushes <= 1 &&
			h.n+c.n+p.n+r.n+w.calls+len(w.codes)+w.flushes <= 1, "nothing else is called")
	})}
	hd.ServeHTTP(orig, request("GET", "/x"))
	ck(32, ran == 1, "the handler runs once")
	ck(32, h.n+c.n+p.n+r.n+w.calls+len(w.codes)+w.flushes <= 1, "nothing is written after the handler")
	sym.Cover("wrapped")
}

func request(method, path string) *http.Request {
	return (&http.Request{Method: method, URL: &url.URL{Path: path}, Host: "h", Header: http.Header{}}).WithContext(bg)
}
