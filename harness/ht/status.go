//go:build go1.21

// Package ht checks the HTTP plugin.
package ht

import (
	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/plugin/ochttp"
)

func ck(prop int, c bool, label string) {
	if p := sym.Param("prop", 0); p != 0 && p != prop {
		return
	}
	sym.Assert(c, label)
}

type want struct {
	http, code int
	msg        string
}

var table = []want{
	{499, 1, "CANCELLED"}, {400, 3, "INVALID_ARGUMENT"}, {422, 3, "INVALID_ARGUMENT"},
	{504, 4, "DEADLINE_EXCEEDED"}, {404, 5, "NOT_FOUND"}, {409, 6, "ALREADY_EXISTS"},
	{403, 7, "PERMISSION_DENIED"}, {401, 16, "UNAUTHENTICATED"}, {429, 8, "RESOURCE_EXHAUSTED"},
	{501, 12, "UNIMPLEMENTED"}, {503, 14, "UNAVAILABLE"},
}

// refStatus is the documented mapping.
func refStatus(http int) (int32, string) {
	if http >= 200 && http < 400 {
		return 0, "OK"
	}
	for _, w := range table {
		if http == w.http {
			return int32(w.code), w.msg
		}
	}
	return 2, "UNKNOWN"
}

// HStatus: every HTTP status code.
func HStatus() {
	h := sym.Int("code")
	line := sym.Str("line", sym.Range("n", 0, 1))
	s := ochttp.TraceStatus(h, line)
	code, msg := refStatus(h)
	ck(31, s.Code == code, "the status code is the documented one")
	ck(31, s.Message == msg, "the message names the code")
	switch {
	case code == 0:
		sym.Cover("ok")
	case code == 2:
		sym.Cover("unknown")
	default:
		sym.Cover("listed")
	}
}
