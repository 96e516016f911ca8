package h

import "net/http"

// Rec is a minimal ResponseWriter.
type Rec struct {
	H      http.Header
	Code   int
	Body   []byte
	Writes int
}

// NewRec makes one.
func NewRec() *Rec { return &Rec{H: http.Header{}} }

// Header implements http.ResponseWriter.
func (r *Rec) Header() http.Header { return r.H }

// WriteHeader implements http.ResponseWriter.
func (r *Rec) WriteHeader(c int) {
	if r.Code == 0 {
		r.Code = c
	}
}

// Write implements http.ResponseWriter.
func (r *Rec) Write(b []byte) (int, error) {
	if r.Code == 0 {
		r.Code = 200
	}
	r.Writes++
	r.Body = append(r.Body, b...)
	return len(b), nil
}

// Status is the status sent (200 if the handler wrote nothing).
func (r *Rec) Status() int {
	if r.Code == 0 {
		return 200
	}
	return r.Code
}
