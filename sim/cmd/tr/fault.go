package main

import (
	"fmt"
	"io"
	"net/http"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"

	"verifsim/simrt"
)

// fault is one planned fault: it hits the operations of its class numbered From to To-1, counted
// over the whole run, or those of one file only.
type fault struct {
	Op   string // "open", "read", "close", "http" or "body"
	From int
	To   int
	Kind string
	Name string `json:",omitempty"` // only operations on files whose path ends so
}

// The plan of faults in effect. Only lists: the map functions of the runtime report accesses to the
// race detector.
var (
	plan []fault
	cuts *cutFile
)

type cutFile struct {
	name string
	on   bool
	next *cutFile
}

func usePlan(p []fault) { plan, cuts = p, nil }

//go:norace
func cutOf(name string) *cutFile {
	for c := cuts; c != nil; c = c.next {
		if c.name == name {
			return c
		}
	}
	cuts = &cutFile{name: name, next: cuts}
	return cuts
}

// strike says which fault hits the next operation of the class.
//
//go:norace
func strike(op, name string) string {
	n, m := simrt.Count(op), simrt.Count(op+" "+name)
	for i := range plan {
		f := &plan[i]
		k := n
		if f.Name != "" {
			k = m
			if !strings.HasSuffix(name, "/"+f.Name) {
				continue
			}
		}
		if f.Op == op && k >= f.From && k < f.To {
			simrt.Record("fault", op+"-"+f.Kind, name)
			return f.Kind
		}
	}
	return ""
}

func errno(kind string) error {
	switch kind {
	case "EMFILE":
		return syscall.EMFILE
	case "EACCES":
		return syscall.EACCES
	case "ENOENT":
		return syscall.ENOENT
	}
	return syscall.EIO
}

// fileFaults is the os.SimFS of runs with faulty files. dir is the scratch directory.
func fileFaults(dir string) func(op, path string, n int64) (int64, error) {
	return func(op, path string, n int64) (int64, error) { return fileOp(dir, op, path, n) }
}

//go:norace
func fileOp(dir, op, path string, n int64) (int64, error) {
	if !simrt.Simulated() || !strings.HasPrefix(path, dir) {
		return n, nil
	}
	simrt.Yield(9)
	switch op {
	case "open":
		cutOf(path).on = false
		if k := strike(op, path); k != "" {
			simrt.Record("severe", path, "open "+k)
			return 0, errno(k)
		}
		simrt.Record("open", path, "")
	case "close":
		simrt.Record("close", path, "")
		if k := strike(op, path); k != "" {
			return 0, errno(k)
		}
	case "read":
		if cutOf(path).on {
			return 0, io.EOF
		}
		switch k := strike(op, path); k {
		case "":
		case "short":
			return max(1, n/16), nil
		case "cut":
			// The file ends early: this read gets part of it, the next one finds the end.
			cutOf(path).on = true
			return min(n, 20+int64(simrt.Count("cut")*37%200)), nil
		case "empty":
			cutOf(path).on = true
			return 0, io.EOF
		default:
			simrt.Record("severe", path, "read "+k)
			return 0, errno(k)
		}
	}
	return n, nil
}

func noFileFaults() { os.SimFS = nil }

// web is the stand-in for the network: an http.RoundTripper over a set of files.
type web struct {
	files map[string]string // URL path to content
}

type body struct {
	id    int
	path  string
	rest  string
	end   error
	fault string
}

//go:norace
func (b *body) Read(p []byte) (int, error) {
	simrt.Yield(10)
	n := min(len(p), 1+len(b.rest)/2, len(b.rest))
	if len(b.rest) == 0 {
		simrt.Record("body-end", fmt.Sprint(b.id), b.end.Error())
		if b.end != io.EOF {
			simrt.Record("severe", b.path, "body: "+b.end.Error())
		}
		return 0, b.end
	}
	switch strike("body", b.path) {
	case "reset":
		simrt.Record("body-end", fmt.Sprint(b.id), "reset")
		simrt.Record("severe", b.path, "body reset")
		b.rest, b.end = "", syscall.ECONNRESET
		return 0, b.end
	case "stall":
		simrt.Sleep(90 * time.Second)
	}
	copy(p, b.rest[:n])
	b.rest = b.rest[n:]
	return n, nil
}

//go:norace
func (b *body) Close() error {
	simrt.Record("body-close", fmt.Sprint(b.id), "")
	return nil
}

const errorPage = `{"type":"object","properties":{"error":{"type":"string"},"a":{"type":"string"},"title":{"type":"string"}},"definitions":{"d0":{"type":"string"}}}`

//go:norace
func (w *web) RoundTrip(r *http.Request) (*http.Response, error) {
	id := simrt.Count("exchange")
	simrt.Yield(11)
	if r.Body != nil {
		r.Body.Close()
	}
	text, ok := w.files[r.URL.Path]
	status := 200
	b := &body{id: id, path: r.URL.Path, end: io.EOF}
	kind := strike("http", r.URL.Path)
	switch {
	case kind == "refused":
		simrt.Record("severe", b.path, kind)
		return nil, &netError{"connection refused"}
	case kind == "timeout":
		simrt.Record("severe", b.path, kind)
		simrt.Sleep(30 * time.Second)
		return nil, &netError{"i/o timeout"}
	case kind == "delay":
		simrt.Sleep(time.Duration(1+id%7) * 13 * time.Second)
	case strings.HasPrefix(kind, "status"):
		fmt.Sscanf(kind, "status%d", &status)
		text, ok = errorPage, true
		if id%3 == 1 {
			text = "<html><body>sorry</body></html>"
		}
	case kind == "html":
		text, ok = "<html><body>please log in</body></html>", true
	case kind == "empty":
		text = ""
	case kind == "cut":
		text, b.end = text[:len(text)*(id%5)/5], io.ErrUnexpectedEOF
	case kind == "late-reset":
		b.end = syscall.ECONNRESET
	case kind == "silent-cut":
		text = text[:len(text)*(id*2%7)/7]
	}
	if !ok {
		status, text = 404, errorPage
	}
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	if status != 200 {
		simrt.Record("severe", b.path, fmt.Sprint("status ", status))
	} else {
		simrt.Record("fine", b.path, "")
	}
	length := int64(-1)
	if kind != "silent-cut" && id%2 == 0 {
		length = int64(len(w.files[r.URL.Path]))
		if b.end != io.ErrUnexpectedEOF {
			length = int64(len(text))
		}
	}
	b.rest = text
	from := "loader"
	var pcs [64]uintptr
	fs := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
	for {
		f, more := fs.Next()
		if strings.Contains(f.Function, "/gojsonschema.") {
			from = "gojsonschema"
			break
		}
		if !more {
			break
		}
	}
	simrt.Record("exchange", fmt.Sprint(id), fmt.Sprint(from, " ", status))
	return &http.Response{Status: fmt.Sprint(status, " ", http.StatusText(status)), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: b, ContentLength: length, Request: r}, nil
}

type netError struct{ s string }

func (e *netError) Error() string   { return e.s }
func (e *netError) Timeout() bool   { return strings.Contains(e.s, "timeout") }
func (e *netError) Temporary() bool { return true }

// leftOpen lists the connections and files of the run that were neither closed nor used up.
func leftOpen(events []simrt.Event) (mine, theirs []string) {
	state := map[string]string{}
	open := map[string]int{}
	for _, e := range events {
		switch e.Kind {
		case "exchange":
			state[e.Key] = e.Data
		case "body-end", "body-close":
			delete(state, e.Key)
		case "open":
			open[e.Key]++
		case "close":
			open[e.Key]--
		}
	}
	for _, k := range keys(state) {
		if f := strings.Fields(state[k]); f[0] == "gojsonschema" && f[1] != "200" {
			theirs = append(theirs, fmt.Sprintf("exchange %s (status %s) of gojsonschema's loader", k, f[1]))
		} else {
			mine = append(mine, fmt.Sprintf("exchange %s (%s)", k, state[k]))
		}
	}
	for _, k := range keys(open) {
		if _, err := os.Stat(k); err == nil && open[k] > 0 {
			mine = append(mine, "file "+k)
		}
	}
	return
}
