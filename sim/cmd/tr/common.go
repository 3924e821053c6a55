package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"
	"golang.org/x/sync/singleflight"

	"verifsim/simrt"
)

// reset gives the packages under test the state of a fresh process.
func reset() {
	singleflight.SimReset()
	jsonschema.SimReset()
	transform.SimReset()
}

const stepLimit = 3000000

// solo runs f alone, in a bubble of its own, with the runtime's randomness seeded.
func solo(seed uint64, f func()) simrt.Outcome {
	return simrt.Run(simrt.Schedule{Seed: seed, Mode: "seq"}, stepLimit, simrt.Thread{Name: "reference", Run: f})
}

// scratch returns an empty directory. It has the same name in every process.
func scratch(name ...string) string {
	cleanScratch()
	dir := filepath.Join("/sim/d", filepath.Join(name...))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	return dir
}

// dirName makes a name for a directory.
func dirName(r *simrt.Rand) string { return fmt.Sprintf("d%x", r.Intn(1<<16)) }

func cleanScratch() { os.RemoveAll("/sim/d") }

func writeFile(name, text string) {
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// answer is what a call returned. Error texts are not compared: which of several errors is
// reported first is nobody's promise.
type answer struct {
	Out   string
	Err   bool
	Panic bool
	Text  string // error or panic text, for people
}

func (a answer) same(b answer) bool { return a.Out == b.Out && a.Err == b.Err && a.Panic == b.Panic }
func (a answer) key() string        { return fmt.Sprint(a.Out, a.Err, a.Panic) }
func (a answer) String() string {
	switch {
	case a.Panic:
		return "panic (" + a.Text + ")"
	case a.Err:
		return "error (" + a.Text + ")"
	}
	return a.Out
}

type transformer interface {
	Transform(json.RawMessage) (json.RawMessage, error)
	TransformNoValidation(json.RawMessage) (json.RawMessage, error)
}

func newTransformer(s *jsonschema.Schema, xml bool) (*transform.Transformer, error) {
	if xml {
		return transform.NewXMLTransformer(s, "sim")
	}
	return transform.NewTransformer(s, "sim")
}

func call(tr transformer, raw []byte, noValidation bool) (a answer, out []byte) {
	defer func() {
		if p := recover(); p != nil {
			a, out = answer{Panic: true, Text: fmt.Sprint(p)}, nil
		}
	}()
	var err error
	if noValidation {
		out, err = tr.TransformNoValidation(raw)
	} else {
		out, err = tr.Transform(raw)
	}
	if err != nil {
		return answer{Err: true, Text: err.Error(), Out: string(out)}, out
	}
	return answer{Out: string(out)}, out
}

// verdict turns what the scheduler saw into a violation, if it saw one.
func verdict(o simrt.Outcome) (class, detail string) {
	switch {
	case o.Races > 0:
		return "race", fmt.Sprintf("%d data race(s)", o.Races)
	case o.Deadlock:
		return "deadlock", fmt.Sprint(o.Stuck)
	case o.Overrun:
		return "no-termination", fmt.Sprint(o.Stuck)
	case len(o.Panics) > 0:
		return "panic", fmt.Sprint(o.Panics)
	}
	return "", ""
}

func compact(v any) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(v)
	return string(bytes.TrimSpace(b.Bytes()))
}

func keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// echoes picks documents whose transforms serve as documents, too.
func echoes(r *simrt.Rand, docs int) (out []int) {
	if r.Chance(0.4) {
		for i := r.Range(1, 2); i > 0; i-- {
			out = append(out, r.Intn(docs))
		}
	}
	return
}

// withEchoes adds to the documents what the transform makes of some of them. It often leaves those as they are.
func withEchoes(file, schema string, xml bool, docs []string, echo []int) []string {
	docs = append([]string(nil), docs...)
	for i, e := range echo {
		if e >= len(docs) {
			continue
		}
		d := docs[e]
		if a, _, _ := eval(file, schema, xml, d, true, uint64(i)); !a.Err && !a.Panic && a.Out != "" {
			d = a.Out
		}
		docs = append(docs, d)
	}
	return docs
}
