package main

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	cli "verifcli"

	"github.com/GannettDigital/jstransform/generate"
	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/actgardner/gogen-avro/v7/generator"
	"golang.org/x/sync/singleflight"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

// reset gives the packages under test the state of a fresh process.
func reset() {
	singleflight.SimReset()
	jsonschema.SimReset()
	generate.SimReset()
	cli.SimReset()
	generator.SetNamer(&generator.DefaultNamer{})
}

const stepLimit = 3000000

// The simulated disk: everything below root. Its operations are numbered, all of a generation and
// those of each class.
const root = "/sim/d"

// hit is a planned fault.
type hit struct {
	Class string  // "any", "open", "create", "read", "write", "close", "stat", "dir", "mkdir"; "write.go" and so on for files of a kind
	At    float64 // place among the operations of the class, as a fraction of those of a healthy run
	Kind  string  // "error", "once", "full", "brief", "readonly", "crash", "power", "short"
	Errno string
	Part  float64 // how much of a write gets through
}

type op struct {
	kind, path string
	n          int64
}

type disk struct {
	plan     []hit
	at       []int // absolute numbers
	n        map[string]int
	log      []op
	dead     bool
	power    bool
	full     bool
	brief    int // changes that the disk, full for a while, still refuses
	ro       bool
	shorts   bool
	fired    map[string]int
	exec     []string
	wrote    []string // files in the order of their first write
	pipes    []chan struct{}
	outside  []string       // paths made or changed that are not in the scratch directory
	open     map[string]int // files open for writing
	badClose []string       // files whose writing failed at the close
	synced   map[string]bool
}

var theDisk *disk

func class(kind string) string {
	switch kind {
	case "opendir":
		return "dir"
	case "rename", "remove", "truncate", "sync":
		return "other"
	}
	return kind
}

func newDisk(plan []hit, healthy []op) *disk {
	d := &disk{plan: plan, n: map[string]int{}, fired: map[string]int{}, open: map[string]int{}, synced: map[string]bool{}}
	count := map[string]int{}
	for _, o := range healthy {
		count["any"]++
		count[class(o.kind)]++
		count[class(o.kind)+filepath.Ext(o.path)]++
	}
	for _, h := range plan {
		at := -1
		if c := count[h.Class]; c > 0 {
			at = min(int(h.At*float64(c)), c-1)
		}
		d.at = append(d.at, at)
	}
	return d
}

func errno(s string) error {
	switch s {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EMFILE":
		return syscall.EMFILE
	case "EACCES":
		return syscall.EACCES
	case "EROFS":
		return syscall.EROFS
	case "EDQUOT":
		return syscall.EDQUOT
	}
	return syscall.EIO
}

// goCommand stands in for the go command that goimports asks for its environment.
func (d *disk) goCommand(c *exec.Cmd) (bool, error) {
	if !simrt.Simulated() {
		return false, nil
	}
	simrt.Yield(9)
	verb := strings.Join(c.Args[1:min(3, len(c.Args))], " ")
	d.exec = append(d.exec, verb)
	k := d.n["exec"]
	d.n["exec"]++
	for _, h := range d.plan {
		if h.Class == "exec" && int(h.At*10) == k%10 && !d.dead {
			d.fired["exec-error"]++
			return true, &os.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.EAGAIN}
		}
	}
	if d.dead || verb != "env -json" {
		return true, errors.New("exit status 1")
	}
	fmt.Fprintf(c.Stdout, `{"GO111MODULE":"","GOFLAGS":"","GOINSECURE":"","GOMOD":"/dev/null","GOMODCACHE":"/sim/gopath/pkg/mod","GONOPROXY":"","GONOSUMDB":"","GOPATH":"/sim/gopath","GOPROXY":"off","GOROOT":"/sim/goroot","GOSUMDB":"off","GOWORK":""}`)
	return true, nil
}

func (d *disk) goWait(c *exec.Cmd) (bool, error) { return simrt.Simulated(), nil }

const pipes = "/sim/pipe/"

// pipe returns a pipe made of a file. What is read waits until the other end is closed, in a way
// the scheduler knows of.
func (d *disk) pipe() (r, w *os.File, err error) {
	name := fmt.Sprint(pipes, "w", len(d.pipes))
	d.pipes = append(d.pipes, make(chan struct{}))
	os.MkdirAll(pipes, 0o755)
	if w, err = os.OpenFile(name, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0o600); err != nil {
		return nil, nil, err
	}
	other := strings.Replace(name, "w", "r", 1)
	os.Rename(name, other)
	r, err = os.Open(other)
	os.Remove(other)
	return r, w, err
}

func (d *disk) pipeOp(kind, path string) {
	var end byte
	var k int
	if n, _ := fmt.Sscanf(path[len(pipes):], "%c%d", &end, &k); n != 2 || k >= len(d.pipes) {
		return
	}
	switch {
	case end == 'r' && kind == "read":
		<-d.pipes[k]
	case end == 'w' && kind == "close":
		select {
		case <-d.pipes[k]:
		default:
			close(d.pipes[k])
		}
	}
}

var errDead = errors.New("the process is dead")

func (d *disk) op(kind, path string, n int64) (int64, error) {
	if !simrt.Simulated() {
		return n, nil
	}
	if kind == "exec" {
		d.exec = append(d.exec, path)
		return 0, syscall.ENOENT
	}
	from := ""
	if kind == "rename" {
		from, path, _ = strings.Cut(path, "\x00")
	}
	if !strings.HasPrefix(path, "/") {
		path = filepath.Join(os.SimWd, path)
	}
	if from != "" && !strings.HasPrefix(from, "/") {
		from = filepath.Join(os.SimWd, from)
	}
	if strings.HasPrefix(path, pipes) {
		d.pipeOp(kind, path)
		return n, nil
	}
	if !strings.HasPrefix(path, root) {
		if kind == "create" || kind == "rename" || kind == "remove" || kind == "mkdir" || kind == "truncate" {
			d.outside = append(d.outside, path)
		}
		return n, nil
	}
	simrt.Yield(9)
	if d.dead {
		return 0, errDead
	}
	d.log = append(d.log, op{kind, path, n})
	if kind == "create" || kind == "write" {
		d.touch(path)
		d.synced[path] = false
	}
	written := false
	switch {
	case kind == "create":
		d.open[path]++
	case kind == "close" && d.open[path] > 0:
		d.open[path]--
		written = true
	}
	c := class(kind)
	ext := c + filepath.Ext(path)
	all, mine, kin := d.n["any"], d.n[c], d.n[ext]
	d.n["any"]++
	d.n[c]++
	if ext != c {
		d.n[ext]++
	}
	changes := kind == "create" || kind == "write" || kind == "mkdir" || kind == "rename" || kind == "truncate"
	for i, h := range d.plan {
		if !(h.Class == "any" && d.at[i] == all || h.Class == c && d.at[i] == mine || ext != c && h.Class == ext && d.at[i] == kin) {
			continue
		}
		part := int64(h.Part * float64(n))
		if kind != "write" {
			part = 0
		}
		switch h.Kind {
		case "crash", "power":
			d.dead, d.power = true, h.Kind == "power"
			d.fired[h.Kind+"-at-"+c]++
			return part, errDead
		case "full":
			d.full = true
		case "brief":
			d.full, d.brief = true, 1+int(h.Part*7)
		case "readonly":
			d.ro = true
		case "short":
			if kind == "read" {
				d.fired["short-read"]++
				d.shorts = true
			}
		default:
			d.fired[c+"-"+h.Errno]++
			if written {
				// What the system held back until the close is lost.
				d.badClose = append(d.badClose, path)
				d.cut(path, h.Part)
			}
			return part, errno(h.Errno)
		}
		if changes && (d.full || d.ro) {
			d.fired["disk-"+h.Kind]++
			if d.ro {
				return 0, syscall.EROFS
			}
			return part, syscall.ENOSPC
		}
	}
	switch {
	case kind == "sync":
		d.synced[path] = true
	case kind == "rename":
		d.touch(path)
		d.synced[path] = d.synced[from]
	}
	switch {
	case d.full && changes:
		d.fired["disk-full-later"]++
		if d.brief > 0 {
			if d.brief--; d.brief == 0 {
				d.full = false
			}
		}
		return 0, syscall.ENOSPC
	case d.ro && changes:
		d.fired["disk-readonly-later"]++
		return 0, syscall.EROFS
	case d.shorts && kind == "read":
		return min(n, 1+n/7), nil
	}
	return n, nil
}

func (d *disk) cut(path string, part float64) {
	name := os.SimReal + strings.TrimPrefix(path, os.SimPrefix)
	var st syscall.Stat_t
	if syscall.Stat(name, &st) == nil {
		syscall.Truncate(name, int64(part*float64(st.Size)))
	}
}

func (d *disk) touch(path string) {
	for _, p := range d.wrote {
		if p == path {
			return
		}
	}
	d.wrote = append(d.wrote, path)
}

// losePower takes from the files written what had not reached the disk: any of them may have lost
// its end, or all of it.
func (d *disk) losePower(r *simrt.Rand) {
	for _, p := range d.wrote {
		fi, err := os.Stat(p)
		if err != nil || !fi.Mode().IsRegular() || d.synced[p] {
			continue
		}
		switch r.Intn(4) {
		case 0:
			os.Truncate(p, 0)
		case 1:
			os.Truncate(p, int64(r.Intn(int(fi.Size())+1)))
		case 2:
			if r.Chance(0.3) {
				os.Remove(p)
			}
		}
	}
}

// place is where a generation happens.
type place struct{ base string }

func (p place) schema() string { return filepath.Join(p.base, "schemas") }
func (p place) out(s *wl.GenSpec) string {
	return filepath.Join(p.base, "src", s.Pkg)
}
func (p place) gql(s *wl.GenSpec) string {
	if s.GraphQLApart {
		return filepath.Join(p.base, "gql")
	}
	return p.out(s)
}

func mkdir(dir string) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
}

func writeFile(name, text string) {
	mkdir(filepath.Dir(name))
	if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
		panic(err)
	}
	// Files that are laid out are older than those a generation writes, whatever the granularity of the clock.
	real := os.SimReal + strings.TrimPrefix(name, os.SimPrefix)
	if err := syscall.UtimesNano(real, []syscall.Timespec{{Sec: 1e9}, {Sec: 1e9}}); err != nil {
		panic(err)
	}
}

// setup lays out the schema files and the output directories.
func (p place) setup(s *wl.GenSpec) {
	for _, f := range s.Files {
		writeFile(filepath.Join(p.schema(), f.Name), f.Text)
	}
	mkdir(p.out(s))
	mkdir(p.gql(s))
}

// files returns the output.
func (p place) files(s *wl.GenSpec) map[string]string {
	m := map[string]string{}
	for _, dir := range []string{filepath.Join(p.base, "src"), filepath.Join(p.base, "gql")} {
		filepath.WalkDir(dir, func(name string, e os.DirEntry, err error) error {
			if err != nil || e.IsDir() {
				return nil
			}
			b, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			rel, _ := filepath.Rel(p.base, name)
			m[rel] = string(b)
			return nil
		})
	}
	return m
}

func importPath(s *wl.GenSpec) string { return "example.com/verif/" + s.Pkg }

func buildArgs(p place, s *wl.GenSpec) generate.BuildArgs {
	a := generate.BuildArgs{
		SchemaPath: filepath.Join(p.schema(), s.Files[0].Name), OutputDir: p.out(s),
		DescriptionAsStructTag: s.DescAsTag, NoNestedStructs: s.NoNested, Pointers: s.Pointers, InterfaceFiles: s.InterfaceFiles,
		GenerateAvro: s.Avro, GenerateMessagePack: s.Msgp, GenerateGraphQL: s.GraphQL, ImportPath: importPath(s),
		StructNameMap: clone(s.Rename), FieldNameMap: clone(s.RenameF), GraphQLTypeNameMap: clone(s.RenameGQL), EmbedAllOf: s.Embed, ScalarAny: s.ScalarAny,
	}
	if s.GraphQLApart {
		a.OutputDirGraphQL = p.gql(s)
	}
	return a
}

func clone(m map[string]string) map[string]string {
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// cliArgs is the command line for the same settings. here omits the output directory: it is the
// working directory.
func cliArgs(p place, s *wl.GenSpec, here bool) []string {
	a := []string{"jstransform", fmt.Sprint("-nestedStructs=", !s.NoNested), fmt.Sprint("-pointers=", s.Pointers), fmt.Sprint("-descriptionAsStructTag=", s.DescAsTag),
		fmt.Sprint("-embedAllOf=", s.Embed), fmt.Sprint("-interfaceFiles=", s.InterfaceFiles), fmt.Sprint("-scalarAny=", s.ScalarAny), "-importPath", importPath(s)}
	for _, f := range []struct {
		on   bool
		name string
	}{{s.Avro, "-avro"}, {s.Msgp, "-msgp"}, {s.GraphQL, "-graphql"}} {
		if f.on {
			a = append(a, f.name)
		}
	}
	for _, f := range []struct {
		m    map[string]string
		name string
	}{{s.Rename, "-rename"}, {s.RenameF, "-renameFields"}, {s.RenameGQL, "-renameGraphQLType"}} {
		for _, k := range keys(f.m) {
			a = append(a, f.name, k+"="+f.m[k])
		}
	}
	if s.GraphQLApart {
		a = append(a, "-outputPathGraphQL", p.gql(s))
	}
	if here {
		return append(a, "../../schemas/"+s.Files[0].Name)
	}
	return append(a, filepath.Join(p.schema(), s.Files[0].Name), p.out(s))
}

// way is how a generation is started.
type way struct {
	CLI  bool
	Here bool // the command, in the output directory
}

type exited struct{ code int }

// result of one generation.
type genResult struct {
	ok     bool
	failed bool // reported an error or a non-zero status
	panics string
	text   string
	out    simrt.Outcome
	disk   *disk
}

func (g *genResult) String() string {
	switch {
	case g.panics != "":
		return "panic (" + g.panics + ")"
	case g.failed:
		return "failure (" + g.text + ")"
	}
	return "success"
}

var devNull, _ = os.OpenFile("/dev/null", os.O_RDWR, 0)

// generation runs one generation in the simulator.
func generation(p place, s *wl.GenSpec, w way, sched simrt.Schedule, plan []hit, healthy []op) *genResult {
	g := &genResult{disk: newDisk(plan, healthy)}
	stdout, stderr, args := os.Stdout, os.Stderr, os.Args
	os.SimFS, os.Stdout, os.Stderr = g.disk.op, devNull, devNull
	exec.SimExec, exec.SimWait = g.disk.goCommand, g.disk.goWait
	os.SimPipe = func() (r, w *os.File, err error) {
		if !simrt.Simulated() {
			return nil, nil, errors.New("no pipe outside the simulation")
		}
		return g.disk.pipe()
	}
	if w.CLI {
		if f, err := os.Create(filepath.Join(p.base, "stdout")); err == nil {
			os.Stdout = f
			defer f.Close()
		}
	}
	os.SimWd = p.out(s)
	defer func() {
		os.SimFS, os.Stdout, os.Stderr, os.Args, os.SimWd, os.SimExit = nil, stdout, stderr, args, "", nil
		exec.SimExec, exec.SimWait, os.SimPipe = nil, nil, nil
	}()
	g.out = simrt.Run(sched, stepLimit, simrt.Thread{Name: "generation", Run: func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(exited); ok {
					g.ok, g.failed, g.text = e.code == 0, e.code != 0, fmt.Sprint("exit status ", e.code)
				} else {
					g.failed, g.panics = true, fmt.Sprint(r)
				}
			}
		}()
		if w.CLI {
			os.SimExit = func(code int) { panic(exited{code}) }
			os.Args = cliArgs(p, s, w.Here)
			flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
			cli.Main()
			g.ok = true
			return
		}
		if err := generate.BuildStructsWithArgs(buildArgs(p, s)); err != nil {
			g.failed, g.text = true, err.Error()
		} else {
			g.ok = true
		}
	}})
	if len(g.out.Panics) > 0 {
		g.failed, g.ok, g.panics = true, false, fmt.Sprint(g.out.Panics)
	}
	if g.out.Deadlock || g.out.Overrun || g.out.Leak {
		g.ok = false
	}
	if os.Getenv("SIM_DEBUG") == "3" {
		for _, o := range g.disk.log {
			fmt.Fprintln(stderr, o.kind, o.path, o.n)
		}
		fmt.Fprintln(stderr, "exec", g.disk.exec, g.String())
	}
	return g
}

func fresh() place {
	os.RemoveAll(root)
	return place{root + "/a"}
}

func clean() { os.RemoveAll(root) }

// differ says how the files of a run differ from those wanted. Files in extra may be there.
func differ(want, got map[string]string, extra func(name string) bool) (class, detail string) {
	for _, k := range keys(want) {
		g, ok := got[k]
		if !ok {
			return "missing-file", k + " is missing"
		}
		if g != want[k] {
			return "wrong-file", fmt.Sprintf("%s differs: %s", k, firstDiff(want[k], g))
		}
	}
	for _, k := range keys(got) {
		if _, ok := want[k]; !ok && !extra(k) {
			return "extra-file", k + " should not be there"
		}
	}
	return "", ""
}

func firstDiff(want, got string) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<end>", "<end>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("line %d is %q instead of %q", i+1, clip(y), clip(x))
		}
	}
	return "?"
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var refMemo struct {
	spec any
	val  any
}

// memo keeps the last value of f for a spec.
func memo(spec any, f func() any) any {
	if refMemo.spec != spec {
		refMemo.spec, refMemo.val = spec, f()
	}
	return refMemo.val
}

// reference is an undisturbed generation in an empty directory by a fresh process.
type reference struct {
	*genResult
	files map[string]string
}

// warm fills the caches that the standard library and the generators' libraries keep for the life of
// a process, so that a case takes the same course whatever the process did before.
func warm() {
	if warmed {
		return
	}
	warmed = true
	r := simrt.NewRand(1)
	for i := range 24 {
		g := &wl.GGen{R: r, Crash: i%4 == 3}
		s := g.Gen()
		if i%2 == 0 {
			s.Avro, s.Msgp, s.GraphQL = true, i%4 == 0, true
		}
		reset()
		p := fresh()
		p.setup(&s)
		generation(p, &s, way{CLI: i%3 == 0, Here: i%6 == 0}, simrt.Schedule{Seed: uint64(i), Mode: "seq"}, nil, nil)
	}
	clean()
}

var warmed bool

func refer(spec any, s *wl.GenSpec) *reference {
	warm()
	return memo(spec, func() any {
		reset()
		p := fresh()
		p.setup(s)
		g := generation(p, s, way{}, simrt.Schedule{Seed: 12345, Mode: "seq"}, nil, nil)
		return &reference{g, p.files(s)}
	}).(*reference)
}

// add collects what a run showed.
func add(res *harness.Result, g *genResult) {
	d := res.Out
	res.Out = g.out
	res.Out.Switches += d.Switches
	res.Out.Yields += d.Yields
	res.Out.SimNanos += d.SimNanos
	res.Out.Hash = harness.Hash(fmt.Sprint(d.Hash, g.out.Hash))
	if res.Faults == nil {
		res.Faults = map[string]int{}
	}
	if res.Probes == nil {
		res.Probes = map[string]int{}
	}
	for k, v := range g.disk.fired {
		res.Faults[k] += v
	}
	var ops []string
	for _, o := range g.disk.log {
		ops = append(ops, o.kind, o.path)
	}
	res.Trace = harness.Hash(fmt.Sprint(res.Trace, harness.Hash(ops...), g.ok, g.failed))
}

// broken is a verdict that no property of generation allows.
func broken(g *genResult) (class, detail string) {
	switch {
	case g.out.Deadlock:
		return "deadlock", fmt.Sprint(g.out.Stuck)
	case g.out.Overrun:
		return "no-termination", fmt.Sprint(g.out.Stuck)
	}
	return "", ""
}

func genSpec(r *simrt.Rand) *wl.GenSpec {
	g := &wl.GGen{R: r, Crash: r.Chance(0.1)}
	s := g.Gen()
	return &s
}

var _ = io.EOF

// faults lists what hit the generation.
func (g *genResult) faults() string {
	var s []string
	for _, k := range keys(g.disk.fired) {
		s = append(s, fmt.Sprintf("%s (%d)", k, g.disk.fired[k]))
	}
	if len(s) == 0 {
		return "no fault"
	}
	if n := len(g.disk.log); n > 0 && g.disk.dead {
		s = append(s, fmt.Sprintf("last operation: %s %s", g.disk.log[n-1].kind, g.disk.log[n-1].path))
	}
	return strings.Join(s, ", ")
}
