package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os/exec"
	"path"
	"reflect"
	"strings"
	"syscall"
	"unicode/utf8"

	vp "github.com/vim-jp/go-vimlparser"

	"verif/draw"
	"verif/gen"
	"verif/hints"
	"verif/simos"
	"verif/simrt"
)

// ChildArg makes the worker simulate one run of the command.
const ChildArg = "-simulate-one-run"

// Child is one simulated run of the command: the world before and after.
type Child struct {
	World    simos.World
	Sched    simrt.Config
	Steps    int64
	Overrun  bool
	Deadlock bool
	Clock    int64
}

// cliInput is one input of the command.
type cliInput struct {
	src  Source
	spec simos.ReadSpec
	miss bool // does not exist

	// what is to become of it
	ok     bool
	text   []byte
	json   []byte
	diag   string   // must be on standard error
	place  []string // or one of these
	reason string
	vague  bool // closing it fails: the status may or may not tell
}

// cli is a drawn invocation.
type cli struct {
	in     []*cliInput
	order  []int // arguments: indices into in
	neovim bool
	json   bool
	args   []string
	stdin  *cliInput // no arguments: this is the input
	noise  simos.ReadSpec
	errw   simos.WriteSpec
	sched  simrt.Config
	tty    int  // what the standard streams are
	waits  bool // for another process, perhaps
}

var cliNames = []string{"i%02d.vim", "dir/b c %02d.vim", "日本-%02d.vim", "%%s-%%d-%02d.vim", "-dash%02d.vim", "a:1:2-%02d.vim", "q\"%02d'", "../%02d.vim", "x=%02d"}

var openErrs = []syscall.Errno{syscall.EACCES, syscall.EMFILE, syscall.ENFILE, syscall.EIO, syscall.ELOOP, syscall.ENOMEM, syscall.ENXIO, syscall.ENAMETOOLONG, syscall.ENOTDIR, syscall.EPERM}
var readErrs = []syscall.Errno{syscall.EIO, syscall.ESTALE, syscall.ENOMEM, syscall.EINVAL, syscall.ENXIO, syscall.EBADF, syscall.ETIMEDOUT, syscall.ECONNRESET}

func drawChunks(d *draw.D, n int) []int {
	if !d.P(1, 2) {
		return nil
	}
	switch d.N(4) {
	case 0:
		if n < 3000 {
			return []int{1}
		}
		return []int{511}
	case 1:
		return []int{d.Pick2(2, 7, 64, 512, 4096)}
	}
	var l []int
	for i := 0; i < 1+d.N(4); i++ {
		c := 1 + d.N(200)
		if n > 20000 {
			c *= 50
		}
		l = append(l, c)
	}
	return l
}

func (e *Env) drawInput(name string, neovim bool, faults bool, w Weights) *cliInput {
	d := e.D
	in := &cliInput{src: DrawSource(d, w)}
	in.src.Call = Call{Name: name, Opt: &vp.ParseOption{Neovim: neovim}}
	in.spec = simos.ReadSpec{Name: name, Data: in.src.Src, ErrAt: -1}
	in.spec.Chunks = drawChunks(d, len(in.src.Src))
	switch d.W(10, 1, 1) {
	case 1:
		in.spec.Pipe = true
	case 2: // a file of /proc, or one that grows or shrinks meanwhile
		in.spec.Says = 1 + int64(d.Pick2(0, 1, len(in.src.Src)/2, len(in.src.Src)+1, 2*len(in.src.Src), 1<<20))
	}
	if !faults {
		return in
	}
	switch d.W(14, 2, 2, 4, 1, 1) {
	case 1:
		in.miss = true
	case 2:
		in.spec.OpenErr = int(openErrs[d.N(len(openErrs))])
	case 3:
		in.spec.Errno = int(readErrs[d.N(len(readErrs))])
		switch d.W(2, 2, 4) {
		case 0:
			in.spec.ErrAt = 0
		case 1:
			in.spec.ErrAt = len(in.src.Src)
		case 2:
			in.spec.ErrAt = d.N(len(in.src.Src) + 1)
		}
		in.spec.Heals = d.P(1, 2)
	case 4:
		in.spec.Dir = true
	case 5:
		in.spec.CloseEr = int(syscall.EIO)
		in.vague = true
	}
	return in
}

// judgeInput finds out what is to become of an input.
func (e *Env) judgeInput(in *cliInput) bool {
	name := in.src.Call.Name
	switch {
	case in.miss:
		in.reason, in.diag = "does not exist", name
		return true
	case in.spec.OpenErr != 0:
		in.reason, in.diag = "cannot be opened: "+syscall.Errno(in.spec.OpenErr).Error(), name
		return true
	case in.spec.Dir:
		in.reason, in.diag = "is a directory", name
		return true
	case in.spec.Errno != 0 && in.spec.ErrAt >= 0:
		in.reason, in.diag = fmt.Sprintf("cannot be read from byte %d on: %s", in.spec.ErrAt, syscall.Errno(in.spec.Errno)), name
		return true
	}
	r := e.Parse(in.src.Call, in.src.Src)
	switch {
	case !r.Done || r.Panic != "":
		e.Inc("skipped: " + "the library fails on the script")
		return false
	case r.Err != nil:
		pe, ok := r.Err.(*vp.ErrVimlParser)
		if !ok {
			e.Inc("skipped: " + "no parse error")
			return false
		}
		in.reason = "does not parse: " + pe.Error()
		in.diag = fmt.Sprintf("%s:%d:%d", name, pe.Line, pe.Column)
		if name == "" { // nothing to name: the place is enough
			in.diag = ""
			in.place = []string{fmt.Sprintf(":%d:%d", pe.Line, pe.Column), fmt.Sprintf("line %d col %d", pe.Line, pe.Column)}
		}
		return true
	}
	t, bad := NewTree(in.src, r.Node)
	if t == nil {
		e.Note("ill-formed: %s", bad)
		e.Inc("skipped: ill-formed tree")
		return false
	}
	in.ok = true
	in.text = []byte(gen.Render(t.Model, "  "))
	in.json, _ = json.Marshal(r.Node)
	return true
}

var cliWeights = Weights{File: 12, Corpus: 2, Mutant: 5, Soup: 1, Probe: 2, Chunk: 1}

// drawCLI draws an invocation; nil if it cannot be judged.
func (e *Env) drawCLI(n int, w Weights) *cli {
	d := e.D
	c := &cli{neovim: d.P(1, 3), json: d.P(2, 5)}
	c.errw = simos.WriteSpec{Limit: -1}
	c.sched = simrt.Config{Strategy: simrt.RandomWalk, Seed: uint64(d.N(1 << 20)), Param: 40}
	if d.P(1, 3) {
		c.tty = d.N(64)
	}
	c.args = []string{"vimlparser"}
	if c.neovim {
		c.args = append(c.args, d.Pick("-neovim", "--neovim", "-neovim=true"))
	} else if d.P(1, 12) {
		c.args = append(c.args, "-neovim=false")
	}
	if c.json {
		c.args = append(c.args, d.Pick("-json", "--json", "-json=true"))
	}
	c.noise = simos.ReadSpec{Name: "/dev/stdin", Data: []byte("echo 'from standard input'\n"), ErrAt: -1}
	if n == 0 {
		in := e.drawInput("", c.neovim, false, w)
		if d.P(1, 4) {
			in.spec.Errno = int(readErrs[d.N(len(readErrs))])
			in.spec.ErrAt = d.N(len(in.src.Src) + 1)
		}
		in.spec.Name = "/dev/stdin"
		if !e.judgeInput(in) {
			return nil
		}
		c.stdin = in
		return c
	}
	dashes := len(c.args)
	for i := 0; i < n; i++ {
		if i > 0 && d.P(1, 8) {
			c.order = append(c.order, c.order[d.N(i)]) // the same once more
		} else {
			name := fmt.Sprintf(cliNames[d.W(10, 1, 1, 1, 1, 1, 1, 1, 1)], len(c.in))
			if w, ok := hints.Word(d, 1, 6); ok && utf8.ValidString(w) && !strings.ContainsAny(w, "\n\r\x00/") {
				name = fmt.Sprintf("%02d", len(c.in))
				name = d.Pick("", "d/") + d.Pick(name+w, w+name, name+"/"+w)
			}
			if d.P(1, 30) {
				if x := d.Pick("-", "-json", "--", "-neovim=true", "-h", "---", " ", "~", "*.vim", "@list", "a b", "con"); !c.named(x) {
					name = x
				}
			}
			in := e.drawInput(name, c.neovim, true, w)
			if !e.judgeInput(in) {
				return nil
			}
			c.order = append(c.order, len(c.in))
			c.in = append(c.in, in)
		}
		c.args = append(c.args, c.in[c.order[i]].spec.Name)
	}
	// the first name is taken for an option if it begins with a dash ("-" alone does not)
	if first := c.args[dashes]; len(first) > 1 && first[0] == '-' || d.P(1, 2) {
		c.args = append(c.args[:dashes:dashes], append([]string{"--"}, c.args[dashes:]...)...)
	}
	return c
}

func (c *cli) named(name string) bool {
	for _, in := range c.in {
		if in.spec.Name == name {
			return true
		}
	}
	return false
}

// repeat names inputs very often.
func (c *cli) repeat(d *draw.D) {
	of := []int{}
	for i, in := range c.in {
		if !in.ok && len(in.src.Src) < 1500 {
			of = append(of, i)
		}
	}
	if len(of) == 0 || d.P(1, 4) {
		of = []int{d.N(len(c.in))}
	}
	i := of[d.N(len(of))]
	if len(c.in[i].src.Src) >= 1500 {
		return
	}
	have := 0
	for _, j := range c.order {
		if c.in[j].ok == c.in[i].ok {
			have++
		}
	}
	k := d.Pick2(256, 128, 255, 257, 512, 1024)
	if v, ok := hints.Number(d, 1, 2, 3, 1100); ok {
		k = v
	}
	for ; have < k; have++ {
		c.order = append(c.order, i)
		c.args = append(c.args, c.in[i].spec.Name)
	}
}

func (c *cli) inputs() []*cliInput {
	if c.stdin != nil {
		return []*cliInput{c.stdin}
	}
	var l []*cliInput
	for _, i := range c.order {
		l = append(l, c.in[i])
	}
	return l
}

func (c *cli) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q", c.args)
	for i, in := range c.inputs() {
		what := in.reason
		if in.ok {
			what = "fine"
		}
		switch {
		case in.spec.Pipe:
			what += ", a pipe"
		case in.spec.Says > 0:
			what += fmt.Sprintf(", claims to have %d bytes", in.spec.Says-1)
		}
		fmt.Fprintf(&b, "\n  input %d %q (%s): %s", i, in.spec.Name, what, clip(in.src.Src, 300))
	}
	return b.String()
}

// start simulates the command once.
func (e *Env) start(c *cli, out simos.WriteSpec, fdLimit int) *simos.World {
	return e.startOn(c, simos.World{Stdout: out, FDLimit: fdLimit})
}

// startOn simulates the command once on a machine of which part is given.
func (e *Env) startOn(c *cli, on simos.World) *simos.World {
	on.Args, on.Lag, on.Stderr, on.Stdin = c.args, lag, c.errw, c.noise
	if on.Tty == 0 {
		on.Tty = c.tty
	}
	ch := &Child{World: on, Sched: c.sched}
	n := 0
	times := map[int]int{}
	for _, i := range c.order {
		times[i]++
	}
	for i, in := range c.in {
		if !in.miss {
			ch.World.Files = append(ch.World.Files, in.spec)
			if times[i] > 1 {
				ch.World.Files[len(ch.World.Files)-1].Pipe = false
			}
		}
	}
	for _, in := range c.inputs() {
		n += len(in.src.Src)
	}
	if c.stdin != nil {
		ch.World.Stdin = c.stdin.spec
	}
	ch.Sched.Budget = 2000000 + 6000*int64(n) + 20000*int64(len(c.order))
	req, err := json.Marshal(ch)
	if err != nil {
		panic(err)
	}
	var res Child
	for try := 0; ; try++ {
		cmd := exec.Command("/proc/self/exe", ChildArg)
		cmd.Stdin = bytes.NewReader(req)
		var o, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &eb
		err := cmd.Run()
		if err == nil {
			err = json.Unmarshal(o.Bytes(), &res)
		}
		if err == nil {
			break
		}
		if try == 2 {
			s := eb.String()
			if len(s) > 800 {
				s = s[:800]
			}
			e.Failf("command-died", "the command brings the process down: %v: %s (%s)", err, s, c)
			return nil
		}
	}
	e.Runs++
	e.Steps += res.Steps
	e.Clock += res.Clock
	w := &res.World
	for k, v := range w.Fired {
		if k == "killed" && c.waits {
			continue // only halted
		}
		e.Count["system fault "+k] += int64(v)
	}
	for _, ev := range w.Log {
		e.Note("  %d %s %s %d %s", ev.Step, ev.Op, ev.Name, ev.N, ev.Err)
	}
	e.Log("exit %d sigpipe=%v panic=%v out %016x err %016x fds %d steps %d", w.Exit, w.Sigpipe, w.Exit == 2, HashBytes(w.Out), HashBytes(w.Err), w.MaxFDs, res.Steps)
	if w.Stuck = res.Overrun || res.Deadlock; w.Stuck && c.waits {
		return w
	}
	if w.Stuck {
		e.Failf("no-end", "the command does not end (%s)", c)
		return nil
	}
	if i := bytes.Index(w.Err, []byte("panic: ")); w.Exit == 2 && !w.Exited && i >= 0 {
		e.Failf("panic", "the command panics: %s (%s)", clip(w.Err[i:], 300), c)
		return nil
	}
	return w
}

// split checks a complete standard output and cuts it into the renderings of
// the inputs.
func (c *cli) split(out []byte) (parts [][]byte, bad string) {
	rest := out
	var dec *json.Decoder
	at := int64(0)
	if c.json {
		dec = json.NewDecoder(bytes.NewReader(out))
		dec.UseNumber()
	}
	for i, in := range c.inputs() {
		if !in.ok {
			parts = append(parts, nil)
			continue
		}
		if !c.json {
			if !bytes.HasPrefix(rest, in.text) {
				return nil, fmt.Sprintf("the rendering of input %d (%q) is wrong or missing: %s", i, in.spec.Name, DiffBytes(in.text, rest[:min(len(rest), len(in.text))]))
			}
			parts = append(parts, rest[:len(in.text)])
			rest = rest[len(in.text):]
			continue
		}
		var got, want interface{}
		if err := dec.Decode(&got); err != nil {
			return nil, fmt.Sprintf("the JSON rendering of input %d (%q) is missing or broken: %v", i, in.spec.Name, err)
		}
		wd := json.NewDecoder(bytes.NewReader(in.json))
		wd.UseNumber()
		wd.Decode(&want)
		if !reflect.DeepEqual(got, want) {
			return nil, fmt.Sprintf("the JSON rendering of input %d (%q) is wrong", i, in.spec.Name)
		}
		end := dec.InputOffset()
		for end < int64(len(out)) && strings.IndexByte(" \t\r\n", out[end]) >= 0 {
			end++
		}
		parts = append(parts, out[at:end])
		at = end
	}
	if c.json {
		rest = out[at:]
	}
	if len(rest) > 0 {
		return nil, fmt.Sprintf("output that belongs to no input that succeeded: %s", clip(rest, 300))
	}
	return parts, ""
}

// judgeRun checks a run whose standard output works.
func (e *Env) judgeCommand(c *cli, w *simos.World) (parts [][]byte) {
	bad, vague := false, false
	need := map[string]int{}
	for _, in := range c.inputs() {
		if !in.ok {
			bad = true
			need[in.diag]++
		} else if in.vague {
			vague = true
		}
	}
	if w.Sigpipe {
		e.Failf("sigpipe", "the command ended by SIGPIPE although standard output worked (%s)", c)
		return nil
	}
	parts, x := c.split(w.Out)
	if x != "" {
		e.Failf("wrong-output", "%s (%s)", x, c)
		return nil
	}
	if bad && w.Exit == 0 {
		e.Failf("false-success", "exit status 0 although an input failed (%s)", c)
	}
	if !bad && !vague && w.Exit != 0 {
		e.Failf("false-failure", "exit status %d although every input succeeded; standard error: %s (%s)", w.Exit, clip(w.Err, 300), c)
	}
	if c.errw.Limit < 0 {
		for k, n := range need {
			if k == "" {
				if len(bytes.TrimSpace(w.Err)) == 0 {
					e.Failf("no-diagnostic", "nothing on standard error although standard input failed (%s)", c)
				}
				if p := c.stdin; p != nil && p.place != nil && countLines(w.Err, p.place[0])+countLines(w.Err, p.place[1]) == 0 {
					e.Failf("no-diagnostic", "the place of the error, %q, is not on standard error: %s (%s)", p.place, clip(w.Err, 800), c)
				}
				continue
			}
			if m := countLines(w.Err, k); m < n {
				e.Failf("no-diagnostic", "%d of %d diagnostics with %q on standard error: %s (%s)", m, n, k, clip(w.Err, 800), c)
			}
		}
	}
	return parts
}

// countLines counts the places where key occurs and is not just the beginning
// of a longer number.
func countLines(b []byte, key string) int {
	n := 0
	for _, l := range bytes.Split(b, []byte("\n")) {
		for {
			i := bytes.Index(l, []byte(key))
			if i < 0 {
				break
			}
			l = l[i+len(key):]
			if len(l) == 0 || l[0] < '0' || l[0] > '9' || key[len(key)-1] < '0' || key[len(key)-1] > '9' {
				n++
				break
			}
		}
	}
	return n
}

func (e *Env) countInputs(c *cli) {
	for _, in := range c.inputs() {
		switch {
		case in.ok:
			e.Inc("input: fine")
		case strings.HasPrefix(in.reason, "does not parse"):
			e.Inc("input: does not parse")
			e.NonTriv = true
		default:
			e.Inc("input: cannot be opened or read")
			e.NonTriv = true
		}
	}
}

// ---- C12 ----

func init() { register("C12", c12) }

func c12(e *Env) {
	d := e.D
	w := cliWeights
	if d.P(1, 25) {
		w = Weights{Filler: 1, File: 1}
	}
	n := d.W(2, 3, 3, 3, 2, 1, 1)
	if n == 6 {
		n = 6 + d.N(20)
	}
	c := e.drawCLI(n, w)
	if c == nil {
		return
	}
	if n > 0 && d.P(1, 60) {
		c.repeat(d)
	}
	if d.P(1, 8) {
		c.errw = simos.WriteSpec{Limit: d.N(200), Errno: int([]syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EBADF}[d.N(3)]), Heals: d.P(1, 2)}
	}
	out := simos.WriteSpec{Limit: -1}
	if d.P(1, 4) {
		out.Chunk = d.Pick2(1, 7, 512, 4096)
	}
	e.Sample = c.String()
	e.Note("%s", e.Sample)
	e.countInputs(c)
	e.State(HashString(e.Sample))
	if c.stdin != nil {
		e.NonTriv = true
		e.Inc("standard input")
	}
	r := e.start(c, out, 0)
	if r == nil {
		return
	}
	e.judgeCommand(c, r)
	for _, ev := range r.Log {
		if c.stdin == nil && ev.Op == "read" && ev.Name == "/dev/stdin" {
			e.Failf("reads-stdin", "standard input is read although there are arguments (%s)", c)
		}
	}
}

// ---- C13 ----

func init() { register("C13", c13) }

var outErrs = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EPIPE, syscall.EDQUOT, syscall.EFBIG, syscall.EBADF}

func c13(e *Env) {
	d := e.D
	w := cliWeights
	if d.P(1, 12) {
		w = Weights{Filler: 1, File: 2}
	}
	c := e.drawCLI(d.W(3, 4, 4, 3, 2, 1), w)
	if c == nil {
		return
	}
	e.Sample = c.String()
	e.Note("%s", e.Sample)
	e.countInputs(c)
	base := e.start(c, simos.WriteSpec{Limit: -1}, 0)
	if base == nil {
		return
	}
	parts := e.judgeCommand(c, base)
	if e.Viol != nil || len(base.Out) == 0 {
		return
	}
	k := 1 + d.N(3)
	for i := 0; i < k && e.Viol == nil; i++ {
		f := simos.WriteSpec{Limit: -1}
		if d.P(1, 3) {
			f.Chunk = d.Pick2(1, 7, 512, 4096)
		}
		if !d.P(1, 10) {
			switch d.W(2, 2, 2, 6) {
			case 0:
				f.Limit = 0
			case 1:
				f.Limit = len(base.Out) - 1
			case 2: // between two renderings, or next to it
				for j := d.N(len(parts)); j >= 0; j-- {
					f.Limit += len(parts[j])
				}
				f.Limit = max(0, f.Limit+d.N(3)-1)
			case 3:
				f.Limit = d.N(len(base.Out))
			}
			if f.Limit >= len(base.Out) {
				f.Limit = len(base.Out) - 1
			}
			f.Errno = int(outErrs[d.N(len(outErrs))])
			f.Heals = d.P(1, 2)
		}
		e.State(HashString(fmt.Sprint(e.Sample, f)))
		what := fmt.Sprintf("standard output fails at byte %d of %d with %q, heals=%v, %d bytes a system call; %s", f.Limit, len(base.Out), syscall.Errno(f.Errno).Error(), f.Heals, f.Chunk, c)
		r := e.start(c, f, 0)
		if r == nil {
			return
		}
		if f.Limit < 0 {
			if !bytes.Equal(r.Out, base.Out) || r.Exit != base.Exit || r.Sigpipe {
				e.Failf("short-writes", "system calls that take a part only change the result: status %d, before %d; %s; %s", r.Exit, base.Exit, DiffBytes(base.Out, r.Out), what)
			}
			continue
		}
		e.NonTriv = true
		if r.Exit == 0 && !r.Sigpipe {
			e.Failf("failure-lost", "exit status 0 although a write failed; %s", what)
			return
		}
		if n := min(f.Limit, len(r.Out)); n < f.Limit || !bytes.Equal(r.Out[:n], base.Out[:n]) {
			e.Failf("wrong-leading-part", "what was written before the failure is not the beginning of the output; %s", what)
			return
		}
		if !leadingParts(r.Out, parts) {
			e.Failf("not-leading-parts", "standard output holds something else than complete renderings and leading parts of them, in order: %s; %s", clip(r.Out, 600), what)
		}
	}
}

// leadingParts tells whether out is made of leading parts of the parts, in
// order.
func leadingParts(out []byte, parts [][]byte) bool {
	at := []bool{true}
	at = append(at, make([]bool, len(out))...)
	for _, p := range parts {
		if len(p) == 0 {
			continue
		}
		next := make([]int, len(out)+2) // difference array
		for o := range at {
			if !at[o] {
				continue
			}
			m := 0
			for m < len(p) && o+m < len(out) && out[o+m] == p[m] {
				m++
			}
			next[o]++
			next[o+m+1]--
		}
		k := 0
		for o := range at {
			k += next[o]
			at[o] = k > 0
		}
	}
	return at[len(out)]
}

// ---- C14 ----

func init() { register("C14", c14) }

func c14(e *Env) {
	d := e.D
	n := 3 + d.N(10)
	if d.P(1, 3) {
		n = 12 + d.N(200)
	}
	// a few scripts in many files
	c := e.drawCLI(1, Weights{File: 4, Corpus: 1, Mutant: 2, Probe: 2})
	if c == nil {
		return
	}
	kinds := 2 + d.N(6)
	proto := []*cliInput{c.in[0]}
	for i := 1; i < kinds; i++ {
		in := e.drawInput("p", c.neovim, true, Weights{File: 4, Mutant: 3, Probe: 2})
		proto = append(proto, in)
	}
	c.in, c.order = nil, nil
	c.args = c.args[:len(c.args)-1]
	for i := 0; i < n; i++ {
		p := *proto[d.N(len(proto))]
		name := fmt.Sprintf("f%03d.vim", i)
		p.ok, p.text, p.json, p.diag, p.reason = false, nil, nil, "", ""
		p.src.Call.Name, p.spec.Name = name, name
		if !e.judgeInput(&p) {
			return
		}
		c.order = append(c.order, i)
		c.in = append(c.in, &p)
		c.args = append(c.args, name)
	}
	// files that are named more than once
	more := 0
	switch d.W(5, 1, 1, 1, 1) {
	case 1: // the whole list twice
		for i := 0; i < n; i++ {
			c.order = append(c.order, i)
		}
	case 2: // and back again
		for i := n - 1; i >= 0; i-- {
			c.order = append(c.order, i)
		}
	case 3: // some of them
		more = 1 + d.N(2*n)
	case 4: // each one twice in a row
		c.order = nil
		for i := 0; i < n; i++ {
			c.order = append(c.order, i, i)
		}
	}
	for ; more > 0; more-- {
		c.order = append(c.order, d.N(n))
	}
	if k := len(c.order); k > n {
		c.args = c.args[:len(c.args)-n]
		for _, i := range c.order {
			c.args = append(c.args, c.in[i].spec.Name)
		}
		e.Inc("files named more than once")
	}
	limit := d.Pick2(6, 7, 8, 12, 20)
	e.Sample = fmt.Sprintf("%d files under a limit of %d descriptors: %s", n, limit, c)
	e.Note("%s", e.Sample)
	e.countInputs(c)
	e.State(HashString(e.Sample))
	e.NonTriv = true
	base := e.start(c, simos.WriteSpec{Limit: -1}, 0)
	if base == nil {
		return
	}
	e.judgeCommand(c, base)
	e.judgeDescriptors(c, base)
	if e.Viol != nil {
		return
	}
	r := e.start(c, simos.WriteSpec{Limit: -1}, limit)
	if r == nil {
		return
	}
	e.judgeDescriptors(c, r)
	if r.Exit != base.Exit || !bytes.Equal(r.Out, base.Out) || !bytes.Equal(r.Err, base.Err) {
		e.Failf("limit-matters", "under a limit of %d descriptors the result differs: status %d, without %d; output: %s; standard error: %s (%s)", limit, r.Exit, base.Exit, DiffBytes(base.Out, r.Out), DiffBytes(base.Err, r.Err), c)
	}
	if d.P(1, 3) { // output trouble must not leave files open either
		f := simos.WriteSpec{Limit: d.N(len(base.Out) + 1), Errno: int(syscall.ENOSPC), Heals: d.P(1, 2)}
		if r := e.start(c, f, limit); r != nil {
			e.judgeDescriptors(c, r)
		}
	}
}

// maxFDs is the small constant: the standard streams, two inputs, and room for
// what a program may keep for itself.
const maxFDs = 6

func (e *Env) judgeDescriptors(c *cli, w *simos.World) {
	if w.MaxFDs > maxFDs {
		e.Failf("too-many-open", "%d descriptors were open at the same time (%s)", w.MaxFDs, c)
	}
	if n := w.Fired["open:too many open files"]; n > 0 {
		k := 0
		for _, in := range c.inputs() {
			if in.spec.OpenErr == int(syscall.EMFILE) {
				k++
			}
		}
		if n > k {
			e.Failf("ran-out", "the command ran out of descriptors (%s)", c)
		}
	}
	// open inputs by the number of the argument
	full := func(name string) string {
		if path.IsAbs(name) {
			return path.Clean(name)
		}
		return path.Join("/sim", name)
	}
	input := map[string]bool{}
	for _, in := range c.inputs() {
		input[full(in.spec.Name)] = true
	}
	open := map[string]int{}
	k, last := 0, ""
	for _, ev := range w.Log {
		name := full(ev.Name)
		if !input[name] {
			continue
		}
		switch ev.Op {
		case "open":
			if name == last && open[name] == 0 && k > 0 {
				// tried or looked at before
				if ev.N >= 0 {
					open[name] = k
				}
				continue
			}
			k++
			last = name
			for name, i := range open {
				if i > 0 && i <= k-2 {
					e.Failf("left-open", "input %q (number %d) was still open when number %d was opened (%s)", name, i, k, c)
					return
				}
			}
			if ev.N >= 0 {
				open[name] = k
			}
		case "close":
			delete(open, name)
		}
	}
}
