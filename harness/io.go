package harness

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"

	vp "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"

	"verif/draw"
	"verif/hints"
	"verif/simrt"
)

// ---- deliveries ----

// Delivery decides how a reader hands its bytes over.
type Delivery struct {
	Mode    int // 0 all, 1 one byte at a time, 2 fixed size, 3 random sizes, 4 cuts
	Size    int
	Seed    uint64
	Cuts    []int
	Empties int // one read in so many delivers nothing; 0 never
	EOFData bool
	Scrib   bool
	Burst   int // that many empty reads in a row at BurstAt
	BurstAt int
}

func (dl Delivery) String() string {
	return fmt.Sprintf("mode=%s size=%d cuts=%v empties=1/%d eof-with-data=%v scribble=%v burst=%d@%d",
		[]string{"whole", "bytewise", "fixed", "random", "cuts"}[dl.Mode], dl.Size, dl.Cuts, dl.Empties, dl.EOFData, dl.Scrib, dl.Burst, dl.BurstAt)
}

// DrawDelivery draws a delivery of src.
func DrawDelivery(d *draw.D, src []byte) Delivery {
	var dl Delivery
	dl.Mode = d.W(2, 2, 3, 3, 4)
	if dl.Mode == 1 && len(src) > 20000 {
		dl.Mode = 2
	}
	switch dl.Mode {
	case 2:
		dl.Size = d.Pick2(2, 3, 7, 16, 64, 511, 512, 513, 4095, 4096, 4097, 65535, 65536)
		if v, ok := hints.Number(d, 1, 2, 2, 1<<20); ok {
			dl.Size = v
		}
		if len(src) > 20000 && dl.Size < 16 {
			dl.Size = 16
		}
	case 3:
		dl.Size = d.Pick2(3, 10, 40, 600, 5000)
		if len(src) > 20000 && dl.Size < 40 {
			dl.Size = 40
		}
		dl.Seed = uint64(d.N(1 << 16))
	case 4:
		// cut at places where something could be torn
		var at []int
		for i := 1; i < len(src) && len(at) < 4000; i++ {
			if src[i] >= 0x80 && src[i] < 0xc0 || src[i] == '\n' || src[i-1] == '\n' || src[i] == '\\' {
				at = append(at, i)
			}
		}
		n := 1 + d.N(5)
		for i := 0; i < n && len(src) > 1; i++ {
			var c int
			if v, ok := hints.Number(d, 1, 4, 1, len(src)-1); ok {
				c = v
			} else if d.P(1, 8) {
				c = 1 + d.N(min(4, len(src)-1))
			} else if d.P(1, 16) {
				c = len(src) - 1 - d.N(min(4, len(src)-1))
			} else if len(at) > 0 && d.P(3, 4) {
				c = at[d.N(len(at))]
			} else {
				c = 1 + d.N(len(src)-1)
			}
			dl.Cuts = append(dl.Cuts, c)
		}
		for i := range dl.Cuts {
			for j := i; j > 0 && dl.Cuts[j] < dl.Cuts[j-1]; j-- {
				dl.Cuts[j], dl.Cuts[j-1] = dl.Cuts[j-1], dl.Cuts[j]
			}
		}
	}
	if d.P(1, 3) {
		dl.Empties = d.Pick2(2, 3, 10)
	}
	if d.P(1, 12) {
		// less than the hundred that the standard library puts up with
		dl.Burst = d.R(20, 95)
		if v, ok := hints.Number(d, 1, 2, 3, 95); ok {
			dl.Burst = v
		}
		dl.BurstAt = d.N(len(src) + 1)
	}
	dl.EOFData = d.P(1, 3)
	dl.Scrib = d.P(1, 2)
	return dl
}

// Fault of a reader.
type Fault struct {
	Kind   string // "" none, "error", "panic", "stall"
	At     int    // byte offset
	Err    error
	ErrNam string
	Data   bool // the error comes with the data before it
	Heal   bool // later reads go on as if nothing had happened
	Pval   interface{}
}

func (f Fault) String() string {
	if f.Kind == "" {
		return "no fault"
	}
	return fmt.Sprintf("%s at byte %d (%s) with-data=%v heals=%v", f.Kind, f.At, f.ErrNam, f.Data, f.Heal)
}

// Reader is the simulated reader.
type Reader struct {
	src    []byte
	dl     Delivery
	f      Fault
	off    int
	rng    uint64
	nreads int
	row    int
	burst  int
	fault  bool // the fault has fired
	ended  bool // EOF or an error was reported
	active bool // a call that may read is running
	inRead bool
	Hist   []ReadEvent
	Misuse []string
	Keep   bool // keep the history
	bufs   [][]byte
	Fired  int
	Stalls int
	hook   func() // called once, in the first Read from byte hookAt on
	hookAt int
}

// ReadEvent is one Read call.
type ReadEvent struct {
	Step int64
	Len  int
	N    int
	Err  string
}

// NewReader makes a reader.
func NewReader(src []byte, dl Delivery, f Fault) *Reader {
	return &Reader{src: src, dl: dl, f: f, rng: dl.Seed*2654435761 + 12345}
}

func (r *Reader) rand() uint64 {
	r.rng = r.rng*6364136223846793005 + 1442695040888963407
	return r.rng >> 33
}

func (r *Reader) misuse(f string, a ...interface{}) {
	if len(r.Misuse) < 8 {
		r.Misuse = append(r.Misuse, fmt.Sprintf(f, a...))
	}
}

// Read delivers the next piece.
func (r *Reader) Read(b []byte) (n int, err error) {
	simrt.Yield()
	if r.inRead {
		r.misuse("Read called while another Read was in progress")
	}
	if !r.active {
		r.misuse("Read called outside the call it was given to")
	}
	if r.ended {
		r.misuse("Read called after the end or an error had been reported")
	}
	simrt.Advance(lag)
	r.inRead = true
	defer func() {
		r.inRead = false
		if err != nil {
			r.ended = true
		}
		if r.Keep {
			s := ""
			if err != nil {
				s = err.Error()
			}
			r.Hist = append(r.Hist, ReadEvent{simrt.Steps(), len(b), n, s})
		}
	}()
	r.nreads++
	if f := r.hook; f != nil && r.off >= r.hookAt {
		r.hook = nil
		f()
	}
	if len(b) == 0 {
		return 0, nil
	}
	if r.dl.Empties > 0 && r.row < 40 && int(r.rand()%uint64(r.dl.Empties)) == 0 {
		r.row++
		return 0, nil
	}
	if r.burst < r.dl.Burst && r.off >= r.dl.BurstAt && r.row < 95 {
		r.burst++
		r.row++
		return 0, nil
	}
	r.row = 0
	if r.f.Kind != "" && !r.fault && r.off >= r.f.At {
		switch r.f.Kind {
		case "stall":
			r.fault = true
			r.Fired++
			simrt.Stall()
		case "panic":
			r.fault = true
			r.Fired++
			panic(r.f.Pval)
		case "error":
			r.fault = r.f.Heal
			r.Fired++
			return 0, r.f.Err
		}
	}
	n = len(b)
	switch r.dl.Mode {
	case 1:
		n = 1
	case 2:
		n = r.dl.Size
	case 3:
		n = 1 + int(r.rand()%uint64(2*r.dl.Size))
	case 4:
		for _, c := range r.dl.Cuts {
			if c > r.off {
				n = c - r.off
				break
			}
		}
	}
	if n > len(b) {
		n = len(b)
	}
	if n > len(r.src)-r.off {
		n = len(r.src) - r.off
	}
	if r.f.Kind != "" && !r.fault && r.off+n > r.f.At {
		n = r.f.At - r.off
	}
	copy(b, r.src[r.off:r.off+n])
	r.off += n
	if r.dl.Scrib {
		for i := n; i < len(b); i++ {
			b[i] = "\n|\"'xe\\\r"[i&7]
		}
	}
	if r.f.Kind == "error" && !r.fault && r.f.Data && n > 0 && r.off == r.f.At {
		r.fault = r.f.Heal
		r.Fired++
		return n, r.f.Err
	}
	if r.off == len(r.src) && !(r.f.Kind != "" && !r.fault) {
		if n == 0 || r.dl.EOFData {
			return n, io.EOF
		}
	}
	return n, nil
}

// Rich is a reader that supports everything a reader may support.
type Rich struct{ *Reader }

func (r Rich) Close() error { r.misuse("Close called"); return nil }
func (r Rich) Seek(int64, int) (int64, error) {
	r.misuse("Seek called")
	r.off = 0
	return 0, nil
}
func (r Rich) Write(p []byte) (int, error) { r.misuse("Write called"); return len(p), nil }
func (r Rich) WriteString(p string) (int, error) {
	r.misuse("WriteString called")
	return len(p), nil
}
func (r Rich) ReadAt(p []byte, off int64) (int, error) {
	r.misuse("ReadAt called")
	if off >= int64(len(r.src)) {
		return 0, io.EOF
	}
	n := copy(p, r.src[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func (r Rich) ReadByte() (byte, error) {
	r.misuse("ReadByte called")
	if r.off >= len(r.src) {
		return 0, io.EOF
	}
	r.off++
	return r.src[r.off-1], nil
}
func (r Rich) UnreadByte() error { r.misuse("UnreadByte called"); r.off--; return nil }
func (r Rich) ReadRune() (rune, int, error) {
	b, err := r.ReadByte()
	return rune(b), 1, err
}
func (r Rich) ReadString(byte) (string, error) {
	r.misuse("ReadString called")
	s := string(r.src[r.off:])
	r.off = len(r.src)
	return s, io.EOF
}
func (r Rich) Sync() error          { r.misuse("Sync called"); return nil }
func (r Rich) Flush() error         { r.misuse("Flush called"); return nil }
func (r Rich) Truncate(int64) error { r.misuse("Truncate called"); return nil }
func (r Rich) Bytes() []byte {
	r.misuse("Bytes called")
	return r.src
}
func (r Rich) Name() string { return "rich" }

// Len is that of a buffer still being filled: what can be read right now.
func (r Rich) Len() int {
	n := len(r.src) - r.off
	if r.dl.Size > 0 && n > r.dl.Size {
		n = r.dl.Size
	}
	return n
}
func (r Rich) Reset() { r.misuse("Reset called") }

// ---- error kinds ----

type isEOF struct{ s string }

func (e isEOF) Error() string        { return e.s }
func (e isEOF) Is(target error) bool { return target == io.EOF }

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

type ptrErr struct{ op string }

func (e *ptrErr) Error() string { return e.op + ": broken" }

// opErr is like that of package net.
type opErr struct {
	op  string
	err error
}

func (e *opErr) Error() string { return e.op + " tcp: " + e.err.Error() }
func (e *opErr) Unwrap() error { return e.err }
func (e *opErr) Timeout() bool {
	t, ok := e.err.(interface{ Timeout() bool })
	return ok && t.Timeout()
}
func (e *opErr) Temporary() bool { return true }

type listErr []string

func (e listErr) Error() string { return strings.Join(e, "; ") }
func (e listErr) Is(t error) bool {
	x, ok := t.(listErr)
	return ok && len(x) == len(e)
}

type valErr struct{ code int }

func (e valErr) Error() string { return fmt.Sprint("code ", e.code) }

type tempErr struct{}

func (tempErr) Error() string   { return "try again" }
func (tempErr) Temporary() bool { return true }

type unwrapEOF struct{}

func (*unwrapEOF) Error() string { return "EOF" }
func (*unwrapEOF) Unwrap() error { return io.EOF }

// ErrKinds are the forms in which a reader reports trouble.
var ErrKinds = []struct {
	Name string
	Make func() error
}{
	{"plain", func() error { return errors.New("disk on fire") }},
	{"io.ErrUnexpectedEOF", func() error { return io.ErrUnexpectedEOF }},
	{"wraps io.EOF", func() error { return fmt.Errorf("stream reset: %w", io.EOF) }},
	{"joins io.EOF", func() error { return errors.Join(errors.New("gone"), io.EOF) }},
	{"Is io.EOF", func() error { return isEOF{"peer vanished"} }},
	{"Unwrap io.EOF", func() error { return &unwrapEOF{} }},
	{"text EOF", func() error { return errors.New("EOF") }},
	{"EIO", func() error { return &os.PathError{Op: "read", Path: "f.vim", Err: syscall.EIO} }},
	{"EAGAIN", func() error { return syscall.EAGAIN }},
	{"EINTR", func() error { return syscall.EINTR }},
	{"closed", func() error { return os.ErrClosed }},
	{"pipe closed", func() error { return io.ErrClosedPipe }},
	{"no progress", func() error { return io.ErrNoProgress }},
	{"short buffer", func() error { return io.ErrShortBuffer }},
	{"too long", func() error { return bufio.ErrTooLong }},
	{"final token", func() error { return bufio.ErrFinalToken }},
	{"deadline", func() error { return context.DeadlineExceeded }},
	{"cancelled", func() error { return context.Canceled }},
	{"timeout", func() error { return timeoutErr{} }},
	{"empty text", func() error { return errors.New("") }},
	{"pointer", func() error { return &ptrErr{"recv"} }},
	{"parse error look-alike", func() error {
		return &vp.ErrVimlParser{Filename: "x", Line: 1, Column: 1, Msg: "E492: Not an editor command"}
	}},
	{"wrapped EIO", func() error { return fmt.Errorf("layer: %w", syscall.EIO) }},
	{"ECONNRESET", func() error { return &opErr{"read", syscall.ECONNRESET} }},
	{"ETIMEDOUT", func() error { return &opErr{"read", syscall.ETIMEDOUT} }},
	{"EPIPE", func() error { return &os.PathError{Op: "read", Path: "|0", Err: syscall.EPIPE} }},
	{"EISDIR", func() error { return &os.PathError{Op: "read", Path: "plugin", Err: syscall.EISDIR} }},
	{"EBADF", func() error { return os.NewSyscallError("read", syscall.EBADF) }},
	{"not exist", func() error { return fs.ErrNotExist }},
	{"permission", func() error { return fs.ErrPermission }},
	{"invalid", func() error { return fs.ErrInvalid }},
	{"os deadline", func() error { return os.ErrDeadlineExceeded }},
	{"checksum", func() error { return errors.New("gzip: invalid checksum") }},
	{"closed connection", func() error { return errors.New("use of closed network connection") }},
	{"body closed", func() error { return errors.New("http: read on closed response body") }},
	{"not comparable", func() error { return listErr{"first", "second"} }},
	{"by value", func() error { return valErr{7} }},
	{"short write", func() error { return io.ErrShortWrite }},
	{"wraps io.EOF twice", func() error { return fmt.Errorf("a: %w", fmt.Errorf("b: %w", io.EOF)) }},
	{"wraps io.ErrUnexpectedEOF", func() error { return fmt.Errorf("frame: %w", io.ErrUnexpectedEOF) }},
	{"path EOF", func() error { return &os.PathError{Op: "read", Path: "f.vim", Err: io.EOF} }},
	{"many lines", func() error { return errors.New("line one\nline two: E488: Trailing characters\n") }},
	{"temporary", func() error { return tempErr{} }},
}

// DrawErr draws an error.
func DrawErr(d *draw.D) (string, error) {
	k := ErrKinds[d.N(len(ErrKinds))]
	return k.Name, k.Make()
}

// ---- calls ----

// Call is one call of the parser.
type Call struct {
	Expr bool
	Name string
	Opt  *vp.ParseOption
}

func (c Call) String() string {
	if c.Expr {
		return "ParseExpr"
	}
	if c.Opt == nil {
		return fmt.Sprintf("ParseFile(%q, nil)", c.Name)
	}
	return fmt.Sprintf("ParseFile(%q, neovim=%v)", c.Name, c.Opt.Neovim)
}

// Res is what came of a call.
type Res struct {
	Node  ast.Node // nil when the returned node was nil
	Typed bool     // the returned node was a nil pointer inside an interface
	Err   error
	Panic string
	Done  bool
	Steps int64
}

// Do makes the call inside the running task.
func (c Call) Do(r io.Reader) (res Res) {
	t0 := simrt.TaskTime()
	defer func() {
		res.Steps = simrt.TaskTime() - t0
		if p := recover(); p != nil {
			res.Panic = panicText(p)
			res.Done = true
		}
	}()
	if c.Expr {
		n, err := vp.ParseExpr(r)
		res.Err = err
		if n != nil {
			res.Node = n
		}
	} else {
		n, err := vp.ParseFile(r, c.Name, c.Opt)
		res.Err = err
		if n != nil {
			res.Node = n
		}
	}
	res.Done = true
	return
}

// DoReader makes the call on a simulated reader.
func (c Call) DoReader(r *Reader, rich bool) Res {
	r.active = true
	defer func() { r.active = false }()
	if rich {
		return c.Do(Rich{r})
	}
	return c.Do(r)
}

func panicText(p interface{}) string {
	switch v := p.(type) {
	case error:
		return v.Error()
	case string:
		return v
	}
	return fmt.Sprint(p)
}

// Key identifies a result completely.
func (r Res) Key() []byte {
	switch {
	case !r.Done:
		return []byte("did not return")
	case r.Panic != "":
		return []byte("panic: " + r.Panic)
	case r.Err != nil:
		return []byte("error: " + ErrKey(r.Err) + nodeNote(r.Node))
	case r.Node == nil:
		return []byte("nil tree without error")
	}
	return Deep(r.Node)
}

func nodeNote(n ast.Node) string {
	if n == nil {
		return ""
	}
	return " (with a tree)"
}

// ErrKey identifies an error.
func ErrKey(err error) string {
	if e, ok := err.(*vp.ErrVimlParser); ok {
		return fmt.Sprintf("ErrVimlParser{%q offset %d line %d column %d %q}", e.Filename, e.Offset, e.Line, e.Column, e.Msg)
	}
	return fmt.Sprintf("%T: %s", err, err)
}

// Brief describes a result in a few words.
func (r Res) Brief() string {
	switch {
	case !r.Done:
		return "no return within the step budget"
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Err != nil:
		return ErrKey(r.Err) + nodeNote(r.Node)
	case r.Node == nil:
		return "nil tree and nil error"
	}
	return fmt.Sprintf("a tree (%T, hash %016x)", r.Node, HashBytes(Deep(r.Node)))
}

// Budget is the step budget for an input of n bytes: far more than any parse
// needs, far less than a parse that does not end.
func Budget(n int) int64 { return 200000 + 4000*int64(n) }
