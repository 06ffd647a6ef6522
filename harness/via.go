package harness

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"strings"

	"verif/draw"
)

// Via is a reader of the standard library between the parser and the bytes,
// part of which may have been used before the call.
type Via struct {
	Kind string
	Pre  int // bytes read from it before the call
	Size int
	Cuts [2]int
	tee  bytes.Buffer
	left func() int
}

func (v *Via) String() string {
	if v == nil {
		return "no reader in between"
	}
	return fmt.Sprintf("%s size=%d already-read=%d cuts=%v", v.Kind, v.Size, v.Pre, v.Cuts)
}

const preText = "echo 'before'\nlet before = 1\n\"\\\r\nfor x in y\n"

// DrawVia draws a reader that lies above the simulated one.
func DrawVia(d *draw.D, n int) *Via {
	v := &Via{Kind: []string{"bufio.Reader", "io.LimitedReader", "io.MultiReader", "io.TeeReader"}[d.N(4)]}
	v.Size = d.Pick2(16, 64, 512, 4096, 65536)
	v.Cuts = [2]int{d.N(n + 1), d.N(n + 1)}
	if v.Cuts[1] < v.Cuts[0] {
		v.Cuts[0], v.Cuts[1] = v.Cuts[1], v.Cuts[0]
	}
	v.Pre = d.N(min(n, v.Size) + 1)
	return v
}

// DrawMemory draws a reader that holds its bytes itself.
func DrawMemory(d *draw.D) *Via {
	v := &Via{Kind: []string{"bytes.Reader", "strings.Reader", "bytes.Buffer", "io.SectionReader", "bufio.Reader on bytes.Reader", "io.MultiReader of the like"}[d.N(6)]}
	v.Size = d.Pick2(16, 512, 4096, 65536)
	if d.P(2, 3) {
		v.Pre = d.Pick2(1, 5, 14, 15, len(preText))
	}
	return v
}

// Above puts the reader above r.
func (v *Via) Above(r *Reader, fill bool) io.Reader {
	switch v.Kind {
	case "bufio.Reader":
		b := bufio.NewReaderSize(r, v.Size)
		if fill && len(r.src) > 0 {
			b.Peek(1)
		}
		v.left = b.Buffered
		return b
	case "io.LimitedReader":
		return io.LimitReader(r, int64(len(r.src)))
	case "io.MultiReader":
		// the first two parts are in memory
		a, b := r.src[:v.Cuts[0]], r.src[v.Cuts[0]:v.Cuts[1]]
		if r.f.Kind != "" && r.f.At < v.Cuts[1] {
			a, b = nil, nil
		} else {
			r.off = v.Cuts[1]
		}
		return io.MultiReader(bytes.NewReader(a), strings.NewReader(string(b)), r)
	case "io.TeeReader":
		return io.TeeReader(r, &v.tee)
	}
	return r
}

// Memory makes a reader of src.
func (v *Via) Memory(src []byte) io.Reader {
	all := append([]byte(preText[:v.Pre]), src...)
	var r io.Reader
	switch v.Kind {
	case "bytes.Reader":
		x := bytes.NewReader(all)
		r, v.left = x, x.Len
	case "strings.Reader":
		x := strings.NewReader(string(all))
		r, v.left = x, x.Len
	case "bytes.Buffer":
		x := bytes.NewBuffer(all)
		r, v.left = x, x.Len
	case "io.SectionReader":
		pad := append([]byte(preText), all...)
		pad = append(pad, preText...)
		x := io.NewSectionReader(bytes.NewReader(pad), int64(len(preText)), int64(len(all)))
		r = x
		v.left = func() int {
			at, _ := x.Seek(0, io.SeekCurrent)
			return len(all) - int(at)
		}
	case "bufio.Reader on bytes.Reader":
		y := bytes.NewReader(all)
		x := bufio.NewReaderSize(y, v.Size)
		r = x
		v.left = func() int { return x.Buffered() + y.Len() }
	default:
		c := len(all) / 2
		x, y := bytes.NewReader(all[:c]), bytes.NewBuffer(all[c:])
		r = io.MultiReader(x, y)
		v.left = func() int { return x.Len() + y.Len() }
	}
	if v.Pre > 0 {
		io.ReadFull(r, make([]byte, v.Pre))
	}
	return r
}

// ParseMemory parses src from a reader of the standard library, alone on the
// simulator, and tells what the reader still holds.
func (e *Env) ParseMemory(c Call, v *Via, src []byte) (res Res, left int) {
	r := v.Memory(src)
	o := e.Alone(Budget(len(src)), func() { res = c.Do(r) })
	if o.Overrun || o.Deadlock {
		res.Done = false
	}
	return res, v.left()
}

// ParseVia parses from a simulated reader with another one above it.
func (e *Env) ParseVia(c Call, v *Via, r *Reader, n int) Res {
	var res Res
	o := e.Alone(Budget(n), func() {
		r.active = true
		defer func() { r.active = false }()
		res = c.Do(v.Above(r, r.f.Kind == ""))
	})
	if o.Overrun || o.Deadlock {
		res.Done = false
	}
	return res
}
