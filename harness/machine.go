package harness

import (
	"bytes"
	"fmt"

	"verif/hints"
	"verif/simos"
	"verif/simrt"
)

// ---- C16 ----

func init() { register("C16", c16) }

// c16 runs the command several times on one machine.
func c16(e *Env) {
	d := e.D
	if d.P(1, 4) {
		c16together(e)
		return
	}
	c := e.drawCLI(d.W(1, 5, 3, 2, 1), cliWeights)
	if c == nil {
		return
	}
	c.tty = 0
	var disk []*simos.DiskFile
	var dropped []string
	litter := uint64(0)
	if d.P(1, 2) {
		litter = 1 + uint64(d.N(1<<16))
	}
	runs := 2 + d.N(4)
	calls := 6 * (1 + len(c.order))
	what := ""
	pid := d.N(3) // numbers of processes are used again
	for i := 0; i < runs && e.Viol == nil; i++ {
		pid += d.N(2)
		how := fmt.Sprintf("\nrun %d:", i)
		if i > 0 {
			if d.P(1, 5) {
				c.switchMode(!c.neovim, c.json)
				how += fmt.Sprintf(" neovim=%v", c.neovim)
				for _, in := range c.inputs() {
					if !e.judgeAgain(c, in) {
						return
					}
				}
			}
			if d.P(1, 6) {
				c.switchMode(c.neovim, !c.json)
				how += fmt.Sprintf(" json=%v", c.json)
			}
			for k, in := range c.distinct() {
				if d.P(1, 3) {
					if !e.change(c, in) {
						return
					}
					how += fmt.Sprintf(" input %d is now (%d bytes, time %d) %s;", k, len(in.spec.Data), in.spec.MTime, clip(in.src.Src, 200))
				}
			}
		}
		on := simos.World{Disk: disk, Litter: litter, Dropped: dropped, Words: hints.Cur.Words, Pid: pid, Stdout: simos.WriteSpec{Limit: -1}}
		if d.P(2, 3) {
			on.Env = 1 + uint64(d.N(1<<16))
		}
		if d.P(2, 3) {
			on.Tty = d.N(64)
		}
		if d.P(1, 2) {
			on.Later = int64(d.Pick2(0, 1, 60, 3600, 86400, 40000000)) * 1e9
			if d.P(1, 4) {
				on.Later = -on.Later // the clock was set back
			}
		}
		if d.P(1, 6) {
			on.Room = 1 + d.N(400)
		}
		if i < runs-1 && d.P(1, 2) {
			on.KillAt = 1 + d.N(calls*d.Pick2(1, 1, 2)+1)
			if d.P(1, 2) {
				on.KillCut = 1 + d.N(300)
			}
		}
		how += fmt.Sprintf(" litter %d, environment %d, streams %o, clock %+d s, room %d, kill at call %d (%d)", on.Litter, on.Env, on.Tty, on.Later/1e9, on.Room, on.KillAt, on.KillCut)
		what += how
		e.Note("%s", how)
		w := e.startOn(c, on)
		if w == nil {
			return
		}
		if !w.Killed {
			calls = w.Calls
		}
		e.Count["files left behind"] += int64(len(w.Disk) - len(disk))
		disk, dropped = w.Disk, w.Dropped
		e.State(HashBytes(w.Out) ^ HashString(how))
		for _, f := range w.Files {
			if f.Changed {
				e.Failf("input-changed", "the command changed its input %q (%s%s)", f.Name, c, what)
				return
			}
		}
		if w.Killed {
			e.NonTriv = true
			e.Inc("runs killed")
			ref := e.startOn(c, simos.World{Stdout: simos.WriteSpec{Limit: -1}})
			if ref == nil {
				return
			}
			if !bytes.HasPrefix(ref.Out, w.Out) {
				e.Failf("not-a-prefix", "what the killed run wrote is no leading part of the whole output: %s (%s%s)", DiffBytes(ref.Out, w.Out), c, what)
				return
			}
		} else {
			if e.judgeCommand(c, w); e.Viol != nil {
				e.Viol.Msg += what
				return
			}
			if i == runs-1 || d.P(1, 3) {
				ref := e.startOn(c, simos.World{Stdout: simos.WriteSpec{Limit: -1}})
				if ref == nil {
					return
				}
				if x := DiffBytes(ref.Out, w.Out); x != "" || ref.Exit != w.Exit {
					e.Failf("not-as-alone", "on an empty machine the run gives status %d instead of %d, or other output: %s (%s%s)", ref.Exit, w.Exit, x, c, what)
					return
				}
				e.Inc("compared with a run on an empty machine")
			}
		}
		if d.P(1, 4) {
			e.Inc("losses of power")
			for _, f := range disk {
				if f.Dirty {
					e.Inc("losses of power with something to lose")
					break
				}
			}
			what += " then power was lost;"
			disk = simos.PowerLoss(disk, d.N)
		}
	}
	e.Sample = c.String() + what
	e.NonTriv = true
}

func (c *cli) distinct() []*cliInput {
	if c.stdin != nil {
		return []*cliInput{c.stdin}
	}
	return c.in
}

// switchMode puts other flags before the names.
func (c *cli) switchMode(neovim, json bool) {
	c.neovim, c.json = neovim, json
	args := []string{c.args[0]}
	if neovim {
		args = append(args, "-neovim")
	}
	if json {
		args = append(args, "-json")
	}
	if c.stdin == nil {
		args = append(args, "--")
		for _, k := range c.order {
			args = append(args, c.in[k].spec.Name)
		}
	}
	c.args = args
}

// judgeAgain finds out anew what is to become of an input.
func (e *Env) judgeAgain(c *cli, in *cliInput) bool {
	in.ok, in.text, in.json, in.diag, in.reason, in.place = false, nil, nil, "", "", nil
	opt := *in.src.Call.Opt
	opt.Neovim = c.neovim
	in.src.Call.Opt = &opt
	return e.judgeInput(in)
}

// change gives an input another content, perhaps without changing its size or
// its time.
func (e *Env) change(c *cli, in *cliInput) bool {
	d := e.D
	old := in.spec
	x := e.drawInput(in.src.Call.Name, c.neovim, c.stdin == nil && d.P(1, 3), cliWeights)
	x.spec.Name = old.Name
	if n := len(old.Data) - len(x.src.Src); n > 0 && d.P(3, 4) {
		x.src.Src = append(append([]byte{}, x.src.Src...), bytes.Repeat([]byte("\n"), n)...)
		x.spec.Data = x.src.Src
	}
	switch d.W(3, 1, 1) {
	case 0:
		x.spec.MTime = old.MTime
	case 1:
		x.spec.MTime = old.MTime + 1e9
	case 2:
		x.spec.MTime = old.MTime - 1e9
	}
	*in = *x
	return e.judgeInput(in)
}

// copyDisk gives a disk that shares nothing with the other.
func copyDisk(disk []*simos.DiskFile) []*simos.DiskFile {
	var l []*simos.DiskFile
	for _, f := range disk {
		g := *f
		l = append(l, &g)
	}
	return l
}

// process is a run of the command among others. It goes on from where it was
// by being run again from its beginning, with what others did to the disk in
// between put in at the system calls where it had stopped.
type process struct {
	c     *cli
	on    simos.World
	at    int // the system call it has come to
	done  *simos.World
	waits bool
}

// c16together runs the command several times at once.
func c16together(e *Env) {
	d := e.D
	var disk []*simos.DiskFile
	var dropped []string
	var clock int64
	litter := uint64(0)
	if d.P(1, 2) {
		litter = 1 + uint64(d.N(1<<16))
	}
	env := uint64(0)
	if d.P(1, 2) {
		env = 1 + uint64(d.N(1<<16))
	}
	c := e.drawCLI(d.W(1, 5, 3, 2, 1), cliWeights)
	if c == nil {
		return
	}
	c.tty, c.waits = 0, true
	var ps []*process
	what := fmt.Sprintf("\nlitter %d, environment %d", litter, env)
	for i := 2 + d.W(5, 1); i > 0; i-- {
		p := &process{c: c}
		if len(ps) > 0 {
			if p.c = e.sibling(c); p.c == nil {
				return
			}
		}
		p.on = simos.World{Litter: litter, Words: hints.Cur.Words, Env: env, Pid: 1 + len(ps), Stdout: simos.WriteSpec{Limit: -1}}
		if d.P(1, 3) {
			p.on.Tty = d.N(64)
		}
		what += fmt.Sprintf("\nprocess %d: streams %o, %s", len(ps), p.on.Tty, p.c)
		ps = append(ps, p)
	}
	e.Inc("runs at one time")
	// go runs p until its system call number until, or to its end
	run := func(p *process, until int) bool {
		if p.at == 0 {
			p.on.Disk, p.on.Dropped, p.on.Later = copyDisk(disk), dropped, clock
		} else {
			p.on.Swaps = append(p.on.Swaps[:len(p.on.Swaps):len(p.on.Swaps)], simos.Swap{At: p.at, Disk: copyDisk(disk), Dropped: dropped, Now: clock + simrt.Epoch})
		}
		on := p.on
		on.KillAt = until
		w := e.startOn(p.c, on)
		if w == nil {
			return false
		}
		if w.Stuck {
			p.waits = true
			if p.at > 0 {
				p.on.Swaps = p.on.Swaps[:len(p.on.Swaps)-1]
			}
			return true
		}
		p.waits = false
		p.at = until
		disk, dropped, clock = w.Disk, w.Dropped, w.Now-simrt.Epoch
		if !w.Killed {
			p.done = w
		}
		return true
	}
	live := func() (l []*process) {
		for _, p := range ps {
			if p.done == nil {
				l = append(l, p)
			}
		}
		return
	}
	gap := d.Pick2(1, 2, 4, 8, 20)
	for n := 1 + d.N(12); n > 0 && len(live()) > 1; n-- {
		l := live()
		i := d.N(len(l))
		k := 1 + d.N(gap)
		for j, p := range ps {
			if p == l[i] {
				what += fmt.Sprintf(" process %d makes %d calls;", j, k)
			}
		}
		if !run(l[i], max(1, l[i].at)+k) {
			return
		}
		e.Inc("switches between processes")
	}
	for l := live(); len(l) > 0; l = live() {
		waiting := 0
		for _, p := range l {
			if !run(p, 0) {
				return
			}
			if p.done == nil {
				waiting++
			}
		}
		if waiting == len(l) {
			e.Failf("no-end", "runs at one time wait for one another, or for ever:%s", what)
			return
		}
	}
	e.Sample = "at one time:" + what
	e.Note("%s", e.Sample)
	e.NonTriv = true
	for i, p := range ps {
		w := p.done
		e.State(HashBytes(w.Out) ^ HashString(what))
		for _, f := range w.Files {
			if f.Changed {
				e.Failf("input-changed", "process %d changed its input %q:%s", i, f.Name, what)
				return
			}
		}
		if e.judgeCommand(p.c, w); e.Viol != nil {
			e.Viol.Msg += fmt.Sprintf("; process %d of:%s", i, what)
			return
		}
		ref := e.startOn(p.c, simos.World{Stdout: simos.WriteSpec{Limit: -1}})
		if ref == nil || ref.Stuck {
			return
		}
		if x := DiffBytes(ref.Out, w.Out); x != "" || ref.Exit != w.Exit {
			e.Failf("not-as-alone", "process %d: on an empty machine the run gives status %d instead of %d, or other output: %s:%s", i, ref.Exit, w.Exit, x, what)
			return
		}
	}
}

// sibling is another invocation of the command on the same files.
func (e *Env) sibling(c *cli) *cli {
	d := e.D
	n := *c
	n.in = nil
	for _, in := range c.in {
		x := *in
		n.in = append(n.in, &x)
	}
	if c.stdin != nil {
		x := *c.stdin
		n.stdin = &x
	}
	if len(n.order) > 0 {
		n.order = append([]int(nil), n.order[d.N(len(n.order)):]...)
		if d.P(1, 2) {
			for i := range n.order {
				j := d.N(i + 1)
				n.order[i], n.order[j] = n.order[j], n.order[i]
			}
		}
	}
	n.switchMode(c.neovim != d.P(1, 3), c.json != d.P(1, 2))
	n.args = append([]string(nil), n.args...)
	for _, in := range n.distinct() {
		if n.stdin != nil && d.P(3, 4) {
			if !e.change(&n, in) {
				return nil
			}
		} else if !e.judgeAgain(&n, in) {
			return nil
		}
	}
	return &n
}
