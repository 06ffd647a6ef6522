// Package simos is the operating system of the simulated command: files,
// descriptors, standard streams and the exit status live in a World in memory,
// and every fault is decided by the World. One process simulates one process.
package simos

import (
	"io"
	"io/fs"
	std "os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/simrt"
)

// ReadSpec describes what a readable object holds and how it is delivered.
type ReadSpec struct {
	Name    string
	Data    []byte
	Dir     bool
	OpenErr int   // errno of open, 0 none
	Chunks  []int // sizes of successive reads, repeated; empty: as much as fits
	ErrAt   int   // byte offset at which reads fail; -1 never
	Errno   int   // errno of the failing read
	Heals   bool  // only the first read at ErrAt fails
	CloseEr int   // errno of close
	MTime   int64 // time of the last change
	Pipe    bool  // a named pipe: what was read is gone
	Says    int64 // the size it claims to have, plus one; 0 the true one
	Changed bool  // it was written to, replaced or removed
	Gone    bool  // removed

	pos int // of a pipe
}

// WriteSpec describes how a stream takes bytes.
type WriteSpec struct {
	Limit int  // bytes accepted before writes fail; -1 no limit
	Errno int  // errno of the failing write
	Chunk int  // most bytes taken by one write system call; 0 no limit
	Heals bool // only one system call fails
}

// Event is one entry of the recorded history.
type Event struct {
	Step int64
	Op   string
	Name string
	N    int
	Err  string
}

// World is one simulated machine and, afterwards, what happened on it.
type World struct {
	Args    []string
	Files   []ReadSpec
	Stdin   ReadSpec
	Lag     int64 // simulated nanoseconds that an operation takes
	FDLimit int   // open descriptors allowed, 0 1 2 included
	Disk    []*DiskFile
	Room    int    // bytes the disk still takes, plus one; 0 no limit
	Litter  uint64 // decides which other files there are; 0 none
	Dropped []string
	Words   [][]byte // for contents of files and variables
	Env     uint64   // decides which variables are set to what; 0 none is
	Tty     int      // what the standard streams are, two bits each: pipe, terminal, file, null device
	Later   int64    // nanoseconds the clock is ahead
	KillAt  int      // the system call at which the process is killed; 0 none
	KillCut int      // how many bytes of it a write still writes
	Swaps   []Swap   // what other processes did in between
	Pid     int
	Stdout  WriteSpec
	Stderr  WriteSpec

	Out      []byte
	Err      []byte
	Exit     int
	Sigpipe  bool
	Exited   bool
	Killed   bool
	Calls    int // system calls
	Now      int64
	Stuck    bool // it would not have ended
	MaxFDs   int
	OpenLeft int
	Log      []Event
	Reads    int
	Fired    map[string]int
}

// Swap is what others have made of the disk when this process makes its system
// call number At.
type Swap struct {
	At      int
	Disk    []*DiskFile
	Dropped []string
	Now     int64
}

// apply puts what the others did in the place of what this process left. Open
// files stay the ones they are.
func (s Swap) apply() {
	have := map[int]*DiskFile{}
	for _, d := range world.Disk {
		have[d.Ino] = d
	}
	var l []*DiskFile
	for _, d := range s.Disk {
		if o := have[d.Ino]; o != nil && d.Ino != 0 {
			*o = *d
			d = o
		}
		l = append(l, d)
	}
	world.Disk, world.Dropped = l, s.Dropped
	if d := s.Now - now(); d > 0 {
		simrt.Ahead += d
	}
}

// Getpid gives the number of the simulated process.
func Getpid() int { return 4000 + world.Pid }

// Getppid gives that of the process that started it.
func Getppid() int { return 3999 }

var (
	// what the library meets outside the command: an empty disk
	world = &World{Fired: map[string]int{}, Stdin: ReadSpec{Name: "/dev/stdin", ErrAt: -1}, Stdout: WriteSpec{Limit: -1}, Stderr: WriteSpec{Limit: -1}}
	dead  bool
	fds   = map[int]*File{}
)

var (
	Args   = []string{"program"}
	Stdin  = &File{name: "/dev/stdin", fd: 0, r: &world.Stdin, open: true}
	Stdout = &File{name: "/dev/stdout", fd: 1, w: &world.Stdout, open: true}
	Stderr = &File{name: "/dev/stderr", fd: 2, w: &world.Stderr, open: true}
)

// Boot installs the world. Call it before the command's main function.
func Boot(w *World) {
	world = w
	if w.Fired == nil {
		w.Fired = map[string]int{}
	}
	Args = w.Args
	simrt.Ahead = w.Later
	cwd = "/sim"
	Stdin = &File{name: "/dev/stdin", fd: 0, r: &w.Stdin, open: true}
	Stdout = &File{name: "/dev/stdout", fd: 1, w: &w.Stdout, open: true}
	Stderr = &File{name: "/dev/stderr", fd: 2, w: &w.Stderr, open: true}
	fds[0], fds[1], fds[2] = Stdin, Stdout, Stderr
	w.MaxFDs = 3
}

// Finish notes the state left at the end of the process.
func Finish() {
	world.OpenLeft = 0
	world.Now = now()
	for fd := range fds {
		if fd > 2 {
			world.OpenLeft++
		}
	}
}

func event(op, name string, n int, err error) {
	s := ""
	if err != nil {
		s = err.Error()
	}
	if len(world.Log) > 1<<20 {
		return
	}
	world.Log = append(world.Log, Event{simrt.Steps(), op, name, n, s})
}

func fired(k string) { world.Fired[k]++ }

func gone() bool { return dead || world == nil }

// Exit ends the simulated process. Deferred calls still run, but nothing they
// do has any effect on the world.
func Exit(code int) {
	if !gone() {
		dead = true
		world.Exit = code & 0xff // all that wait reports
		world.Exited = true
		event("exit", "", code, nil)
	}
	simrt.Kill()
	runtime.Goexit()
}

// PipeSignal is what takes the place of the end of the process by SIGPIPE.
var PipeSignal func()

func sigpipe() {
	if !gone() {
		dead = true
		world.Exit = 141
		world.Sigpipe = true
		event("sigpipe", "", 141, nil)
	}
	simrt.Kill()
	runtime.Goexit()
}

// Died notes an uncaught panic.
func Died(msg string) {
	if gone() {
		return
	}
	dead = true
	world.Exit = 2
	world.Err = append(world.Err, "panic: "+msg+"\n"...)
	event("panic", msg, 2, nil)
}

// File is a descriptor of the simulated system.
type File struct {
	name   string
	fd     int
	r      *ReadSpec
	w      *WriteSpec
	d      *DiskFile // on the simulated disk
	flag   int
	off    int
	chunk  int
	failed bool
	open   bool
	healed bool
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.fd) }

func (f *File) check(op string) error {
	if f == nil {
		return std.ErrInvalid
	}
	if gone() {
		return std.ErrClosed
	}
	syscallPoint()
	if !f.open {
		return &std.PathError{Op: op, Path: f.name, Err: std.ErrClosed}
	}
	return nil
}

// syscallPoint is passed at every system call.
func syscallPoint() {
	simrt.Y(0)
	simrt.Advance(world.Lag)
	world.Calls++
	for len(world.Swaps) > 0 && world.Swaps[0].At <= world.Calls {
		world.Swaps[0].apply()
		world.Swaps = world.Swaps[1:]
		fired("another process ran")
	}
	if world.KillAt == world.Calls && world.KillCut == 0 {
		kill()
	}
}

// kill ends the process where it is.
func kill() {
	if !gone() {
		dead = true
		world.Exit = 137
		world.Killed = true
		fired("killed")
		event("killed", "", 137, nil)
	}
	simrt.Kill()
	runtime.Goexit()
}

func (f *File) perr(op string, errno int) error {
	return &std.PathError{Op: op, Path: f.name, Err: syscall.Errno(errno)}
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	world.Reads++
	n, err := f.read(b)
	if err != nil {
		event("read", f.name, n, err)
	}
	return n, err
}

func (f *File) read(b []byte) (int, error) {
	if f.d != nil {
		return f.d.read(f, b)
	}
	if f.r == nil {
		return 0, f.perr("read", int(syscall.EBADF))
	}
	if f.r.Dir {
		fired("read:EISDIR")
		return 0, f.perr("read", int(syscall.EISDIR))
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.r.Pipe {
		f.off = f.r.pos
		defer func() { f.r.pos = f.off }()
	}
	if f.r.ErrAt >= 0 && f.off >= f.r.ErrAt && f.r.Errno != 0 && !(f.r.Heals && f.healed) {
		f.healed = true
		fired("read:" + syscall.Errno(f.r.Errno).Error())
		return 0, f.perr("read", f.r.Errno)
	}
	if f.off >= len(f.r.Data) {
		return 0, io.EOF
	}
	n := len(b)
	if k := len(f.r.Chunks); k > 0 {
		c := f.r.Chunks[f.chunk%k]
		f.chunk++
		if c > 0 && c < n {
			n = c
			fired("read:short")
		}
	}
	if f.off+n > len(f.r.Data) {
		n = len(f.r.Data) - f.off
	}
	if f.r.ErrAt > f.off && f.r.Errno != 0 && f.off+n > f.r.ErrAt {
		n = f.r.ErrAt - f.off
	}
	copy(b, f.r.Data[f.off:f.off+n])
	f.off += n
	return n, nil
}

// seekable tells whether the file has positions.
func (f *File) seekable() bool {
	switch {
	case f.r != nil && f.fd == 0:
		return world.Tty&3 == 2
	case f.r != nil:
		return !f.r.Pipe
	}
	return f.d != nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if !f.seekable() {
		return 0, f.perr("read", int(syscall.ESPIPE))
	}
	save, ch := f.off, f.chunk
	defer func() { f.off, f.chunk = save, ch }()
	f.off = int(off)
	n := 0
	for n < len(b) {
		m, err := f.Read(b[n:])
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if !f.seekable() {
		return 0, f.perr("seek", int(syscall.ESPIPE))
	}
	switch whence {
	case 0:
		f.off = int(off)
	case 1:
		f.off += int(off)
	case 2:
		if f.d != nil {
			f.off = len(f.d.Data) + int(off)
		} else {
			f.off = len(f.r.Data) + int(off)
		}
	}
	return int64(f.off), nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	n, err := f.write(b)
	if !gone() {
		event("write", f.name, n, err)
	}
	return n, err
}

// write behaves like os.File.Write: it repeats the system call until all is
// written or one fails.
func (f *File) write(b []byte) (int, error) {
	cut := world.KillAt > 0 && world.KillAt == world.Calls
	if cut && len(b) > world.KillCut {
		b = b[:world.KillCut]
	}
	if cut {
		defer kill()
	}
	if f.d != nil {
		return f.d.write(f, b)
	}
	if f.r != nil && f.flag&(std.O_WRONLY|std.O_RDWR) != 0 {
		if f.flag&std.O_APPEND != 0 {
			f.off = len(f.r.Data)
		}
		f.r.Data, f.off = put(f.r.Data, f.off, b)
		f.r.Changed = true
		return len(b), nil
	}
	if f.w == nil {
		return 0, f.perr("write", int(syscall.EBADF))
	}
	dst := &world.Out
	if f.fd == 2 {
		dst = &world.Err
	}
	done := 0
	for done < len(b) {
		n := len(b) - done
		if f.w.Chunk > 0 && n > f.w.Chunk {
			n = f.w.Chunk
			fired("write:short")
		}
		if f.w.Limit >= 0 && !(f.w.Heals && f.healed) {
			if len(*dst) >= f.w.Limit {
				f.healed = true
				fired("write:" + syscall.Errno(f.w.Errno).Error())
				if syscall.Errno(f.w.Errno) == syscall.EPIPE && f.fd <= 2 {
					if PipeSignal == nil {
						sigpipe()
					}
					PipeSignal()
				}
				return done, f.perr("write", f.w.Errno)
			}
			if len(*dst)+n > f.w.Limit {
				n = f.w.Limit - len(*dst)
			}
		}
		*dst = append(*dst, b[done:done+n]...)
		done += n
	}
	return done, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if !f.seekable() {
		return 0, f.perr("write", int(syscall.ESPIPE))
	}
	save := f.off
	defer func() { f.off = save }()
	f.off = int(off)
	n, err := f.write(b)
	event("write", f.name, n, err)
	return n, err
}

type onlyWriter struct{ f *File }

func (o onlyWriter) Write(b []byte) (int, error) { return o.f.Write(b) }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }

func (f *File) Close() error {
	if f == nil {
		return std.ErrInvalid
	}
	if gone() {
		return nil
	}
	syscallPoint()
	if !f.open {
		return &std.PathError{Op: "close", Path: f.name, Err: std.ErrClosed}
	}
	f.open = false
	delete(fds, f.fd)
	var err error
	if f.r != nil && f.r.CloseEr != 0 {
		fired("close:" + syscall.Errno(f.r.CloseEr).Error())
		err = f.perr("close", f.r.CloseEr)
	}
	event("close", f.name, f.fd, err)
	return err
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.fd <= 2 {
		return f.perr("sync", int(syscall.EINVAL))
	}
	if f.d != nil {
		f.d.sync()
	}
	return nil
}

// Truncate cuts or lengthens a file open for writing.
func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	switch {
	case f.flag&(std.O_WRONLY|std.O_RDWR) == 0:
		return f.perr("truncate", int(syscall.EINVAL))
	case f.d != nil:
		f.d.Data = resize(f.d.Data, int(n))
		f.d.touch()
	case f.r != nil:
		f.r.Data, f.r.Changed = resize(f.r.Data, int(n)), true
	}
	return nil
}
func (f *File) Chdir() error                    { return f.perr("chdir", int(syscall.ENOTDIR)) }
func (f *File) Chmod(FileMode) error            { return nil }
func (f *File) Chown(int, int) error            { return nil }
func (f *File) SetDeadline(time.Time) error     { return std.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error { return std.ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error {
	return std.ErrNoDeadline
}

type info struct {
	name string
	size int64
	mode fs.FileMode
	mod  int64
}

func (i info) Name() string       { return i.name[strings.LastIndexByte(i.name, '/')+1:] }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return time.Unix(0, i.mod) }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() any           { return nil }

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.fd <= 2 {
		if f.fd == 0 && world.Tty&3 == 2 {
			return statOf(f.r), nil
		}
		return info{f.name, 0, []fs.FileMode{fs.ModeNamedPipe | 0o600, fs.ModeDevice | fs.ModeCharDevice | 0o620, 0o644, fs.ModeDevice | fs.ModeCharDevice | 0o666}[world.Tty>>(2*uint(f.fd))&3], 0}, nil
	}
	if f.d != nil {
		return f.d.info(), nil
	}
	return statOf(f.r), nil
}

func statOf(r *ReadSpec) FileInfo {
	if r == nil {
		return info{"", 0, 0o644, 0}
	}
	if r.Dir {
		return info{r.Name, 4096, fs.ModeDir | 0o755, r.MTime}
	}
	if r.Pipe {
		return info{r.Name, 0, fs.ModeNamedPipe | 0o600, r.MTime}
	}
	if r.Says > 0 {
		return info{r.Name, r.Says - 1, 0o644, r.MTime}
	}
	return info{r.Name, int64(len(r.Data)), 0o644, r.MTime}
}

func lookup(name string) *ReadSpec {
	for i := range world.Files {
		if world.Files[i].Name == name && !world.Files[i].Gone {
			return &world.Files[i]
		}
	}
	name = clean(name)
	for i := range world.Files {
		if clean(world.Files[i].Name) == name && !world.Files[i].Gone {
			return &world.Files[i]
		}
	}
	return nil
}

func newFD(f *File) bool {
	limit := world.FDLimit
	if limit <= 0 {
		limit = 1 << 20
	}
	if len(fds) >= limit {
		return false
	}
	for fd := 0; ; fd++ {
		if fds[fd] == nil {
			f.fd = fd
			fds[fd] = f
			break
		}
	}
	f.open = true
	if len(fds) > world.MaxFDs {
		world.MaxFDs = len(fds)
	}
	return true
}

func Open(name string) (*File, error) { return OpenFile(name, std.O_RDONLY, 0) }

func Create(name string) (*File, error) {
	return OpenFile(name, std.O_RDWR|std.O_CREATE|std.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if gone() {
		return nil, std.ErrClosed
	}
	syscallPoint()
	fail := func(errno syscall.Errno) (*File, error) {
		err := &std.PathError{Op: "open", Path: name, Err: errno}
		fired("open:" + errno.Error())
		event("open", name, -1, err)
		return nil, err
	}
	writes := flag&(std.O_WRONLY|std.O_RDWR) != 0
	r := lookup(name)
	if r == nil {
		switch clean(name) {
		case "/dev/stdin", "/dev/fd/0", "/proc/self/fd/0":
			return Stdin, nil
		case "/dev/stdout":
			return Stdout, nil
		case "/dev/stderr":
			return Stderr, nil
		}
		d, errno := diskOpen(name, flag, perm)
		if errno != 0 {
			return fail(errno)
		}
		f := &File{name: name, d: d, flag: flag}
		if !newFD(f) {
			return fail(syscall.EMFILE)
		}
		event("open", name, f.fd, nil)
		return f, nil
	}
	if r.OpenErr != 0 {
		return fail(syscall.Errno(r.OpenErr))
	}
	if writes && r.Dir {
		return fail(syscall.EISDIR)
	}
	if flag&(std.O_CREATE|std.O_EXCL) == std.O_CREATE|std.O_EXCL {
		return fail(syscall.EEXIST)
	}
	f := &File{name: name, r: r, flag: flag}
	if !newFD(f) {
		return fail(syscall.EMFILE)
	}
	if writes && flag&std.O_TRUNC != 0 {
		r.Data, r.Changed = nil, true
	}
	event("open", name, f.fd, nil)
	return f, nil
}

func NewFile(fd uintptr, name string) *File { return fds[int(fd)] }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := Create(name)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

// FiredKinds lists the fault kinds that fired, sorted.
func FiredKinds(w *World) []string {
	var ks []string
	for k := range w.Fired {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
