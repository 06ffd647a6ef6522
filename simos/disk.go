package simos

import (
	"fmt"
	"io"
	"io/fs"
	std "os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/simrt"
)

// DiskFile is a file or directory that is not an input. It survives the
// process; what was not synced may not survive a loss of power.
type DiskFile struct {
	Name  string // absolute
	Data  []byte
	Dir   bool
	Perm  uint32
	MTime int64
	Safe  []byte // what the disk has for certain
	Kept  bool   // the disk has the file for certain
	Dirty bool   // Data is not Safe
	Ino   int    // tells it from all others
}

var inos int

// add puts a new file on the disk.
func (d *DiskFile) add() {
	inos++
	d.Ino = world.Pid<<20 | inos
	world.Disk = append(world.Disk, d)
}

const home = "/sim/home"

func clean(name string) string {
	if name == "" {
		return ""
	}
	if name[0] != '/' {
		name = cwd + "/" + name
	}
	return path.Clean(name)
}

var cwd = "/sim"

func now() int64 { return simrt.Epoch + simrt.Ahead + simrt.Elapsed() }

func (d *DiskFile) touch() {
	d.MTime = now()
	d.Dirty = true
}

func (d *DiskFile) sync() {
	d.Safe = append([]byte(nil), d.Data...)
	d.Kept, d.Dirty = true, false
}

func (d *DiskFile) info() FileInfo {
	if d.Dir {
		return info{d.Name, 4096, fs.ModeDir | 0o755, d.MTime}
	}
	return info{d.Name, int64(len(d.Data)), fs.FileMode(d.Perm), d.MTime}
}

func (d *DiskFile) read(f *File, b []byte) (int, error) {
	if d.Dir {
		return 0, f.perr("read", int(syscall.EISDIR))
	}
	if f.flag&std.O_WRONLY != 0 {
		return 0, f.perr("read", int(syscall.EBADF))
	}
	if f.off >= len(d.Data) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, d.Data[f.off:])
	f.off += n
	return n, nil
}

func (d *DiskFile) write(f *File, b []byte) (int, error) {
	if f.flag&(std.O_WRONLY|std.O_RDWR) == 0 {
		return 0, f.perr("write", int(syscall.EBADF))
	}
	if f.flag&std.O_APPEND != 0 {
		f.off = len(d.Data)
	}
	n := len(b)
	if world.Room > 0 {
		if n > world.Room-1 {
			n = world.Room - 1
			fired("disk:full")
		}
		world.Room -= n
	}
	d.Data, f.off = put(d.Data, f.off, b[:n])
	d.touch()
	if n < len(b) {
		return n, f.perr("write", int(syscall.ENOSPC))
	}
	return n, nil
}

func put(data []byte, off int, b []byte) ([]byte, int) {
	if len(b) == 0 {
		return data, off
	}
	data = append([]byte(nil), data...)
	if len(data) < off+len(b) {
		data = resize(data, off+len(b))
	}
	copy(data[off:], b)
	return data, off + len(b)
}

func resize(b []byte, n int) []byte {
	if n < 0 {
		n = 0
	}
	r := make([]byte, n)
	copy(r, b)
	return r
}

func diskFind(name string) *DiskFile {
	name = clean(name)
	for _, d := range world.Disk {
		if d.Name == name {
			return d
		}
	}
	return litter(name)
}

// litter is a file that others have left on the machine, under about every
// other name that is not an argument of the command.
func litter(name string) *DiskFile {
	if world.Litter == 0 || name == "" || strings.HasPrefix(name, "/dev/") || strings.HasPrefix(name, "/proc/") {
		return nil
	}
	switch name {
	case "/", "/sim", "/tmp", "/dev", home, cwd:
		return nil
	}
	for _, a := range world.Args {
		// neither the inputs nor what they may be below of
		if n := clean(a); n == name || strings.HasPrefix(n, name+"/") {
			return nil
		}
	}
	for i := range world.Files {
		if n := clean(world.Files[i].Name); n == name || strings.HasPrefix(n, name+"/") {
			return nil
		}
	}
	for _, n := range world.Dropped {
		if n == name {
			return nil
		}
	}
	h := hash(world.Litter, name)
	if h%2 == 0 {
		return nil
	}
	texts := []string{"", "\n", "true\n", "1\n", "neovim\n", "-neovim\n-json\n", "{\"neovim\": true, \"json\": true}\n", "neovim=true\njson=true\n", "[options]\nneovim = true\n", "(echo litter)\n", "\x00\x01\x02"}
	for _, w := range world.Words {
		texts = append(texts, string(w), string(w)+"=1\n", "{\""+string(w)+"\": true}")
	}
	d := &DiskFile{Name: name, Perm: 0o644, MTime: now() - int64(h>>40)*1e9, Data: []byte(texts[h>>8%uint64(len(texts))])}
	d.sync()
	d.add()
	fired("a file of others")
	return d
}

func hash(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h ^ h>>29
}

// isDir tells whether there is a directory of that (clean) name.
func isDir(name string) bool {
	switch name {
	case "/", "/sim", "/tmp", "/dev", home, cwd:
		return true
	}
	if d := diskFind(name); d != nil {
		return d.Dir
	}
	for i := range world.Files {
		n := clean(world.Files[i].Name)
		if strings.HasPrefix(n, name+"/") || n == name && world.Files[i].Dir {
			return true
		}
	}
	return false
}

func diskOpen(name string, flag int, perm FileMode) (*DiskFile, syscall.Errno) {
	p := clean(name)
	if p == "" {
		return nil, syscall.ENOENT
	}
	writes := flag&(std.O_WRONLY|std.O_RDWR) != 0
	if strings.HasSuffix(name, "/") && !isDir(p) {
		return nil, syscall.ENOENT
	}
	d := diskFind(p)
	switch {
	case d == nil && p == "/dev/null":
		return &DiskFile{Name: p, Perm: 0o666}, 0
	case d == nil && isDir(p), d != nil && d.Dir:
		if writes {
			return nil, syscall.EISDIR
		}
		return &DiskFile{Name: p, Dir: true}, 0
	case d == nil && flag&std.O_CREATE == 0:
		return nil, syscall.ENOENT
	case d == nil && !isDir(path.Dir(p)):
		return nil, syscall.ENOENT
	case d == nil && world.Room == 1:
		fired("disk:full")
		return nil, syscall.ENOSPC
	case d == nil:
		d = &DiskFile{Name: p, Perm: uint32(perm.Perm()), MTime: now(), Dirty: true}
		d.add()
	case flag&std.O_EXCL != 0 && flag&std.O_CREATE != 0:
		return nil, syscall.EEXIST
	}
	if writes && flag&std.O_TRUNC != 0 {
		d.Data = nil
		d.touch()
	}
	return d, 0
}

// PowerLoss is what the disk is like after power was lost: what was not synced
// is there, cut off, zero, or not there. The numbers come from draw.
func PowerLoss(disk []*DiskFile, draw func(n int) int) []*DiskFile {
	var l []*DiskFile
	for _, d := range disk {
		if !d.Dir && d.Dirty {
			switch draw(5) {
			case 0: // all of it got there
			case 1:
				d.Data = d.Data[:draw(len(d.Data)+1)]
			case 2:
				d.Data = make([]byte, len(d.Data))
			case 3:
				d.Data = nil
			case 4:
				if !d.Kept {
					continue
				}
				d.Data = d.Safe
			}
		}
		d.sync()
		l = append(l, d)
	}
	return l
}

// ---- calls that take names ----

func call(op, name string) error {
	if gone() {
		return std.ErrClosed
	}
	syscallPoint()
	event(op, name, 0, nil)
	return nil
}

func fault(op, name string, errno syscall.Errno) error {
	return &std.PathError{Op: op, Path: name, Err: errno}
}

func Stat(name string) (FileInfo, error) {
	if err := call("stat", name); err != nil {
		return nil, err
	}
	if r := lookup(name); r != nil {
		return statOf(r), nil
	}
	switch p := clean(name); {
	case p == "/dev/stdin":
		return Stdin.Stat()
	case p == "/dev/stdout":
		return Stdout.Stat()
	case diskFind(p) != nil:
		return diskFind(p).info(), nil
	case p != "" && isDir(p):
		return info{p, 4096, fs.ModeDir | 0o755, 0}, nil
	}
	return nil, fault("stat", name, syscall.ENOENT)
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func ReadDir(name string) ([]DirEntry, error) {
	if err := call("readdir", name); err != nil {
		return nil, err
	}
	p := clean(name)
	if !isDir(p) {
		errno := syscall.ENOENT
		if lookup(name) != nil || diskFind(p) != nil {
			errno = syscall.ENOTDIR
		}
		return nil, fault("open", name, errno)
	}
	seen := map[string]FileInfo{}
	add := func(n string, i FileInfo) {
		n = strings.TrimPrefix(n, strings.TrimSuffix(p, "/")+"/")
		if k := strings.IndexByte(n, '/'); k >= 0 {
			n = n[:k]
			i = info{n, 4096, fs.ModeDir | 0o755, 0}
		}
		if _, ok := seen[n]; !ok {
			seen[n] = i
		}
	}
	for i := range world.Files {
		if n := clean(world.Files[i].Name); strings.HasPrefix(n, strings.TrimSuffix(p, "/")+"/") && !world.Files[i].Gone {
			add(n, statOf(&world.Files[i]))
		}
	}
	for _, d := range world.Disk {
		if strings.HasPrefix(d.Name, strings.TrimSuffix(p, "/")+"/") {
			add(d.Name, d.info())
		}
	}
	var names []string
	for n := range seen {
		names = append(names, n)
	}
	sort.Strings(names)
	var l []DirEntry
	for _, n := range names {
		l = append(l, fs.FileInfoToDirEntry(seen[n]))
	}
	return l, nil
}

func (f *File) ReadDir(n int) ([]DirEntry, error) { return ReadDir(f.name) }
func (f *File) Readdir(n int) ([]FileInfo, error) {
	var l []FileInfo
	es, err := ReadDir(f.name)
	for _, e := range es {
		i, _ := e.Info()
		l = append(l, i)
	}
	return l, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	var l []string
	es, err := ReadDir(f.name)
	for _, e := range es {
		l = append(l, e.Name())
	}
	return l, err
}

func diskDrop(d *DiskFile) {
	for i, x := range world.Disk {
		if x == d {
			world.Disk = append(world.Disk[:i:i], world.Disk[i+1:]...)
			world.Dropped = append(world.Dropped, d.Name)
			return
		}
	}
}

func Remove(name string) error {
	if err := call("remove", name); err != nil {
		return err
	}
	if r := lookup(name); r != nil {
		r.Changed, r.Gone = true, true
		return nil
	}
	d := diskFind(name)
	if d == nil {
		return fault("remove", name, syscall.ENOENT)
	}
	if d.Dir {
		for _, x := range world.Disk {
			if strings.HasPrefix(x.Name, d.Name+"/") {
				return fault("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	diskDrop(d)
	return nil
}

func RemoveAll(name string) error {
	if err := call("removeall", name); err != nil {
		return err
	}
	p := clean(name)
	for i := range world.Files {
		if n := clean(world.Files[i].Name); n == p || strings.HasPrefix(n, p+"/") {
			world.Files[i].Changed, world.Files[i].Gone = true, true
		}
	}
	var l []*DiskFile
	for _, d := range world.Disk {
		if d.Name != p && !strings.HasPrefix(d.Name, p+"/") {
			l = append(l, d)
		}
	}
	world.Disk = l
	return nil
}

func Rename(a, b string) error {
	if err := call("rename", a); err != nil {
		return err
	}
	bad := func(errno syscall.Errno) error { return &std.LinkError{Op: "rename", Old: a, New: b, Err: errno} }
	if r := lookup(a); r != nil {
		r.Changed, r.Gone = true, true
		return nil
	}
	d := diskFind(a)
	switch {
	case d == nil:
		return bad(syscall.ENOENT)
	case !isDir(path.Dir(clean(b))):
		return bad(syscall.ENOENT)
	}
	if r := lookup(b); r != nil {
		r.Changed, r.Data = true, d.Data
		diskDrop(d)
		return nil
	}
	if x := diskFind(b); x != nil && x != d {
		d.Kept = d.Kept || x.Kept
		if d.Dirty {
			d.Safe = x.Safe
		}
		diskDrop(x)
	}
	d.Name = clean(b)
	return nil
}

func Mkdir(name string, perm FileMode) error {
	if err := call("mkdir", name); err != nil {
		return err
	}
	p := clean(name)
	switch {
	case isDir(p) || diskFind(p) != nil || lookup(name) != nil:
		return fault("mkdir", name, syscall.EEXIST)
	case !isDir(path.Dir(p)):
		return fault("mkdir", name, syscall.ENOENT)
	}
	(&DiskFile{Name: p, Dir: true, Perm: uint32(perm.Perm()), MTime: now(), Kept: true}).add()
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	p := clean(name)
	if p == "" {
		return fault("mkdir", name, syscall.ENOENT)
	}
	if isDir(p) {
		return nil
	}
	if err := MkdirAll(path.Dir(p), perm); err != nil {
		return err
	}
	return Mkdir(p, perm)
}

func temp(dir, pattern string, try func(string) error) error {
	if dir == "" {
		dir = TempDir()
	}
	pre, post, ok := strings.Cut(pattern, "*")
	if !ok {
		post = ""
	}
	for i := 0; ; i++ {
		err := try(path.Join(dir, fmt.Sprintf("%s%d%s", pre, 1000+i+len(world.Disk), post)))
		if err == nil || !std.IsExist(err) || i > 1000 {
			return err
		}
	}
}

func MkdirTemp(dir, pattern string) (name string, err error) {
	if gone() {
		return "", std.ErrClosed
	}
	err = temp(dir, pattern, func(n string) error { name = n; return Mkdir(n, 0o700) })
	return
}

func CreateTemp(dir, pattern string) (f *File, err error) {
	if gone() {
		return nil, std.ErrClosed
	}
	err = temp(dir, pattern, func(n string) error {
		var e error
		f, e = OpenFile(n, std.O_RDWR|std.O_CREATE|std.O_EXCL, 0o600)
		return e
	})
	return
}

func Truncate(name string, n int64) error {
	f, err := OpenFile(name, std.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func Chmod(name string, m FileMode) error {
	if err := call("chmod", name); err != nil {
		return err
	}
	if d := diskFind(name); d != nil {
		d.Perm = uint32(m.Perm())
		return nil
	}
	if r := lookup(name); r != nil {
		r.Changed = true
		return nil
	}
	return fault("chmod", name, syscall.ENOENT)
}

func Chtimes(name string, _, mod time.Time) error {
	if err := call("chtimes", name); err != nil {
		return err
	}
	if d := diskFind(name); d != nil {
		d.MTime = mod.UnixNano()
		return nil
	}
	if r := lookup(name); r != nil {
		r.Changed, r.MTime = true, mod.UnixNano()
		return nil
	}
	return fault("chtimes", name, syscall.ENOENT)
}

func Link(a, b string) error { return &std.LinkError{Op: "link", Old: a, New: b, Err: syscall.EPERM} }
func Symlink(a, b string) error {
	return &std.LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM}
}
func Readlink(name string) (string, error) { return "", fault("readlink", name, syscall.EINVAL) }

func Chdir(name string) error {
	if err := call("chdir", name); err != nil {
		return err
	}
	if p := clean(name); isDir(p) {
		cwd = p
		return nil
	}
	return fault("chdir", name, syscall.ENOENT)
}

// ---- the environment ----

var setenv = map[string]string{}

// LookupEnv gives any variable asked for a value, or none, as the world has it.
func LookupEnv(name string) (string, bool) {
	if v, ok := setenv[name]; ok {
		return v, v != "\x00"
	}
	if world == nil || world.Env == 0 || name == "" {
		return "", false
	}
	h := hash(world.Env, name)
	if h%4 == 0 {
		return "", false
	}
	fired("environment variable set")
	switch {
	case name == "HOME":
		return home, true
	case name == "TMPDIR":
		return "/tmp", true
	case strings.HasPrefix(name, "XDG_"):
		return home + "/." + strings.ToLower(name[4:]), true
	}
	values := []string{"1", "0", "", "true", "C", "xterm-256color", "dumb", "always", "2", "/sim/home", "en_US.UTF-8", "de_DE.ISO-8859-1", "-json -neovim", "neovim", "json", "80", "on", "off"}
	for _, w := range world.Words {
		values = append(values, string(w))
	}
	return values[h>>8%uint64(len(values))], true
}

func Getenv(name string) string { v, _ := LookupEnv(name); return v }

func Environ() []string {
	var l []string
	for _, n := range []string{"HOME", "TERM", "LANG", "NO_COLOR", "TMPDIR", "DEBUG", "PATH", "USER", "COLUMNS"} {
		if v, ok := LookupEnv(n); ok {
			l = append(l, n+"="+v)
		}
	}
	return l
}

func Setenv(n, v string) error { setenv[n] = v; return nil }
func Unsetenv(n string) error  { setenv[n] = "\x00"; return nil }
func Clearenv()                {}

func Expand(s string, f func(string) string) string { return std.Expand(s, f) }
func ExpandEnv(s string) string                     { return std.Expand(s, Getenv) }

func Getwd() (string, error)      { return cwd, nil }
func Executable() (string, error) { return "/sim/bin/vimlparser", nil }

func Hostname() (string, error) {
	if world != nil && world.Env&1 != 0 {
		return "other", nil
	}
	return "sim", nil
}

func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}

func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", fmt.Errorf("$HOME is not defined")
}

func userDir(v, sub string) (string, error) {
	if d := Getenv(v); d != "" {
		return d, nil
	}
	h, err := UserHomeDir()
	if err != nil {
		return "", fmt.Errorf("neither $%s nor $HOME are defined", v)
	}
	return h + "/" + sub, nil
}

func UserCacheDir() (string, error)  { return userDir("XDG_CACHE_HOME", ".cache") }
func UserConfigDir() (string, error) { return userDir("XDG_CONFIG_HOME", ".config") }

func SameFile(a, b FileInfo) bool { return a != nil && b != nil && a.Name() == b.Name() }

// DirFS gives the files below a directory.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, fault("open", name, syscall.EINVAL)
	}
	f, err := Open(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}

func Chown(name string, uid, gid int) error  { return fault("chown", name, syscall.EPERM) }
func Lchown(name string, uid, gid int) error { return fault("lchown", name, syscall.EPERM) }
