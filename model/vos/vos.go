// Package zz_vos is the environment model that replaces package os for the code under test:
// an in-memory file system whose every operation is atomic, may be told to fail, and can be
// observed after each step (the state a crash at that instant would leave behind).
package zz_vos

import (
	"errors"
	"io"
	realos "os"
	"path/filepath"
	"syscall"
	"time"

	v "github.com/xtfly/log4g/internal/zz_vrt"
)

type (
	FileMode  = realos.FileMode
	FileInfo  = realos.FileInfo
	PathError = realos.PathError
	LinkError = realos.LinkError
	Signal    = realos.Signal
	DirEntry  = realos.DirEntry
)

var (
	Interrupt Signal = syscall.SIGINT
	Kill      Signal = syscall.SIGKILL
)

type inode struct {
	data   []byte
	base   int64 // bytes before data that are counted but not stored (PutSize)
	mode   FileMode
	dir    bool
	id     int
	mtime  time.Time
	locked bool
}

type dirent struct {
	path string
	n    *inode
}

// File is the model of os.File.
type File struct {
	name   string
	path   string
	n      *inode
	flag   int
	off    int
	closed bool
	rdpos  []dirent
	rdinit bool
	std    bool
}

var (
	table  []dirent // the file system: absolute path -> node, in creation order
	nextID int
	ntemp  int

	Stdin  = &File{name: "/dev/stdin", n: &inode{}, std: true}
	Stdout = &File{name: "/dev/stdout", n: &inode{}, std: true, flag: O_WRONLY | O_APPEND}
	Stderr = &File{name: "/dev/stderr", n: &inode{}, std: true, flag: O_WRONLY | O_APPEND}
	Args   = []string{"/usr/bin/zzprog"}

	// OnChange, when set, is called after every operation that changed the file system.
	OnChange func(op string)
	// FaultBudget is the number of operations that may still fail; which ones is decided by
	// the solver, one boolean per operation.
	FaultBudget int
	// FaultFilter limits the operations that may fail (nil: all of them).
	FaultFilter func(op, path string) bool
	// Outage, when set, tells which operations fail for certain; a write then takes Short bytes.
	Outage func(op, path string) bool
	Short  int
	// ShuffleDirs lets directories be listed in any order.
	ShuffleDirs bool
	// Umask of the process.
	Umask FileMode
	// FaultCount is the number of injected failures.
	FaultCount int
	// Faults names the operations that were failed.
	Faults []string
	// OpenFiles counts the files and directories that are open.
	OpenFiles int
	// Ops counts operations.
	Ops int
	// CrashAfter, when positive, is the number of changes after which the process dies: from
	// then on (Dead) no operation has any effect.
	CrashAfter int
	Dead       bool

	errFault = errors.New("input/output error")
	errUsed  = errors.New("file already closed")
)

func init() {
	table = append(table, dirent{"/", &inode{dir: true, mode: realos.ModeDir | 0755}})
	table = append(table, dirent{"/cwd", &inode{dir: true, mode: realos.ModeDir | 0755}})
	table = append(table, dirent{"/tmp", &inode{dir: true, mode: realos.ModeDir | 0777}})
}

func clean(p string) string {
	if p == "" {
		return "/cwd"
	}
	if p[0] != '/' {
		p = "/cwd/" + p
	}
	return filepath.Clean(p)
}

func find(p string) int {
	for i := range table {
		if table[i].path == p {
			return i
		}
	}
	return -1
}

func parentOf(p string) string { return filepath.Dir(p) }

func begin() {
	v.Point("fs")
	v.Enter()
}

func op(name, path string) error {
	Ops++
	if Dead {
		return errFault
	}
	if Outage != nil && Outage(name, path) {
		FaultCount++
		Faults = append(Faults, name)
		return errFault
	}
	if FaultBudget > 0 && (FaultFilter == nil || FaultFilter(name, path)) {
		if v.Bool("fault:" + name) {
			FaultBudget--
			FaultCount++
			Faults = append(Faults, name)
			return errFault
		}
	}
	return nil
}

func changed(name string) {
	if CrashAfter > 0 {
		CrashAfter--
		Dead = CrashAfter == 0
	}
	if OnChange != nil {
		OnChange(name)
	}
}

func perr(op, path string, err error) error { return &PathError{Op: op, Path: path, Err: err} }

// ------------------------------------------------------------ inspection (harness only)

// Reset empties the file system.
func Reset() {
	table = table[:3]
	Stdout.n.data = nil
	Stderr.n.data = nil
}

// Names lists the paths of everything but directories, in creation order.
func Names() []string {
	v.Point("fs")
	var r []string
	for _, d := range table {
		if !d.n.dir {
			r = append(r, d.path)
		}
	}
	return r
}

// Content returns a file's bytes; ok is false if there is no such file.
func Content(path string) ([]byte, bool) {
	v.Point("fs")
	i := find(clean(path))
	if i < 0 || table[i].n.dir {
		return nil, false
	}
	return table[i].n.data, true
}

// ModeOf returns the mode of a path.
func ModeOf(path string) (FileMode, bool) {
	i := find(clean(path))
	if i < 0 {
		return 0, false
	}
	return table[i].n.mode, true
}

// IDOf identifies the file behind a path (stable over renames).
func IDOf(path string) int {
	i := find(clean(path))
	if i < 0 {
		return -1
	}
	return table[i].n.id
}

// Put creates a file with the given content, and its directories.
func Put(path string, data []byte, mode FileMode) {
	p := clean(path)
	mkdirAll(parentOf(p), 0755)
	if i := find(p); i >= 0 {
		table[i].n.data = data
		return
	}
	nextID++
	table = append(table, dirent{p, &inode{data: data, mode: mode, id: nextID}})
}

// PutSize creates a file that is reported to have size bytes before anything is appended.
func PutSize(path string, size int64) {
	Put(path, nil, 0600)
	table[find(clean(path))].n.base = size
}

// PutSpecial creates what is neither a regular file nor a directory: a symbolic link to nothing
// (ModeSymlink), a pipe, a socket or a device. It cannot be opened.
func PutSpecial(path string, kind FileMode) {
	Put(path, nil, kind|0777)
}

// PutDir creates a directory.
func PutDir(path string) { mkdirAll(clean(path), 0755) }

func mkdirAll(p string, perm FileMode) (bool, error) {
	made := false
	for i := 1; i <= len(p); i++ {
		if i < len(p) && p[i] != '/' {
			continue
		}
		q := p[:i]
		if k := find(q); k >= 0 {
			if !table[k].n.dir {
				return made, syscall.ENOTDIR
			}
			continue
		}
		nextID++
		table = append(table, dirent{q, &inode{dir: true, mode: realos.ModeDir | (perm &^ Umask), id: nextID}})
		made = true
	}
	return made, nil
}

// ------------------------------------------------------------ package functions

func Getpid() int               { return 4242 }
func Getwd() (string, error)    { return "/cwd", nil }
func TempDir() string           { return "/tmp" }
func Hostname() (string, error) { return "host", nil }
func Getenv(key string) string  { return "" }
func LookupEnv(key string) (string, bool) {
	return "", false
}
func Environ() []string              { return nil }
func Clearenv()                      {}
func Setenv(key, value string) error { return nil }
func Unsetenv(key string) error      { return nil }
func ExpandEnv(s string) string      { return realos.Expand(s, Getenv) }
func UserHomeDir() (string, error)   { return "/home/u", nil }
func UserCacheDir() (string, error)  { return "/home/u/.cache", nil }
func UserConfigDir() (string, error) { return "/home/u/.config", nil }
func Executable() (string, error)    { return "/bin/prog", nil }
func Getuid() int                    { return 0 }
func Geteuid() int                   { return 0 }
func Getgid() int                    { return 0 }
func Getegid() int                   { return 0 }
func Getppid() int                   { return 1 }
func Getpagesize() int               { return 4096 }
func Chown(name string, u, g int) error {
	_, err := Stat(name)
	return err
}
func Lchown(name string, u, g int) error {
	_, err := Lstat(name)
	return err
}
func Chtimes(name string, a, m time.Time) error {
	_, err := Stat(name)
	return err
}

func Exit(code int) { panic("os.Exit") }

func IsNotExist(err error) bool {
	return under(err) == realos.ErrNotExist || under(err) == error(syscall.ENOENT)
}
func IsExist(err error) bool {
	return under(err) == realos.ErrExist || under(err) == error(syscall.EEXIST)
}
func IsPermission(err error) bool { return under(err) == realos.ErrPermission }

func under(err error) error {
	switch e := err.(type) {
	case *PathError:
		return e.Err
	case *LinkError:
		return e.Err
	}
	return err
}

func MkdirAll(path string, perm FileMode) error {
	begin()
	defer v.Leave()
	if err := op("mkdir", path); err != nil {
		return perr("mkdir", path, err)
	}
	made, err := mkdirAll(clean(path), perm)
	if err != nil {
		return perr("mkdir", path, err)
	}
	if made {
		changed("mkdir")
	}
	return nil
}

func Mkdir(path string, perm FileMode) error {
	begin()
	defer v.Leave()
	if err := op("mkdir", path); err != nil {
		return perr("mkdir", path, err)
	}
	p := clean(path)
	if find(p) >= 0 {
		return perr("mkdir", path, realos.ErrExist)
	}
	if k := find(parentOf(p)); k < 0 || !table[k].n.dir {
		return perr("mkdir", path, realos.ErrNotExist)
	}
	mkdirAll(p, perm)
	changed("mkdir")
	return nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	begin()
	defer v.Leave()
	if err := op("open", name); err != nil {
		return nil, perr("open", name, err)
	}
	return open(name, flag, perm)
}

func open(name string, flag int, perm FileMode) (*File, error) {
	p := clean(name)
	i := find(p)
	acc := flag & (O_RDONLY | O_WRONLY | O_RDWR)
	if i < 0 {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, realos.ErrNotExist)
		}
		k := find(parentOf(p))
		if k < 0 {
			return nil, perr("open", name, realos.ErrNotExist)
		}
		if !table[k].n.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		nextID++
		n := &inode{mode: perm &^ Umask & realos.ModePerm, id: nextID}
		table = append(table, dirent{p, n})
		changed("create")
		OpenFiles++
		return &File{name: name, path: p, n: n, flag: flag}, nil
	}
	n := table[i].n
	if !n.dir && n.mode&realos.ModeType != 0 {
		if n.mode&realos.ModeSymlink != 0 {
			return nil, perr("open", name, realos.ErrNotExist)
		}
		return nil, perr("open", name, syscall.ENXIO)
	}
	if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", name, realos.ErrExist)
	}
	if n.dir && acc != O_RDONLY {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&O_TRUNC != 0 && (len(n.data) > 0 || n.base > 0) {
		n.data, n.base = nil, 0
		changed("truncate")
	}
	OpenFiles++
	return &File{name: name, path: p, n: n, flag: flag}, nil
}

func Remove(name string) error {
	begin()
	defer v.Leave()
	if err := op("remove", name); err != nil {
		return perr("remove", name, err)
	}
	p := clean(name)
	i := find(p)
	if i < 0 {
		return perr("remove", name, realos.ErrNotExist)
	}
	if table[i].n.dir {
		for _, d := range table {
			if parentOf(d.path) == p && d.path != p {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	drop(i)
	changed("remove")
	return nil
}

func drop(i int) {
	t := make([]dirent, 0, len(table))
	t = append(t, table[:i]...)
	table = append(t, table[i+1:]...)
}

func RemoveAll(name string) error {
	begin()
	defer v.Leave()
	if err := op("remove", name); err != nil {
		return perr("remove", name, err)
	}
	p := clean(name)
	var t []dirent
	for _, d := range table {
		if d.path == p || (len(d.path) > len(p) && d.path[:len(p)] == p && d.path[len(p)] == '/') {
			continue
		}
		t = append(t, d)
	}
	table = t
	changed("remove")
	return nil
}

func Rename(from, to string) error {
	begin()
	defer v.Leave()
	if err := op("rename", from); err != nil {
		return &LinkError{"rename", from, to, err}
	}
	a, b := clean(from), clean(to)
	i := find(a)
	if i < 0 {
		return &LinkError{"rename", from, to, realos.ErrNotExist}
	}
	if k := find(parentOf(b)); k < 0 || !table[k].n.dir {
		return &LinkError{"rename", from, to, realos.ErrNotExist}
	}
	if a == b {
		return nil
	}
	n := table[i].n
	if j := find(b); j >= 0 {
		if table[j].n.dir != n.dir || n.dir {
			return &LinkError{"rename", from, to, realos.ErrExist}
		}
		table[j].n = n
		drop(i)
	} else {
		if n.dir {
			for k := range table {
				q := table[k].path
				if len(q) > len(a) && q[:len(a)] == a && q[len(a)] == '/' {
					table[k].path = b + q[len(a):]
				}
			}
		}
		drop(i)
		table = append(table, dirent{b, n})
	}
	changed("rename")
	return nil
}

func Link(from, to string) error {
	begin()
	defer v.Leave()
	if err := op("link", from); err != nil {
		return &LinkError{"link", from, to, err}
	}
	i, j := find(clean(from)), find(clean(to))
	if i < 0 {
		return &LinkError{"link", from, to, realos.ErrNotExist}
	}
	if j >= 0 {
		return &LinkError{"link", from, to, realos.ErrExist}
	}
	table = append(table, dirent{clean(to), table[i].n})
	changed("link")
	return nil
}

func Chmod(name string, mode FileMode) error {
	begin()
	defer v.Leave()
	if err := op("chmod", name); err != nil {
		return perr("chmod", name, err)
	}
	i := find(clean(name))
	if i < 0 {
		return perr("chmod", name, realos.ErrNotExist)
	}
	n := table[i].n
	n.mode = n.mode&^realos.ModePerm | mode&realos.ModePerm
	changed("chmod")
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	return f.Truncate(size)
}

func Stat(name string) (FileInfo, error) {
	begin()
	defer v.Leave()
	if err := op("stat", name); err != nil {
		return nil, perr("stat", name, err)
	}
	i := find(clean(name))
	if i < 0 || table[i].n.mode&realos.ModeSymlink != 0 {
		return nil, perr("stat", name, realos.ErrNotExist)
	}
	return infoOf(clean(name), table[i].n), nil
}

func Lstat(name string) (FileInfo, error) {
	begin()
	defer v.Leave()
	if err := op("lstat", name); err != nil {
		return nil, perr("lstat", name, err)
	}
	i := find(clean(name))
	if i < 0 {
		return nil, perr("lstat", name, realos.ErrNotExist)
	}
	return infoOf(clean(name), table[i].n), nil
}

func SameFile(a, b FileInfo) bool {
	x, ok := a.(*fileInfo)
	y, ok2 := b.(*fileInfo)
	return ok && ok2 && x.n == y.n
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var r []byte
	b := make([]byte, 512)
	for {
		n, err := f.Read(b)
		r = append(r, b[:n]...)
		if err == io.EOF {
			return r, nil
		}
		if err != nil {
			return r, err
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.ReadDir(-1)
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j].Name() < l[j-1].Name(); j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l, err
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	begin()
	defer v.Leave()
	if err := op("open", dir); err != nil {
		return nil, perr("open", dir, err)
	}
	pre, post := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, post = pattern[:i], pattern[i+1:]
			break
		}
	}
	ntemp++
	return open(dir+"/"+pre+itoa(1000+ntemp)+post, O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	ntemp++
	p := dir + "/" + pattern + itoa(1000+ntemp)
	return p, Mkdir(p, 0700)
}

func itoa(n int) string {
	s := ""
	for n > 0 {
		s = string([]byte{byte('0' + n%10)}) + s
		n /= 10
	}
	return s
}

// ------------------------------------------------------------ File

func (f *File) check(name string) error {
	if f == nil {
		return realos.ErrInvalid
	}
	if f.closed {
		return perr(name, f.name, realos.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Close() error {
	if f == nil {
		return realos.ErrInvalid
	}
	begin()
	defer v.Leave()
	if err := f.check("close"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	err := op("close", f.path)
	OpenFiles--
	f.closed = true // a failing close releases the descriptor all the same
	if err != nil {
		return perr("close", f.name, err)
	}
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	begin()
	defer v.Leave()
	if err := op("sync", f.path); err != nil {
		return perr("sync", f.name, err)
	}
	return nil
}

func (f *File) Write(b []byte) (int, error) {
	v.Touch(b)
	begin()
	defer v.Leave()
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if !f.std && f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	err := op("write", f.path)
	if Dead {
		n = 0
	} else if err != nil && Outage != nil {
		if n = Short; n >= len(b) {
			n = len(b) - 1
		}
	} else if err != nil {
		n = v.Choose("short", len(b)) // a failing write may have written a part
	}
	f.put(b[:n])
	if n > 0 {
		changed("write")
	}
	if err != nil {
		return n, perr("write", f.name, err)
	}
	return n, nil
}

func (f *File) put(b []byte) {
	d := f.n.data
	if f.flag&O_APPEND != 0 {
		f.off = len(d)
	}
	for len(d) < f.off {
		d = append(d, 0)
	}
	k := f.off + len(b)
	var nd []byte
	nd = append(nd, d[:f.off]...)
	nd = append(nd, b...)
	if k < len(d) {
		nd = append(nd, d[k:]...)
	}
	f.n.data = nd
	f.off = k
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.flag&O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	o := f.off
	f.off = int(off)
	n, err := f.Write(b)
	f.off = o
	return n, err
}

func (f *File) Read(b []byte) (int, error) {
	begin()
	defer v.Leave()
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= len(f.n.data) {
		return 0, io.EOF
	}
	if err := op("read", f.path); err != nil {
		return 0, perr("read", f.name, err)
	}
	n := copy(b, f.n.data[f.off:])
	f.off += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	begin()
	defer v.Leave()
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if err := op("read", f.path); err != nil {
		return 0, perr("read", f.name, err)
	}
	if int(off) >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	begin()
	defer v.Leave()
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if err := op("seek", f.path); err != nil {
		return 0, perr("seek", f.name, err)
	}
	switch whence {
	case 0:
		f.off = int(offset)
	case 1:
		f.off += int(offset)
	case 2:
		f.off = len(f.n.data) + int(offset)
		return int64(f.off) + f.n.base, nil
	}
	return int64(f.off), nil
}

func (f *File) Truncate(size int64) error {
	begin()
	defer v.Leave()
	if err := f.check("truncate"); err != nil {
		return err
	}
	if err := op("truncate", f.path); err != nil {
		return perr("truncate", f.name, err)
	}
	for len(f.n.data) < int(size) {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = f.n.data[:size:size]
	changed("truncate")
	return nil
}

func (f *File) Chmod(mode FileMode) error {
	begin()
	defer v.Leave()
	if err := f.check("chmod"); err != nil {
		return err
	}
	if err := op("chmod", f.path); err != nil {
		return perr("chmod", f.name, err)
	}
	f.n.mode = f.n.mode&^realos.ModePerm | mode&realos.ModePerm
	changed("chmod")
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if f == nil {
		return nil, realos.ErrInvalid
	}
	begin()
	defer v.Leave()
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if err := op("stat", f.path); err != nil {
		return nil, perr("stat", f.name, err)
	}
	return infoOf(f.name, f.n), nil
}

func (f *File) list(n int) ([]dirent, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if !f.n.dir {
		return nil, perr("readdir", f.name, syscall.ENOTDIR)
	}
	if err := op("readdir", f.path); err != nil {
		return nil, perr("readdir", f.name, err)
	}
	if !f.rdinit {
		f.rdinit = true
		for _, d := range table {
			if d.path != f.path && parentOf(d.path) == f.path {
				f.rdpos = append(f.rdpos, d)
			}
		}
		if ShuffleDirs {
			for i := len(f.rdpos) - 1; i > 0; i-- {
				j := v.Choose("dirorder", i+1)
				f.rdpos[i], f.rdpos[j] = f.rdpos[j], f.rdpos[i]
			}
		}
	}
	if n <= 0 {
		r := f.rdpos
		f.rdpos = nil
		return r, nil
	}
	if len(f.rdpos) == 0 {
		return nil, io.EOF
	}
	if n > len(f.rdpos) {
		n = len(f.rdpos)
	}
	r := f.rdpos[:n]
	f.rdpos = f.rdpos[n:]
	return r, nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	begin()
	defer v.Leave()
	l, err := f.list(n)
	var r []FileInfo
	for _, d := range l {
		r = append(r, infoOf(d.path, d.n))
	}
	return r, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	begin()
	defer v.Leave()
	l, err := f.list(n)
	var r []string
	for _, d := range l {
		r = append(r, filepath.Base(d.path))
	}
	return r, err
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	begin()
	defer v.Leave()
	l, err := f.list(n)
	var r []DirEntry
	for _, d := range l {
		r = append(r, dirEntry{infoOf(d.path, d.n)})
	}
	return r, err
}

type dirEntry struct{ fi *fileInfo }

func (d dirEntry) Name() string            { return d.fi.name }
func (d dirEntry) IsDir() bool             { return d.fi.IsDir() }
func (d dirEntry) Type() FileMode          { return d.fi.mode & realos.ModeType }
func (d dirEntry) Info() (FileInfo, error) { return d.fi, nil }

type fileInfo struct {
	name string
	size int64
	mode FileMode
	n    *inode
}

func infoOf(path string, n *inode) *fileInfo {
	return &fileInfo{filepath.Base(path), n.base + int64(len(n.data)), n.mode, n}
}

func (f *fileInfo) Name() string       { return f.name }
func (f *fileInfo) Size() int64        { return f.size }
func (f *fileInfo) Mode() FileMode     { return f.mode }
func (f *fileInfo) ModTime() time.Time { return time.Unix(1700000000, 0).UTC() }
func (f *fileInfo) IsDir() bool        { return f.mode.IsDir() }
func (f *fileInfo) Sys() interface{}   { return nil }

// StdoutText returns what was written to standard output.
func StdoutText() string {
	v.Enter()
	defer v.Leave()
	return string(Stdout.n.data)
}
