// Package vfs is the file system harnesses work in: a real scratch directory
// when compiled, a model in memory under the engine (which redirects the
// functions of package os to the functions below).
package vfs

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// A node is a file or a directory.
type node struct {
	name   string
	dir    bool
	exec   bool
	data   []byte
	writes int
}

var (
	files map[string]*node
	root  string // native
	cwd   = "/w"
	temps int
	open  map[*os.File]*stream
)

var old = time.Unix(1000000000, 0)

// A stream is an open file.
type stream struct {
	name string
	data []byte
	pos  int
	dir  bool
}

func nodes() map[string]*node {
	if files == nil {
		files = map[string]*node{"/": {name: "/", dir: true}, "/w": {name: "w", dir: true}, "/tmp": {name: "tmp", dir: true}}
	}
	return files
}

// Root is the scratch directory.
func Root() string {
	if vsym.Symbolic() {
		return "/w"
	}
	if root == "" {
		d, err := os.MkdirTemp("", "vfs")
		if err != nil {
			panic(err)
		}
		d, _ = filepath.EvalSymlinks(d)
		root = d
		vsym.Cleanup = append(vsym.Cleanup, func() {
			os.Chdir("/")
			os.RemoveAll(d)
			root, failWrites = "", false
		})
		os.Chdir(d)
	}
	return root
}

// Path is a path below the root.
func Path(rel string) string {
	if rel == "" || rel == "." {
		return Root()
	}
	return Root() + "/" + rel
}

// Rel replaces the root in a text by /w.
func Rel(s string) string { return strings.ReplaceAll(s, Root(), "/w") }

// Mkdir creates a directory with its parents.
func Mkdir(rel string) {
	p := Path(rel)
	if !vsym.Symbolic() {
		if err := os.MkdirAll(p, 0755); err != nil {
			panic(err)
		}
		return
	}
	n := nodes()
	for n[p] == nil {
		n[p] = &node{name: filepath.Base(p), dir: true}
		p = filepath.Dir(p)
	}
}

// Write creates a file.
func Write(rel, data string) {
	p := Path(rel)
	if i := strings.LastIndexByte(rel, '/'); i >= 0 {
		Mkdir(rel[:i])
	} else {
		Mkdir("")
	}
	if !vsym.Symbolic() {
		if err := os.WriteFile(p, []byte(data), 0644); err != nil {
			panic(err)
		}
		os.Chtimes(p, old, old)
		return
	}
	nodes()[p] = &node{name: filepath.Base(p), data: []byte(data)}
}

// Executable marks a file as such.
func Executable(rel string) {
	if !vsym.Symbolic() {
		os.Chmod(Path(rel), 0755)
		return
	}
	nodes()[Path(rel)].exec = true
}

// Read returns the contents of a file.
func Read(rel string) (string, bool) {
	if !vsym.Symbolic() {
		b, err := os.ReadFile(Path(rel))
		return string(b), err == nil
	}
	n := nodes()[Path(rel)]
	if n == nil || n.dir {
		return "", false
	}
	return string(n.data), true
}

// Written tells whether the file was written since Write.
func Written(rel string) bool {
	if !vsym.Symbolic() {
		fi, err := os.Stat(Path(rel))
		return err == nil && !fi.ModTime().Equal(old)
	}
	n := nodes()[Path(rel)]
	return n != nil && n.writes > 0
}

// List returns the names of all files below the root.
func List() []string {
	var out []string
	if !vsym.Symbolic() {
		filepath.Walk(Root(), func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				out = append(out, p[len(Root())+1:])
			}
			return nil
		})
		sort.Strings(out)
		return out
	}
	for p, n := range nodes() {
		if !n.dir && strings.HasPrefix(p, "/w/") {
			out = append(out, p[3:])
		}
	}
	sort.Strings(out)
	return out
}

var failWrites bool

// FailWrites makes programs fail to write to files.
func FailWrites() { failWrites = true }

// Cwd makes a directory the current one.
func Cwd(rel string) {
	Mkdir(rel)
	if !vsym.Symbolic() {
		if err := os.Chdir(Path(rel)); err != nil {
			panic(err)
		}
		return
	}
	cwd = Path(rel)
}

// ---- what the functions of package os do in the model

func abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	return filepath.Clean(p)
}

// find returns the node of a path, which may end in a slash.
func find(op, p string) (*node, error) {
	if p == "" {
		return nil, &fs.PathError{Op: op, Path: p, Err: syscall.ENOENT}
	}
	a := abs(p)
	n := nodes()[a]
	if n == nil {
		for d := filepath.Dir(a); ; d = filepath.Dir(d) {
			if m := nodes()[d]; m != nil {
				if !m.dir {
					return nil, &fs.PathError{Op: op, Path: p, Err: syscall.ENOTDIR}
				}
				break
			}
		}
		return nil, &fs.PathError{Op: op, Path: p, Err: syscall.ENOENT}
	}
	if !n.dir && strings.HasSuffix(p, "/") {
		return nil, &fs.PathError{Op: op, Path: p, Err: syscall.ENOTDIR}
	}
	return n, nil
}

type info struct{ n *node }

func (i info) Name() string       { return i.n.name }
func (i info) Size() int64        { return int64(len(i.n.data)) }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() any           { return nil }
func (i info) Mode() fs.FileMode {
	switch {
	case i.n.dir:
		return fs.ModeDir | 0755
	case i.n.exec:
		return 0755
	}
	return 0644
}

func stat(op, p string) (os.FileInfo, error) {
	n, err := find(op, p)
	if err != nil {
		return nil, err
	}
	return info{n}, nil
}

func osStat(p string) (os.FileInfo, error)  { return stat("stat", p) }
func osLstat(p string) (os.FileInfo, error) { return stat("lstat", p) }
func osGetwd() (string, error)              { return cwd, nil }

func osReadFile(p string) ([]byte, error) {
	n, err := find("open", p)
	if err != nil {
		return nil, err
	}
	if n.dir {
		return nil, &fs.PathError{Op: "read", Path: p, Err: syscall.EISDIR}
	}
	return append([]byte{}, n.data...), nil
}

func osWriteFile(p string, data []byte, perm os.FileMode) error {
	a := abs(p)
	n := nodes()[a]
	if n == nil {
		if d := nodes()[filepath.Dir(a)]; d == nil {
			return &fs.PathError{Op: "open", Path: p, Err: syscall.ENOENT}
		} else if !d.dir {
			return &fs.PathError{Op: "open", Path: p, Err: syscall.ENOTDIR}
		}
		n = &node{name: filepath.Base(a)}
		nodes()[a] = n
	}
	if n.dir {
		return &fs.PathError{Op: "open", Path: p, Err: syscall.EISDIR}
	}
	n.writes++
	n.data = nil
	if failWrites && len(data) > 0 {
		return &fs.PathError{Op: "write", Path: p, Err: syscall.EFBIG}
	}
	n.data = append([]byte{}, data...)
	return nil
}

func children(p string) []string {
	p = abs(p)
	if p != "/" {
		p += "/"
	}
	var names []string
	for q := range nodes() {
		if strings.HasPrefix(q, p) && len(q) > len(p) && !strings.Contains(q[len(p):], "/") {
			names = append(names, q[len(p):])
		}
	}
	sort.Strings(names)
	return names
}

func osReadDir(p string) ([]os.DirEntry, error) {
	n, err := find("open", p)
	if err != nil {
		return nil, err
	}
	if !n.dir {
		return nil, &fs.PathError{Op: "readdirent", Path: p, Err: syscall.ENOTDIR}
	}
	var out []os.DirEntry
	for _, name := range children(p) {
		out = append(out, fs.FileInfoToDirEntry(info{nodes()[abs(p+"/"+name)]}))
	}
	return out, nil
}

func readDirNames(p string) ([]string, error) {
	n, err := find("open", p)
	if err != nil {
		return nil, err
	}
	if !n.dir {
		return nil, &fs.PathError{Op: "readdirent", Path: p, Err: syscall.ENOTDIR}
	}
	return children(p), nil
}

func osOpen(p string) (*os.File, error) {
	n, err := find("open", p)
	if err != nil {
		return nil, err
	}
	return opened(&stream{name: p, data: n.data, dir: n.dir}), nil
}

func opened(s *stream) *os.File {
	f := new(os.File)
	if open == nil {
		open = map[*os.File]*stream{}
	}
	open[f] = s
	return f
}

func osCreateTemp(dir, pattern string) (*os.File, error) {
	temps++
	name := "/tmp/" + pattern + string(rune('0'+temps))
	nodes()[name] = &node{name: filepath.Base(name)}
	return opened(&stream{name: name}), nil
}

func osRemove(p string) error {
	if _, err := find("remove", p); err != nil {
		return err
	}
	delete(nodes(), abs(p))
	return nil
}

func fileRead(f *os.File, b []byte) (int, error) {
	s := open[f]
	if s == nil && f == os.Stdin {
		s = stdin
	}
	if s == nil {
		return 0, errors.New("file is not open")
	}
	if s.dir {
		return 0, &fs.PathError{Op: "read", Path: s.name, Err: syscall.EISDIR}
	}
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	n := copy(b, s.data[s.pos:])
	s.pos += n
	return n, nil
}

func fileName(f *os.File) string {
	if s := open[f]; s != nil {
		return s.name
	}
	return ""
}

func fileClose(f *os.File) error { return nil }

var outBuf, errBuf []byte

func fileWrite(f *os.File, b []byte) (int, error) {
	switch {
	case open[f] != nil:
		n, err := find("write", open[f].name)
		if err != nil {
			return 0, err
		}
		if failWrites && len(b) > 0 {
			return 0, &fs.PathError{Op: "write", Path: n.name, Err: syscall.EFBIG}
		}
		n.data = append(n.data, b...)
	case f == os.Stdout:
		outBuf = append(outBuf, b...)
	case f == os.Stderr:
		errBuf = append(errBuf, b...)
	default:
		return 0, errors.New("file is not open")
	}
	return len(b), nil
}

func cmdStart(c *exec.Cmd) error { return nil }

// cmdRun stands for the program diff.
func cmdRun(c *exec.Cmd) error {
	if len(c.Args) < 2 {
		return errors.New("no command")
	}
	a, err := osReadFile(c.Args[len(c.Args)-2])
	if err != nil {
		return err
	}
	b, err := osReadFile(c.Args[len(c.Args)-1])
	if err != nil {
		return err
	}
	if string(a) != string(b) {
		return errors.New("exit status 1")
	}
	return nil
}

var stdin *stream

func sysFstat(fd int, st *syscall.Stat_t) error { return syscall.ENOSYS }
