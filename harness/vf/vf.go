// Package vf is the file system the commit log harnesses run on.
package vf

import (
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/fairDataSociety/FaVe/zz_verif/vx"
)

// The functions here take the place of the os functions of the same name
// under the symbolic executor: a file system in memory. Replays use real
// files in a scratch directory. Before an operation that changes the files,
// Step is called in both.

// Step is told every operation that changes files; for a write, n is the number
// of bytes, and the result is how many of them get through before a crash
// (negative: all, no crash).
var Step func(op, name string, n int) int

// Native makes the real os package (with the hook vlib.py lays over it) call Step.
func Native() {
	os.VerifStep = func(op, name string, n int, partly func(int)) {
		if k := step(op, name, n); k >= 0 {
			if partly != nil {
				hook := os.VerifStep
				os.VerifStep = nil
				partly(k)
				os.VerifStep = hook
			}
			panic(Crash{})
		}
	}
}

var clock = int64(1000)

// Now stands in for time.Now.
func Now() time.Time { return time.Unix(clock, 0) }

// NextSecond lets a second pass.
func NextSecond() {
	if vx.Symbolic() {
		clock++
		return
	}
	for t := time.Now().Unix(); time.Now().Unix() == t; {
		time.Sleep(10 * time.Millisecond)
	}
}

// Crash is what a crash in the middle of an operation panics with.
type Crash struct{}

func step(op, name string, n int) int {
	if Step == nil {
		return -1
	}
	return Step(op, name, n)
}

type inode struct {
	data []byte
}

type handle struct {
	node   *inode
	name   string
	pos    int
	append bool
	write  bool
	closed bool
}

var (
	files   = map[string]*inode{}
	dirs    = map[string]bool{}
	handles = map[*os.File]*handle{}
)

func clean(name string) string {
	for strings.Contains(name, "//") {
		name = strings.ReplaceAll(name, "//", "/")
	}
	if len(name) > 1 {
		name = strings.TrimSuffix(name, "/")
	}
	return name
}

func missing(op, name string) error { return &fs.PathError{Op: op, Path: name, Err: fs.ErrNotExist} }

func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	name = clean(name)
	n := files[name]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, missing("open", name)
		}
		if step("create", name, 0) >= 0 {
			panic(Crash{})
		}
		n = &inode{}
		files[name] = n
	} else if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrExist}
	} else if flag&os.O_TRUNC != 0 {
		if step("truncate", name, 0) >= 0 {
			panic(Crash{})
		}
		n.data = nil
	}
	f := new(os.File)
	handles[f] = &handle{node: n, name: name, append: flag&os.O_APPEND != 0, write: flag&(os.O_WRONLY|os.O_RDWR) != 0}
	return f, nil
}

func FWrite(f *os.File, b []byte) (int, error) {
	h := handles[f]
	if h == nil || h.closed || !h.write {
		return 0, &fs.PathError{Op: "write", Err: fs.ErrClosed}
	}
	n := step("write", h.name, len(b))
	crash := n >= 0
	if !crash {
		n = len(b)
	}
	if h.append {
		h.pos = len(h.node.data)
	}
	d := h.node.data
	if h.pos == len(d) {
		d = append(d, b[:n]...)
	} else {
		for len(d) < h.pos+n {
			d = append(d, 0)
		}
		copy(d[h.pos:], b[:n])
	}
	h.node.data = d
	h.pos += n
	if crash {
		panic(Crash{})
	}
	return len(b), nil
}

func FWriteString(f *os.File, s string) (int, error) { return FWrite(f, []byte(s)) }

func FRead(f *os.File, b []byte) (int, error) {
	h := handles[f]
	if h == nil || h.closed {
		return 0, &fs.PathError{Op: "read", Err: fs.ErrClosed}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.node.data) {
		return 0, io.EOF
	}
	n := copy(b, h.node.data[h.pos:])
	h.pos += n
	return n, nil
}

func FClose(f *os.File) error {
	h := handles[f]
	if h == nil || h.closed {
		return &fs.PathError{Op: "close", Err: fs.ErrClosed}
	}
	h.closed = true
	return nil
}

func FSync(f *os.File) error { return nil }

func FName(f *os.File) string { return handles[f].name }

func FStat(f *os.File) (os.FileInfo, error) {
	h := handles[f]
	if h == nil || h.closed {
		return nil, &fs.PathError{Op: "stat", Err: fs.ErrClosed}
	}
	return &info{base(h.name), int64(len(h.node.data)), false}, nil
}

func FReadFrom(f *os.File, r io.Reader) (int64, error) {
	var t int64
	b := make([]byte, 512)
	for {
		n, err := r.Read(b)
		if n > 0 {
			if _, e := FWrite(f, b[:n]); e != nil {
				return t, e
			}
			t += int64(n)
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

func FWriteTo(f *os.File, w io.Writer) (int64, error) {
	var t int64
	b := make([]byte, 512)
	for {
		n, err := FRead(f, b)
		if n > 0 {
			if _, e := w.Write(b[:n]); e != nil {
				return t, e
			}
			t += int64(n)
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

func Remove(name string) error {
	name = clean(name)
	if files[name] == nil {
		return missing("remove", name)
	}
	if step("remove", name, 0) >= 0 {
		panic(Crash{})
	}
	delete(files, name)
	return nil
}

func RemoveAll(name string) error {
	name = clean(name)
	for k := range files {
		if k == name || strings.HasPrefix(k, name+"/") {
			delete(files, k)
		}
	}
	delete(dirs, name)
	return nil
}

func Rename(from, to string) error {
	from, to = clean(from), clean(to)
	n := files[from]
	if n == nil {
		return missing("rename", from)
	}
	if step("rename", from, 0) >= 0 {
		panic(Crash{})
	}
	delete(files, from)
	files[to] = n
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	dirs[clean(name)] = true
	return nil
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := "/tmp/" + strings.ReplaceAll(pattern, "*", "1")
	dirs[n] = true
	return n, nil
}

func Stat(name string) (os.FileInfo, error) {
	name = clean(name)
	if n := files[name]; n != nil {
		return &info{base(name), int64(len(n.data)), false}, nil
	}
	if dirs[name] {
		return &info{base(name), 0, true}, nil
	}
	return nil, missing("stat", name)
}

func ReadFile(name string) ([]byte, error) {
	n := files[clean(name)]
	if n == nil {
		return nil, missing("open", name)
	}
	return append([]byte(nil), n.data...), nil
}

func WriteFile(name string, b []byte, perm os.FileMode) error {
	name = clean(name)
	files[name] = &inode{data: append([]byte(nil), b...)}
	return nil
}

func ReadDir(name string) ([]os.DirEntry, error) {
	name = clean(name)
	if !dirs[name] {
		return nil, missing("open", name)
	}
	var names []string
	for k := range files {
		if strings.HasPrefix(k, name+"/") && !strings.Contains(k[len(name)+1:], "/") {
			names = append(names, base(k))
		}
	}
	sort.Strings(names)
	out := []os.DirEntry{}
	for _, n := range names {
		out = append(out, &info{n, int64(len(files[name+"/"+n].data)), false})
	}
	return out, nil
}

func base(name string) string { return name[strings.LastIndex(name, "/")+1:] }

type info struct {
	name string
	size int64
	dir  bool
}

func (i *info) Name() string               { return i.name }
func (i *info) Size() int64                { return i.size }
func (i *info) Mode() fs.FileMode          { return 0o644 }
func (i *info) ModTime() time.Time         { return time.Time{} }
func (i *info) IsDir() bool                { return i.dir }
func (i *info) Sys() any                   { return nil }
func (i *info) Type() fs.FileMode          { return 0 }
func (i *info) Info() (fs.FileInfo, error) { return i, nil }
