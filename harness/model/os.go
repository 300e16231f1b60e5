package model

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

type info struct{ f *vfs.File }

func (i info) Name() string { return filepath.Base(i.f.Path) }
func (i info) Size() int64  { return int64(len(i.f.Data)) }
func (i info) Mode() fs.FileMode {
	if i.f.Dir {
		return fs.ModeDir | 0700
	}
	return 0600
}
func (i info) ModTime() time.Time         { return time.Time{} }
func (i info) IsDir() bool                { return i.f.Dir }
func (i info) Sys() interface{}           { return nil }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

type handle struct {
	file  *os.File
	f     *vfs.File
	pos   int
	write bool
	add   bool
}

var handles []*handle

func clean(path string) string {
	if !filepath.IsAbs(path) {
		path = filepath.Join("/cwd", path)
	}
	return filepath.Clean(path)
}

func missing(op, path string) error {
	return &fs.PathError{Op: op, Path: path, Err: fs.ErrNotExist}
}

//override os.Stat
func OsStat(path string) (os.FileInfo, error) {
	f := vfs.Find(clean(path))
	if f == nil {
		return nil, missing("stat", path)
	}
	return info{f}, nil
}

//override os.Lstat
func OsLstat(path string) (os.FileInfo, error) { return OsStat(path) }

func children(path string) []info {
	var out []info
	for _, f := range vfs.Files {
		if f.Path != path && filepath.Dir(f.Path) == path {
			out = append(out, info{f})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].f.Path < out[j].f.Path })
	return out
}

//override os.ReadDir
func OsReadDir(path string) ([]os.DirEntry, error) {
	p := clean(path)
	f := vfs.Find(p)
	if f == nil {
		return nil, missing("open", path)
	}
	var out []os.DirEntry
	for _, c := range children(p) {
		out = append(out, c)
	}
	return out, nil
}

//override io/ioutil.ReadDir
func IoutilReadDir(path string) ([]fs.FileInfo, error) {
	p := clean(path)
	f := vfs.Find(p)
	if f == nil {
		return nil, missing("open", path)
	}
	var out []fs.FileInfo
	for _, c := range children(p) {
		out = append(out, c)
	}
	return out, nil
}

//override os.ReadFile
func OsReadFile(path string) ([]byte, error) {
	f := vfs.Find(clean(path))
	if f == nil {
		return nil, missing("open", path)
	}
	return []byte(f.Data), nil
}

//override os.Open
func OsOpen(path string) (*os.File, error) {
	f := vfs.Find(clean(path))
	if f == nil {
		return nil, missing("open", path)
	}
	h := &handle{file: new(os.File), f: f}
	handles = append(handles, h)
	return h.file, nil
}

//override os.OpenFile
func OsOpenFile(path string, flag int, perm os.FileMode) (*os.File, error) {
	p := clean(path)
	f := vfs.Find(p)
	if f == nil {
		if flag&os.O_CREATE == 0 {
			return nil, missing("open", path)
		}
		d := vfs.Find(filepath.Dir(p))
		if d == nil {
			return nil, missing("open", path)
		}
		if !d.Dir {
			return nil, &fs.PathError{Op: "open", Path: path, Err: errors.New("not a directory")}
		}
		f = &vfs.File{Path: p}
		vfs.Files = append(vfs.Files, f)
	}
	if f.Dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, &fs.PathError{Op: "open", Path: path, Err: errors.New("is a directory")}
	}
	if flag&os.O_TRUNC != 0 {
		f.Data = ""
	}
	h := &handle{file: new(os.File), f: f, write: flag&(os.O_WRONLY|os.O_RDWR) != 0, add: flag&os.O_APPEND != 0}
	handles = append(handles, h)
	return h.file, nil
}

//override os.Create
func OsCreate(path string) (*os.File, error) {
	return OsOpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//override os.MkdirAll
func OsMkdirAll(path string, perm os.FileMode) error {
	p := clean(path)
	if f := vfs.Find(p); f != nil {
		if !f.Dir {
			return &fs.PathError{Op: "mkdir", Path: path, Err: errors.New("not a directory")}
		}
		return nil
	}
	if p == "/" {
		return nil
	}
	if err := OsMkdirAll(filepath.Dir(p), perm); err != nil {
		return err
	}
	vfs.Files = append(vfs.Files, &vfs.File{Path: p, Dir: true})
	return nil
}

//override os.WriteFile
func OsWriteFile(path string, data []byte, perm os.FileMode) error {
	f, err := OsOpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = FileWrite(f, data)
	return err
}

func find(f *os.File) *handle {
	for _, h := range handles {
		if h.file == f {
			return h
		}
	}
	return nil
}

//override (*os.File).Read
func FileRead(f *os.File, b []byte) (int, error) {
	h := find(f)
	if h == nil {
		return 0, errors.New("unknown file")
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := copy(b, h.f.Data[h.pos:])
	h.pos += n
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

//override (*os.File).WriteTo
func FileWriteTo(f *os.File, w io.Writer) (int64, error) {
	h := find(f)
	if h == nil {
		return 0, errors.New("unknown file")
	}
	n, err := io.WriteString(w, h.f.Data[h.pos:])
	h.pos += n
	return int64(n), err
}

//override (*os.File).Write
func FileWrite(f *os.File, b []byte) (int, error) {
	h := find(f)
	if h == nil || !h.write {
		// Standard output or error:
		return len(b), nil
	}
	if h.f.Full && len(b) > 0 {
		return 0, &fs.PathError{Op: "write", Path: h.f.Path, Err: errors.New("no space left on device")}
	}
	if h.add {
		h.pos = len(h.f.Data)
	}
	end := h.pos + len(b)
	if end < len(h.f.Data) {
		h.f.Data = h.f.Data[:h.pos] + string(b) + h.f.Data[end:]
	} else {
		h.f.Data = h.f.Data[:h.pos] + string(b)
	}
	h.pos = end
	return len(b), nil
}

//override (*os.File).WriteString
func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

//override (*os.File).Close
func FileClose(f *os.File) error { return nil }

//override (*os.File).Stat
func FileStat(f *os.File) (os.FileInfo, error) {
	h := find(f)
	if h == nil {
		return nil, errors.New("unknown file")
	}
	return info{h.f}, nil
}

//override os.MkdirTemp
func OsMkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	temporary++
	name := filepath.Join(dir, pattern+strconv.Itoa(temporary))
	return name, OsMkdirAll(name, 0700)
}

var temporary int

//override os.RemoveAll
func OsRemoveAll(path string) error {
	p := clean(path)
	var keep []*vfs.File
	for _, f := range vfs.Files {
		if f.Path != p && !strings.HasPrefix(f.Path, p+"/") {
			keep = append(keep, f)
		}
	}
	vfs.Files = keep
	return nil
}

// Exited is the panic used to model the end of the process.
type Exited struct{}

//override os.Exit
func OsExit(code int) {
	vfs.ExitCode = code
	panic(Exited{})
}
