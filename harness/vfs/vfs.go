// Package vfs is the file system seen by the harnesses: a scratch directory when they are executed
// natively, and a list of files in memory when they are executed by the engine.
package vfs

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
)

// File is a file of the in memory file system.
type File struct {
	Path string
	Data string
	Dir  bool

	// Full indicates that there is no space to write anything in the file.
	Full bool
}

// Files are the files of the in memory file system.
var Files []*File

var root string

// Root returns the root directory, creating it if needed.
func Root() string {
	if nd.Symbolic() {
		if len(Files) == 0 {
			Files = append(Files, &File{Path: "/vfs", Dir: true})
		}
		return "/vfs"
	}
	if root == "" {
		dir, err := ioutil.TempDir("", "vfs-")
		if err != nil {
			panic(err)
		}
		root = dir
	}
	return root
}

// Reset removes all the files.
func Reset() {
	Files = nil
	if root != "" {
		os.RemoveAll(root)
		root = ""
	}
}

// Find finds an in memory file.
func Find(path string) *File {
	for _, f := range Files {
		if f.Path == path {
			return f
		}
	}
	return nil
}

// Mkdir creates a directory and its parents. The path is relative to the root.
func Mkdir(path string) string {
	full := filepath.Join(Root(), path)
	if !nd.Symbolic() {
		if err := os.MkdirAll(full, 0700); err != nil {
			panic(err)
		}
		return full
	}
	mkdir(full)
	return full
}

func mkdir(full string) {
	if Find(full) != nil {
		return
	}
	mkdir(filepath.Dir(full))
	Files = append(Files, &File{Path: full, Dir: true})
}

// Write creates a file. The path is relative to the root.
func Write(path, data string) string {
	full := filepath.Join(Root(), path)
	Mkdir(filepath.Dir(path))
	if !nd.Symbolic() {
		if err := ioutil.WriteFile(full, []byte(data), 0600); err != nil {
			panic(err)
		}
		return full
	}
	if f := Find(full); f != nil {
		f.Data = data
		return full
	}
	Files = append(Files, &File{Path: full, Data: data})
	return full
}

// Full creates a file that exists, but there is no space to write anything in it. The path is relative to the root.
func Full(path string) string {
	full := filepath.Join(Root(), path)
	Mkdir(filepath.Dir(path))
	if !nd.Symbolic() {
		if err := os.Symlink("/dev/full", full); err != nil {
			panic(err)
		}
		return full
	}
	Files = append(Files, &File{Path: full, Full: true})
	return full
}

// Read returns the contents of a file, and a flag indicating if it exists.
func Read(path string) (string, bool) {
	full := path
	if !filepath.IsAbs(path) {
		full = filepath.Join(Root(), path)
	}
	if !nd.Symbolic() {
		data, err := ioutil.ReadFile(full)
		return string(data), err == nil
	}
	f := Find(full)
	if f == nil || f.Dir {
		return "", false
	}
	return f.Data, true
}

// Count returns the number of regular files.
func Count() int {
	n := 0
	if nd.Symbolic() {
		for _, f := range Files {
			if !f.Dir {
				n++
			}
		}
		return n
	}
	filepath.Walk(Root(), func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			n++
		}
		return nil
	})
	return n
}

// ExitCode is the code passed to the function that ends the process, only when executed by the engine.
var ExitCode int

// List returns the sorted paths of the regular files inside the given directory, relative to the root.
func List(dir string) []string {
	var out []string
	full := filepath.Join(Root(), dir)
	add := func(path string) {
		out = append(out, path[len(Root())+1:])
	}
	if nd.Symbolic() {
		for _, f := range Files {
			if !f.Dir && strings.HasPrefix(f.Path, full+"/") {
				add(f.Path)
			}
		}
	} else {
		filepath.Walk(full, func(path string, info os.FileInfo, err error) error {
			if err == nil && info.Mode().IsRegular() {
				add(path)
			}
			return nil
		})
	}
	sort.Strings(out)
	return out
}
