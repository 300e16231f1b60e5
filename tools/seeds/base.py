import sys; sys.path.insert(0, "/verif/tools"); sys.path.insert(0, "/verif/tools/trials")
import os
from mkseed import seed
import a, b
EDITS = {t[0]: t[3] for t in a.TRIALS + b.TRIALS}
only = sys.argv[1:]
def S(id, *args):
    if not only or id in only:
        seed(id, *args)
R = "pkg/language/reader.go"
def repo(body, imports=""):
    return '''package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/language"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
''' + "".join('\t"%s"\n' % i for i in imports.split()) + ''')

var _ = strings.Join

func quiet() *reporter.Reporter {
	r, err := reporter.New().Streams(ioutil.Discard, ioutil.Discard).Build()
	if err != nil {
		panic(err)
	}
	return r
}

func write(dir string, files map[string]string) {
	for name, text := range files {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0755)
		ioutil.WriteFile(p, []byte(text), 0644)
	}
}

func read(files map[string]string) (*concepts.Model, error) {
	tmp, err := ioutil.TempDir("", "")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	write(tmp, files)
	return language.NewReader().Reporter(quiet()).Input(tmp).Read()
}

func must(files map[string]string) *concepts.Model {
	m, err := read(files)
	if err != nil {
		fail("%v", err)
	}
	return m
}

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}

func main() {
''' + body + "}\n"
def gen(body, imports="", top=""):
    return '''package main

import (
	"fmt"
	"os"
''' + "".join('\t%s\n' % (i.replace("=", " ") if "=" in i else '"%s"' % i) for i in imports.split()) + '''
	v1 "demo/api/svc/v1"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}
''' + top + '''
func main() {
''' + body + "}\n"
TRANSPORT = '''
type transport struct {
	requests  []*http.Request
	responses []string
	status    int
}

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	t.requests = append(t.requests, r)
	text := ""
	if len(t.responses) > 0 {
		text = t.responses[0]
		if len(t.responses) > 1 {
			t.responses = t.responses[1:]
		}
	}
	return &http.Response{StatusCode: t.status, Header: http.Header{}, Body: ioutil.NopCloser(strings.NewReader(text)), Request: r}, nil
}
'''
HTTP = "io/ioutil net/http strings "

