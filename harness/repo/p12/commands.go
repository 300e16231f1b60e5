package p12

import (
	"os"
	"os/exec"
	"strings"

	"github.com/spf13/cobra"

	checkcmd "github.com/openshift-online/ocm-api-metamodel/cmd/metamodel/check"
	docscmd "github.com/openshift-online/ocm-api-metamodel/cmd/metamodel/generate/docs"
	gocmd "github.com/openshift-online/ocm-api-metamodel/cmd/metamodel/generate/golang"
	openapicmd "github.com/openshift-online/ocm-api-metamodel/cmd/metamodel/generate/openapi"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

// When executed natively the commands run in another process, because they end it.
func init() {
	if nd.Symbolic() {
		return
	}
	if spec := os.Getenv("P12_COMMAND"); spec != "" {
		parts := strings.Split(spec, "\n")
		start(parts[0], parts[1:])
		os.Exit(99)
	}
}

func start(name string, options []string) {
	var c *cobra.Command
	switch name {
	case "check":
		c = checkcmd.Cmd
	case "openapi":
		c = openapicmd.Cmd
	case "docs":
		c = docscmd.Cmd
	default:
		c = gocmd.Cmd
	}
	for i := 0; i+1 < len(options); i += 2 {
		if err := c.Flags().Set(options[i], options[i+1]); err != nil {
			panic(err)
		}
	}
	c.Run(c, nil)
}

// command runs a command and returns its exit code, or -1 if it crashes.
func command(name string, options ...string) int {
	if nd.Symbolic() {
		vfs.ExitCode = -1
		if !nd.Panics(func() { start(name, options) }) {
			return 0
		}
		return vfs.ExitCode
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c := exec.Command(exe)
	c.Env = append(os.Environ(), "P12_COMMAND="+strings.Join(append([]string{name}, options...), "\n"))
	err = c.Run()
	if err == nil {
		return 0
	}
	if code := c.ProcessState.ExitCode(); code != 2 && code != 99 {
		return code
	}
	return -1
}

// The commands succeed if, and only if, there are no errors.
func CheckCommands() {
	vfs.Reset()
	name := []string{"check", "openapi", "docs", "go"}[nd.Choose("command", 4)]
	text := "class A {\n}\n"
	right := true
	switch nd.Choose("model", 5) {
	case 1:
		text, right = "class A {\n\tB C\n}\n", false
	case 2:
		text, right = "class A {\n\t?\n}\n", false
	case 3:
		text, right = "class A {\n}\nclass A {\n}\n", false
	case 4:
		text, right = "resource Other {\n\tlocator L {\n\t}\n}\n", false
	}
	vfs.Write("model/my_service/v1/a.model", text+"resource Root {\n}\n")
	out := vfs.Mkdir("out")
	var options []string
	switch nd.Choose("input", 3) {
	case 0:
		options = append(options, "model", vfs.Root()+"/model")
	case 1:
		right = false
	default:
		options = append(options, "model", vfs.Root()+"/missing")
		right = false
	}
	if name != "check" {
		if nd.Choose("output", 2) == 1 {
			options = append(options, "output", out)
		} else {
			right = false
		}
	}
	if name == "go" {
		if nd.Choose("base", 2) == 1 {
			options = append(options, "base", "example.com/base")
		} else {
			right = false
		}
	}
	// The formatter of the code isn't encoded:
	nd.Assume(!right || name != "go")
	before := vfs.Count()
	code := command(name, options...)
	nd.Observe("code", code)
	nd.Reach("done")
	nd.Assert(code >= 0, "the command crashes")
	nd.Assert((code == 0) == right, "the command succeeds in spite of the errors, or fails without them")
	if !right || name == "check" {
		nd.Assert(vfs.Count() == before, "the command writes files in spite of the errors")
	} else {
		nd.Assert(vfs.Count() > before, "the command doesn't write anything")
	}
}

// The commands fail if they can't write the output.
func CheckOutput() {
	vfs.Reset()
	vfs.Write("model/my_service/v1/a.model", "class A {\n}\nresource Root {\n}\n")
	vfs.Mkdir("out")
	name := []string{"openapi", "docs"}[nd.Choose("command", 2)]
	places := []string{"out", "out/index.md", "out/root_resource.md", "out/a_type.md"}
	if name == "openapi" {
		places = []string{"out", "out/my_service", "out/my_service/v1", "out/my_service/v1/openapi.json"}
	}
	i := nd.Choose("place", len(places))
	place := places[i]
	blocked := nd.Choose("blocked", 2) == 1
	if blocked {
		if i == 0 {
			vfs.Write("file", "x")
			place = "file"
		} else if name == "docs" || i == 3 {
			vfs.Mkdir(place)
		} else {
			vfs.Write(place, "x")
		}
	}
	out := "out"
	if place == "file" {
		out = "file"
	}
	code := command(name, "model", vfs.Root()+"/model", "output", vfs.Root()+"/"+out)
	nd.Observe("code", code)
	nd.Reach("done")
	nd.Assert(code >= 0, "the command crashes")
	nd.Assert((code != 0) == blocked, "the command succeeds when it can't write, or fails when it can")
}
