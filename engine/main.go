package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vse check PROPERTY | vse replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2], os.Args[3:]))
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	}
	os.Exit(2)
}
