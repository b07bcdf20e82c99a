// Command be decides the properties that are about the whole command and the code it generates.
package main

import (
	"fmt"
	"os"
	"runtime"
)

var checks = map[string]func(){}

func main() {
	if len(os.Args) != 2 {
		fmt.Fprintln(os.Stderr, "usage: be ID")
		os.Exit(2)
	}
	f := checks[os.Args[1]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such check", os.Args[1])
		os.Exit(2)
	}
	defer func() {
		if p := recover(); p != nil {
			b := make([]byte, 1<<16)
			fmt.Fprintf(os.Stderr, "harness error: %v\n%s", p, b[:runtime.Stack(b, false)])
			os.Exit(2)
		}
	}()
	f()
}
