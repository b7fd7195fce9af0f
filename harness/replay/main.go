package main

import (
	"fmt"
	"os"

	"vh/h"
	"vh/sym"
)

func main() {
	done := sym.Setup()
	f := h.All[os.Args[1]]
	if f == nil {
		fmt.Println("no such harness")
		os.Exit(77)
	}
	defer done()
	f()
}
