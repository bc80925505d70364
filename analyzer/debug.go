package main

import (
	"fmt"
	"os"
	"strconv"
)

// dbgSteps cuts an analysis short to look at it, only for development.
var dbgSteps, _ = strconv.Atoi(os.Getenv("YARQL_DEBUG_STEPS"))

func debugf(f string, args ...interface{}) {
	if os.Getenv("YARQL_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", args...)
	}
}
