package main

import (
	"os"
	"runtime/pprof"
)

func startProf() func() {
	if f := os.Getenv("VERIF_PROF"); f != "" {
		fh, _ := os.Create(f)
		pprof.StartCPUProfile(fh)
		return pprof.StopCPUProfile
	}
	return func() {}
}
