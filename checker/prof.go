package main

import (
	"os"
	"runtime/pprof"
)

func startProf() func() {
	if f := os.Getenv("CKPROF"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			return func() { pprof.StopCPUProfile(); w.Close() }
		}
	}
	return func() {}
}
