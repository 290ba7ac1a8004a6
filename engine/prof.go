package main

import (
	"os"
	"runtime/pprof"
)

func startProf(f string) {
	if f == "" {
		return
	}
	w, _ := os.Create(f)
	pprof.StartCPUProfile(w)
	profOn = true
}

var profOn bool

func stopProf() {
	if profOn {
		pprof.StopCPUProfile()
	}
}
