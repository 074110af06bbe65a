//go:build race

package main

import "runtime"

// the harness is built with the race detector
const raceDetector = true

// data races reported so far
func raceCount() int { return runtime.RaceErrors() }
