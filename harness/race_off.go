//go:build !race

package main

const raceDetector = false

func raceCount() int { return 0 }
