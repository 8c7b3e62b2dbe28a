//go:build race

package main

// The race detector needs a large address space
const raceDetector = true
