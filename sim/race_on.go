//go:build race

package main

import "runtime"

const raceBuild = true

// What the simulator does between two statements of the library must not
// order the library's own accesses: synchronisation inside callbacks is
// invisible to the race detector.
//
//go:norace
func syncOff() { runtime.RaceDisable() }

//go:norace
func syncOn() { runtime.RaceEnable() }

func raceErrors() int { return runtime.RaceErrors() }
