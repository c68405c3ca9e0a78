//go:build !race

package main

const raceBuild = false

func syncOff()        {}
func syncOn()         {}
func raceErrors() int { return 0 }
