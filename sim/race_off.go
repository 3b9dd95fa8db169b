//go:build !race

package main

const raceBuild = false

func raceOff()              {}
func raceOn()               {}
func raceRelease(p *byte)   {}
func raceAcquire(p *byte)   {}
func raceReports() []string { return nil }
