//go:build !race

package verifsim

const raceBuild = false

func raceOff()      {}
func raceOn()       {}
func raceErrs() int { return 0 }

func quiet() func() { return func() {} }
