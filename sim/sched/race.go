//go:build race

package sched

import "runtime"

func disable() { runtime.RaceDisable() }
func enable()  { runtime.RaceEnable() }

// Races is the number of races reported so far.
func Races() int { return runtime.RaceErrors() }
