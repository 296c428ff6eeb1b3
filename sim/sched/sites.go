package sched

// Sites are the places of the instrumented statements; the instrumented build replaces this file.
var Sites []string
