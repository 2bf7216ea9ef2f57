//go:build !instr

package main

// without instrumentation there is no control over interleavings
const instrumented = false

func setPointHook(func()) {}
