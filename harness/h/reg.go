// Package h holds the harnesses: one function per claim, executed symbolically
// by the engine and natively for a counterexample.
package h

// All is filled by gen_reg.go.
var All = map[string]func(){}
