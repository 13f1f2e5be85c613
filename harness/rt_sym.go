package main

// The harness runtime as the symbolic interpreter sees it: every function here
// is replaced by the engine. rt_native.go is its executable counterpart.

func vFloat(name string) float64             { panic("rt") }
func vFinite(name string) float64            { panic("rt") }
func vInt(name string, lo, hi int) int       { panic("rt") }
func vByte(name string) byte                 { panic("rt") }
func vBool(name string) bool                 { panic("rt") }
func vPick(name string, n int) int           { panic("rt") }
func vAssume(c bool)                         { panic("rt") }
func vGiven(c bool)                          { panic("rt") }
func vAssert(c bool, label string)           { panic("rt") }
func vEq(a, b float64, label string)         { panic("rt") }
func vSame(a, b float64, label string)       { panic("rt") }
func vGrad(label string, cell *float64, f func() float64, g float64) { panic("rt") }
func vReach(label string)                    { panic("rt") }
func vTier() int                             { panic("rt") }
func vSymbolic() bool                        { panic("rt") }
func vAllocBudget(n int)                     { panic("rt") }
func vDrawCount() int                        { panic("rt") }
func vDrawSeek(k int)                        { panic("rt") }
func vDraw(k int) float64                    { panic("rt") }
func vDrawKind(k int) string                 { panic("rt") }
func vUndecided(why string)                  { panic("rt") }
func vSeeds() int                            { panic("rt") }
func vSeedSame(i, j int) bool                { panic("rt") }
func vTempDir() string                       { panic("rt") }
func vFaults(n int)                          { panic("rt") }
func vFaulted() bool                         { panic("rt") }
func vCaptureStdout()                        { panic("rt") }
func vStdoutLen() int                        { panic("rt") }
func vConc(x int) int                        { panic("rt") }
func vIsVar(x float64) bool                  { panic("rt") }
