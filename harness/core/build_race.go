//go:build race

package core

const buildKind = "race detector + checkptr"

// Race reports whether the race detector is compiled in.
const Race = true
