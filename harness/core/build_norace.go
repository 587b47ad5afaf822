//go:build !race

package core

const buildKind = "plain"

// Race reports whether the race detector is compiled in.
const Race = false
