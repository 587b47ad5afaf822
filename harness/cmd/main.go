// Command h runs the monitors of one property.
package main

import (
	"verif/harness/core"
	_ "verif/harness/mon"
)

func main() { core.Main() }
