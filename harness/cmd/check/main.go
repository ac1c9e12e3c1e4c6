// Command check explores the bounded spaces of one property on the real code.
package main

import (
	"os"

	"verif/harness/mc"
	_ "verif/harness/props"
)

func main() { os.Exit(mc.Main()) }
