// Command mc holds the checks of the properties.
package main

import (
	_ "github.com/Redundancy/go-sync/util/readers"
	"verif/mc/eng"
)

func main() { eng.Main() }
