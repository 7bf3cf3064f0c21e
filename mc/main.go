// Command mc runs the model-checking harnesses.
package main

import (
	"verif/mc/kit"
	_ "verif/mc/props"
)

func main() { kit.Main() }
