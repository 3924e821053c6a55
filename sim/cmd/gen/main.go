// Command gen simulates code generation: the library call and the command.
package main

import "verifsim/harness"

func main() {
	harness.Main(c11, c12, c13, c22)
}
