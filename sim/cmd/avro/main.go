// Command avro simulates the Avro writers that the current tree generates.
package main

import "verifsim/harness"

func main() {
	harness.Main(c14, c15, c16)
}
