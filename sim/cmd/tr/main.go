// Command tr simulates the schema loader and the transformer.
package main

import "verifsim/harness"

func main() {
	harness.Main(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c17)
}
