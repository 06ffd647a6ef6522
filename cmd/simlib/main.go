// Command simlib runs simulated cases of the library's properties.
package main

import "verif/harness"

func main() { harness.Main(harness.Post) }
