// Command core drives the pure-Go packages of vst3go.
package main

import "verif/vh"

func main() { vh.Main() }
