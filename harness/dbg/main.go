// Command dbg drives the debugging aids of vst3go: logger, profiler, buffer
// analysis and allocation tracking.
package main

import "verif/vh"

func main() { vh.Main() }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
