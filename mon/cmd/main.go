// The program is in package mon, so that the coverage instrumentation which
// counts the library's basic blocks covers this file but not the monitors.
package main

import "verif/mon"

func main() { mon.Main() }
