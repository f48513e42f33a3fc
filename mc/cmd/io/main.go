// Command io explores crashes and faults of Save (C09), indexes beyond 4 GiB (C24) and the
// allocators (C25).
package main

import (
	"os"

	"verif/mc/rt"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "C09child" {
		child(os.Args[2])
		return
	}
	rt.Main(c09, c24, c25)
}

func must(c *rt.Ctx, err error, what string) {
	if err != nil {
		c.Fail("%s: %v", what, err)
	}
}
