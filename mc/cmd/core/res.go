package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"verif/mc/rt"
)

// resources lists the open files and the mappings of files below dir (and deleted ones).
func resources(c *rt.Ctx, dir string) string {
	l, err := resourceList(dir)
	if err != nil {
		c.Fail("cannot list open files and mappings: %v", err)
	}
	return l
}

func resourceList(dir string) (string, error) {
	var out []string
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return "", err
	}
	for _, e := range ents {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir) {
			out = append(out, "fd "+t)
		}
	}
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		return "", err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, dir); i >= 0 {
			out = append(out, "map "+l[i:])
		}
	}
	sort.Strings(out)
	return fmt.Sprint(strings.Join(out, "; ")), nil
}
