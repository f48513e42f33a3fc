// Command unit explores the parts the index is made of: priority queue, sorting, random
// generators, distances, vector kernels, utilities and the precision tool.
package main

import "verif/mc/rt"

func main() { rt.Main(c18, c20, c21, c22, c27, c28) }

var tyNames = []string{"f32/u32", "f32/u64", "f64/u32", "f64/u64"}
