package demo

import (
	"math/rand"
	"os"
	"path/filepath"
	"testing"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
)

type idxT = interfaces.AnnoyIndex[float32, uint32]

var _ = os.Remove
var _ = angular.Distance[float32, uint32]
var _ = policy.MultiWorker

// vecs makes n vectors in general position.
func vecs(n, dim int, seed int64) [][]float32 {
	r := rand.New(rand.NewSource(seed))
	out := make([][]float32, n)
	for i := range out {
		out[i] = make([]float32, dim)
		for j := range out[i] {
			out[i][j] = float32(r.NormFloat64())
		}
	}
	return out
}

func bld(dim int) *builder.AnnoyIndexBuilderImpl[float32, uint32] {
	return builder.Index[float32, uint32]().AngularDistance(dim)
}

func custom(d interfaces.Distance[float32, uint32], p interfaces.AnnoyIndexBuildPolicy, seed uint32) idxT {
	return index.New[float32, uint32](random.NewKiss32Random(seed), d, p, memory.GoGCIndexAllocator(),
		memory.MmapIndexAllocator(), nil, false, 0)
}

func dotIndex(dim int) idxT {
	return custom(dotproduct.Distance[float32](uint32(dim)), policy.SingleWorker(), 1)
}

func add(idx idxT, v [][]float32) {
	for i := range v {
		idx.AddItem(uint32(i), v[i])
	}
}

// file is a file in the scratch directory of the demonstration.
func file(t *testing.T, name string) string {
	return filepath.Join(t.TempDir(), name)
}

func openFiles(t *testing.T) int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Skip(err)
	}
	return len(l)
}

// panics tells whether f panics.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func equal[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
