package lab

import (
	"math"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance"
	"github.com/mariotoffia/goannoy/interfaces"
)

// Variants of a distance that meet the interface's contract.
var Variants = []string{"", "flip", "scale", "shift", "pq0", "pqneg", "pqbig", "zeroplane", "oneside", "otherside", "raw3", "namedk"}

// variant changes one aspect of a distance.
type variant[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	Wrapped[TV, TIX]
	kind string
}

func (v variant[TV, TIX]) Margin(n interfaces.Node[TV, TIX], y []TV) TV {
	m := v.Wrapped.Margin(n, y)
	switch v.kind {
	case "flip":
		return -m
	case "scale":
		return 3 * m
	case "shift": // a plane beside the origin
		return m - TV(0.375)
	}
	return m
}

func (v variant[TV, TIX]) Side(n interfaces.Node[TV, TIX], y []TV, r interfaces.Random[TIX]) interfaces.Side {
	switch m := v.Margin(n, y); {
	case m > 0:
		return interfaces.SideRight
	case m < 0:
		return interfaces.SideLeft
	}
	return r.NextSide()
}

func (v variant[TV, TIX]) PQDistance(d, m TV, side interfaces.Side) TV {
	switch v.kind {
	case "pq0":
		return 0
	case "pqneg":
		return -v.Wrapped.PQDistance(d, m, side)
	case "pqbig":
		return TV(math.Inf(1))
	}
	return v.Wrapped.PQDistance(d, m, side)
}

func (v variant[TV, TIX]) PQInitialValue() TV {
	switch v.kind {
	case "pq0":
		return 0
	case "pqneg":
		return TV(math.Inf(-1))
	}
	return v.Wrapped.PQInitialValue()
}

func (v variant[TV, TIX]) CreateSplit(ns []interfaces.Node[TV, TIX], size TIX, r interfaces.Random[TIX], n interfaces.Node[TV, TIX]) {
	x := n.GetVector(v.VectorLength())
	switch v.kind {
	case "zeroplane": // never finds a plane
		for i := range x {
			x[i] = 0
		}
	case "oneside", "otherside": // the mean: often all items are on one side of it
		for i := range x {
			x[i] = 0
			for _, o := range ns {
				x[i] += o.GetVector(v.VectorLength())[i]
			}
			if v.kind == "otherside" {
				x[i] = -x[i]
			}
		}
	default:
		v.Wrapped.CreateSplit(ns, size, r, n)
	}
}

func (v variant[TV, TIX]) Distance(x, y interfaces.Node[TV, TIX]) TV {
	if v.kind == "raw3" { // another raw scale, undone when reported
		return v.Wrapped.Distance(x, y) * 4
	}
	return v.Wrapped.Distance(x, y)
}

func (v variant[TV, TIX]) NormalizedDistance(d TV) TV {
	if v.kind == "raw3" {
		d /= 4
	}
	return v.Wrapped.NormalizedDistance(d)
}

// ---- a complete distance of its own: squared Euclidean distance, with its own node

type eucNode[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	desc     TIX
	children [2]TIX
	bias     TV
	norm     TV
	v        [0]TV
}

func (n *eucNode[TV, TIX]) GetRawVector() *TV { return (*TV)(unsafe.Pointer(&n.v)) }
func (n *eucNode[TV, TIX]) GetVector(l TIX) []TV {
	return unsafe.Slice((*TV)(unsafe.Pointer(&n.v)), l)
}
func (n *eucNode[TV, TIX]) SetVector(v []TV) {
	copy(unsafe.Slice((*TV)(unsafe.Pointer(&n.v)), len(v)), v)
}
func (n *eucNode[TV, TIX]) GetRawChildren() *TIX { return (*TIX)(unsafe.Pointer(&n.children)) }
func (n *eucNode[TV, TIX]) GetChildren() []TIX {
	if n.desc == 0 {
		return nil
	}
	return unsafe.Slice((*TIX)(unsafe.Pointer(&n.children)), n.desc)
}
func (n *eucNode[TV, TIX]) SetChildren(c []TIX) {
	copy(unsafe.Slice((*TIX)(unsafe.Pointer(&n.children)), len(c)), c)
}
func (n *eucNode[TV, TIX]) GetNumberOfDescendants() TIX  { return n.desc }
func (n *eucNode[TV, TIX]) SetNumberOfDescendants(d TIX) { n.desc = d }
func (n *eucNode[TV, TIX]) GetNorm() TV                  { return n.norm }
func (n *eucNode[TV, TIX]) SetNorm(x TV)                 { n.norm = x }

type euclid[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct{ dim TIX }

func (e euclid[TV, TIX]) PreProcess(unsafe.Pointer, TIX) {}
func (e euclid[TV, TIX]) Distance(x, y interfaces.Node[TV, TIX]) TV {
	a, b := x.GetVector(e.dim), y.GetVector(e.dim)
	var s TV
	for i := range a {
		s += (a[i] - b[i]) * (a[i] - b[i])
	}
	return s
}
func (e euclid[TV, TIX]) Normalize(interfaces.Node[TV, TIX]) {}
func (e euclid[TV, TIX]) Margin(n interfaces.Node[TV, TIX], y []TV) TV {
	m := n.(*eucNode[TV, TIX]).bias
	for i, x := range n.GetVector(e.dim) {
		m += x * y[i]
	}
	return m
}
func (e euclid[TV, TIX]) CreateSplit(ns []interfaces.Node[TV, TIX], size TIX, r interfaces.Random[TIX], n interfaces.Node[TV, TIX]) {
	pm, qm := make([]uint64, size/8+2), make([]uint64, size/8+2)
	p := (*eucNode[TV, TIX])(unsafe.Pointer(&pm[0]))
	q := (*eucNode[TV, TIX])(unsafe.Pointer(&qm[0]))
	distance.TwoMeans[TV, TIX](ns, e.dim, r, false, p, q, e)
	pv, qv, nv := p.GetVector(e.dim), q.GetVector(e.dim), n.GetVector(e.dim)
	var b TV
	for i := range nv {
		nv[i] = pv[i] - qv[i]
		b -= nv[i] * (pv[i] + qv[i]) / 2
	}
	n.(*eucNode[TV, TIX]).bias = b
}
func (e euclid[TV, TIX]) Side(m interfaces.Node[TV, TIX], v []TV, r interfaces.Random[TIX]) interfaces.Side {
	switch x := e.Margin(m, v); {
	case x > 0:
		return interfaces.SideRight
	case x < 0:
		return interfaces.SideLeft
	}
	return r.NextSide()
}
func (e euclid[TV, TIX]) MapNodeToMemory(mem unsafe.Pointer, i TIX) interfaces.Node[TV, TIX] {
	return (*eucNode[TV, TIX])(unsafe.Add(mem, uintptr(i)*uintptr(e.NodeSize())))
}
func (e euclid[TV, TIX]) PQDistance(d, m TV, side interfaces.Side) TV {
	if side == interfaces.SideLeft {
		m = -m
	}
	return TV(math.Min(float64(d), float64(m)))
}
func (e euclid[TV, TIX]) NormalizedDistance(d TV) TV { return TV(math.Sqrt(float64(d))) }
func (e euclid[TV, TIX]) PQInitialValue() TV         { return TV(math.Inf(1)) }
func (e euclid[TV, TIX]) InitNode(n interfaces.Node[TV, TIX]) {
	var s TV
	for _, x := range n.GetVector(e.dim) {
		s += x * x
	}
	n.SetNorm(s)
}
func (e euclid[TV, TIX]) NodeSize() TIX {
	n := eucNode[TV, TIX]{}
	return TIX(unsafe.Offsetof(n.v) + uintptr(e.dim)*unsafe.Sizeof(TV(0)))
}
func (e euclid[TV, TIX]) MaxNumChildren() TIX {
	n := eucNode[TV, TIX]{}
	return TIX((uintptr(e.NodeSize()) - unsafe.Offsetof(n.children)) / unsafe.Sizeof(n.children[0]))
}
func (e euclid[TV, TIX]) VectorLength() TIX { return e.dim }
