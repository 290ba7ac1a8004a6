package h

import (
	"sort"

	"github.com/msaf1980/go-matcher/zzverif/sym"
)

// sliceSort is sort.Slice by sort.Sort, which has the same algorithm; used by the engine.
type sliceSort struct {
	x    interface{}
	n    int
	less func(i, j int) bool
}

func (s *sliceSort) Len() int           { return s.n }
func (s *sliceSort) Less(i, j int) bool { return s.less(i, j) }
func (s *sliceSort) Swap(i, j int)      { sym.SliceSwap(s.x, i, j) }

func sortSlice(x interface{}, less func(i, j int) bool) {
	sort.Sort(&sliceSort{x, sym.SliceLen(x), less})
}
