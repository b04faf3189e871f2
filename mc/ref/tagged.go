package ref

import (
	"sort"

	"github.com/myyrakle/gost"
)

// T is an element ordered and compared by K only; ID tells equal elements
// apart, so lost, duplicated or reordered elements are seen among equal ones.
type T struct{ K, ID int32 }

func (a T) Cmp(b T) gost.Ordering {
	switch {
	case a.K < b.K:
		return gost.OrderingLess
	case a.K > b.K:
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}

func (a T) Eq(b T) gost.Bool { return a.K == b.K }

// SortedT returns m sorted by key and ID.
func SortedT(m []T) []T {
	r := Copy(m)
	sort.Slice(r, func(i, j int) bool { return r[i].K < r[j].K || r[i].K == r[j].K && r[i].ID < r[j].ID })
	return r
}

// SameBag tells whether two slices hold the same elements.
func SameBag(a, b []T) bool { return Same(SortedT(a), SortedT(b)) }
