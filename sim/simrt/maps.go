//go:build go1.18

package simrt

import (
	"fmt"
	"sort"
)

// MapKeys returns the keys of m in an order fixed by the run's map seed.
func MapKeys[K comparable, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprintf("%#v", ks[i]) < fmt.Sprintf("%#v", ks[j]) })
	s := getMapSeed()
	if s != 0 {
		for i := len(ks) - 1; i > 0; i-- {
			s ^= s << 13
			s ^= s >> 7
			s ^= s << 17
			j := int(s % uint64(i+1))
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

//go:norace
func getMapSeed() uint64 { return mapSeed }
