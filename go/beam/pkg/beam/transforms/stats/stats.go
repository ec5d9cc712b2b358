// Package stats stands in for Beam's stats transforms.
package stats

import "github.com/apache/beam/sdks/v2/go/pkg/beam"

// Count counts how often each element appears.
func Count(s beam.Scope, col beam.PCollection) beam.PCollection {
	s = s.Scope("stats.Count")
	return SumPerKey(s, beam.ParDo(s, func(x beam.X) (beam.X, int) { return x, 1 }, col))
}

// SumPerKey sums the values of each key in their own type.
func SumPerKey(s beam.Scope, col beam.PCollection) beam.PCollection {
	return beam.SimSumPerKey(s.Scope("stats.SumPerKey"), col)
}
