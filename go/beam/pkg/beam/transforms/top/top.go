// Package top stands in for Beam's top transforms.
package top

import "github.com/apache/beam/sdks/v2/go/pkg/beam"

// LargestPerKey keeps the n largest values of each key under less.
func LargestPerKey(s beam.Scope, col beam.PCollection, n int, less any) beam.PCollection {
	return beam.SimLargestPerKey(s.Scope("top.LargestPerKey"), col, n, less, false)
}

// SmallestPerKey keeps the n smallest values of each key under less.
func SmallestPerKey(s beam.Scope, col beam.PCollection, n int, less any) beam.PCollection {
	return beam.SimLargestPerKey(s.Scope("top.SmallestPerKey"), col, n, less, true)
}
