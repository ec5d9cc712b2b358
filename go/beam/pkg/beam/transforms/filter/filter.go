// Package filter stands in for Beam's filter transforms.
package filter

import "github.com/apache/beam/sdks/v2/go/pkg/beam"

// Distinct removes duplicates.
func Distinct(s beam.Scope, col beam.PCollection) beam.PCollection {
	return beam.SimDistinct(s.Scope("filter.Distinct"), col)
}

// Include keeps the elements fn holds for.
func Include(s beam.Scope, col beam.PCollection, fn any) beam.PCollection {
	return beam.SimFilter(s.Scope("filter.Include"), col, fn, true)
}

// Exclude drops the elements fn holds for.
func Exclude(s beam.Scope, col beam.PCollection, fn any) beam.PCollection {
	return beam.SimFilter(s.Scope("filter.Exclude"), col, fn, false)
}
