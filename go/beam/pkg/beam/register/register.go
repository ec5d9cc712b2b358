// Package register stands in for Beam's generated wrappers: nothing to register.
package register
func DoFn0x1[A any](any) {}
func Function0x1[A any](any) {}
func DoFn0x2[A, B any](any) {}
func Function0x2[A, B any](any) {}
func DoFn0x3[A, B, C any](any) {}
func Function0x3[A, B, C any](any) {}
func DoFn0x4[A, B, C, D any](any) {}
func Function0x4[A, B, C, D any](any) {}
func DoFn1x0[A any](any) {}
func Function1x0[A any](any) {}
func DoFn1x1[A, B any](any) {}
func Function1x1[A, B any](any) {}
func DoFn1x2[A, B, C any](any) {}
func Function1x2[A, B, C any](any) {}
func DoFn1x3[A, B, C, D any](any) {}
func Function1x3[A, B, C, D any](any) {}
func DoFn1x4[A, B, C, D, E any](any) {}
func Function1x4[A, B, C, D, E any](any) {}
func DoFn2x0[A, B any](any) {}
func Function2x0[A, B any](any) {}
func DoFn2x1[A, B, C any](any) {}
func Function2x1[A, B, C any](any) {}
func DoFn2x2[A, B, C, D any](any) {}
func Function2x2[A, B, C, D any](any) {}
func DoFn2x3[A, B, C, D, E any](any) {}
func Function2x3[A, B, C, D, E any](any) {}
func DoFn2x4[A, B, C, D, E, F any](any) {}
func Function2x4[A, B, C, D, E, F any](any) {}
func DoFn3x0[A, B, C any](any) {}
func Function3x0[A, B, C any](any) {}
func DoFn3x1[A, B, C, D any](any) {}
func Function3x1[A, B, C, D any](any) {}
func DoFn3x2[A, B, C, D, E any](any) {}
func Function3x2[A, B, C, D, E any](any) {}
func DoFn3x3[A, B, C, D, E, F any](any) {}
func Function3x3[A, B, C, D, E, F any](any) {}
func DoFn3x4[A, B, C, D, E, F, G any](any) {}
func Function3x4[A, B, C, D, E, F, G any](any) {}
func DoFn4x0[A, B, C, D any](any) {}
func Function4x0[A, B, C, D any](any) {}
func DoFn4x1[A, B, C, D, E any](any) {}
func Function4x1[A, B, C, D, E any](any) {}
func DoFn4x2[A, B, C, D, E, F any](any) {}
func Function4x2[A, B, C, D, E, F any](any) {}
func DoFn4x3[A, B, C, D, E, F, G any](any) {}
func Function4x3[A, B, C, D, E, F, G any](any) {}
func DoFn4x4[A, B, C, D, E, F, G, H any](any) {}
func Function4x4[A, B, C, D, E, F, G, H any](any) {}
func DoFn5x0[A, B, C, D, E any](any) {}
func Function5x0[A, B, C, D, E any](any) {}
func DoFn5x1[A, B, C, D, E, F any](any) {}
func Function5x1[A, B, C, D, E, F any](any) {}
func DoFn5x2[A, B, C, D, E, F, G any](any) {}
func Function5x2[A, B, C, D, E, F, G any](any) {}
func DoFn5x3[A, B, C, D, E, F, G, H any](any) {}
func Function5x3[A, B, C, D, E, F, G, H any](any) {}
func DoFn5x4[A, B, C, D, E, F, G, H, I any](any) {}
func Function5x4[A, B, C, D, E, F, G, H, I any](any) {}
func DoFn6x0[A, B, C, D, E, F any](any) {}
func Function6x0[A, B, C, D, E, F any](any) {}
func DoFn6x1[A, B, C, D, E, F, G any](any) {}
func Function6x1[A, B, C, D, E, F, G any](any) {}
func DoFn6x2[A, B, C, D, E, F, G, H any](any) {}
func Function6x2[A, B, C, D, E, F, G, H any](any) {}
func DoFn6x3[A, B, C, D, E, F, G, H, I any](any) {}
func Function6x3[A, B, C, D, E, F, G, H, I any](any) {}
func DoFn6x4[A, B, C, D, E, F, G, H, I, J any](any) {}
func Function6x4[A, B, C, D, E, F, G, H, I, J any](any) {}
func DoFn7x0[A, B, C, D, E, F, G any](any) {}
func Function7x0[A, B, C, D, E, F, G any](any) {}
func DoFn7x1[A, B, C, D, E, F, G, H any](any) {}
func Function7x1[A, B, C, D, E, F, G, H any](any) {}
func DoFn7x2[A, B, C, D, E, F, G, H, I any](any) {}
func Function7x2[A, B, C, D, E, F, G, H, I any](any) {}
func DoFn7x3[A, B, C, D, E, F, G, H, I, J any](any) {}
func Function7x3[A, B, C, D, E, F, G, H, I, J any](any) {}
func DoFn7x4[A, B, C, D, E, F, G, H, I, J any](any) {}
func Function7x4[A, B, C, D, E, F, G, H, I, J any](any) {}
func Combiner1[A any](any) {}
func Emitter1[A any]() {}
func Iter1[A any]() {}
func Combiner2[A, B any](any) {}
func Emitter2[A, B any]() {}
func Iter2[A, B any]() {}
func Combiner3[A, B, C any](any) {}
func Emitter3[A, B, C any]() {}
func Iter3[A, B, C any]() {}
