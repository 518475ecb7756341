package main

import "math"

func f64bits(f float64) uint64     { return math.Float64bits(f) }
func f64frombits(u uint64) float64 { return math.Float64frombits(u) }
func f32bits(f float64) uint32     { return math.Float32bits(float32(f)) }
