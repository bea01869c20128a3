package sym

import "math"

func f64(b uint64) float64 { return math.Float64frombits(b) }
func f32(b uint32) float32 { return math.Float32frombits(b) }
