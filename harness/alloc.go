package main

import "runtime/metrics"

// allocated returns the heap bytes allocated while f runs (meaningful in Serial kinds only).
// Small allocations are accounted in bulk, so values below some 64 KiB are noise.
func allocated(f func()) uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	a := s[0].Value.Uint64()
	f()
	metrics.Read(s)
	return s[0].Value.Uint64() - a
}
