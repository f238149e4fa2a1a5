package main

// What the encoder executes in place of sync.Pool and sync.Map, whose own code
// depends on the scheduler and on hashes of memory: a pool is a stack, a map
// is an ordinary map. Natively these are not used.

import "sync"

var (
	vfPools = map[*sync.Pool][]interface{}{}
	vfMaps  = map[*sync.Map]map[interface{}]interface{}{}
)

func vfPoolGet(p *sync.Pool) interface{} {
	s := vfPools[p]
	if n := len(s); n > 0 {
		x := s[n-1]
		vfPools[p] = s[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func vfPoolPut(p *sync.Pool, x interface{}) {
	if x != nil {
		vfPools[p] = append(vfPools[p], x)
	}
}

func vfMapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := vfMaps[m][k]
	return v, ok
}

func vfMapStore(m *sync.Map, k, v interface{}) {
	if vfMaps[m] == nil {
		vfMaps[m] = map[interface{}]interface{}{}
	}
	vfMaps[m][k] = v
}

func vfMapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	if x, ok := vfMaps[m][k]; ok {
		return x, true
	}
	vfMapStore(m, k, v)
	return v, false
}

func vfMapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := vfMaps[m][k]
	delete(vfMaps[m], k)
	return v, ok
}

func vfMapDelete(m *sync.Map, k interface{}) { delete(vfMaps[m], k) }

func vfMapSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	x, ok := vfMaps[m][k]
	vfMapStore(m, k, v)
	return x, ok
}

func vfMapRange(m *sync.Map, f func(k, v interface{}) bool) {
	for k, v := range vfMaps[m] {
		if !f(k, v) {
			return
		}
	}
}

func vfMapClear(m *sync.Map) { delete(vfMaps, m) }
