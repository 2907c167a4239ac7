//go:build go1.24

package main

// The counters are no maps: the race detector watches map accesses even of
// packages that are not instrumented, and every report about one costs time.

type tally struct {
	k []string
	n []int64
}

func (t *tally) inc(k string) {
	for i := range t.k {
		if t.k[i] == k {
			t.n[i]++
			return
		}
	}
	t.k = append(t.k, k)
	t.n = append(t.n, 1)
}

func (t *tally) counts() map[string]int64 {
	m := map[string]int64{}
	for i, k := range t.k {
		m[k] = t.n[i]
	}
	return m
}

// hset is a set of hashes.
type hset struct {
	tab  []uint64 // 0 is free
	n    int
	zero bool
}

func (s *hset) add(h uint64) {
	if h == 0 {
		s.zero = true
		return
	}
	if 2*s.n >= len(s.tab) {
		old := s.tab
		s.tab, s.n = make([]uint64, 64+4*len(old)), 0
		for _, x := range old {
			if x != 0 {
				s.add(x)
			}
		}
	}
	i := int(h * 0x9e3779b97f4a7c15 >> 32 % uint64(len(s.tab)))
	for s.tab[i] != 0 {
		if s.tab[i] == h {
			return
		}
		if i++; i == len(s.tab) {
			i = 0
		}
	}
	s.tab[i] = h
	s.n++
}

func (s *hset) set() map[uint64]struct{} {
	m := map[uint64]struct{}{}
	if s.zero {
		m[0] = struct{}{}
	}
	for _, h := range s.tab {
		if h != 0 {
			m[h] = struct{}{}
		}
	}
	return m
}
