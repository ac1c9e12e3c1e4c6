package mc

import (
	"encoding/binary"
	"os"
)

// Set is a compact set of 64-bit hashes.
type Set struct {
	slots []uint64
	n     int
	zero  bool
}

func NewSet(capacity int) *Set {
	size := 1024
	for size < capacity*2 {
		size *= 2
	}
	return &Set{slots: make([]uint64, size)}
}

func (s *Set) Len() int {
	if s.zero {
		return s.n + 1
	}
	return s.n
}

func (s *Set) Add(h uint64) {
	if h == 0 {
		s.zero = true
		return
	}
	mask := uint64(len(s.slots) - 1)
	i := h & mask
	for s.slots[i] != 0 {
		if s.slots[i] == h {
			return
		}
		i = (i + 1) & mask
	}
	s.slots[i] = h
	if s.n++; s.n*2 > len(s.slots) {
		old := s.slots
		s.slots = make([]uint64, 2*len(old))
		s.n = 0
		for _, v := range old {
			if v != 0 {
				s.Add(v)
			}
		}
	}
}

// Save writes all hashes to a file.
func (s *Set) Save(path string) error {
	buf := make([]byte, 0, 8*s.Len())
	if s.zero {
		buf = binary.LittleEndian.AppendUint64(buf, 0)
	}
	for _, v := range s.slots {
		if v != 0 {
			buf = binary.LittleEndian.AppendUint64(buf, v)
		}
	}
	return os.WriteFile(path, buf, 0o644)
}

// Load adds the hashes of a file.
func (s *Set) Load(path string) error {
	buf, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	for ; len(buf) >= 8; buf = buf[8:] {
		s.Add(binary.LittleEndian.Uint64(buf))
	}
	return nil
}
