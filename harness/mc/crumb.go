package mc

import (
	"encoding/binary"
	"os"
	"syscall"
)

// Crumb is a memory-mapped file holding the choices of the current execution, so that they survive a crash.
type Crumb struct{ b []byte }

const crumbSize = 1 << 16

// OpenCrumb creates the file.
func OpenCrumb(path string) (*Crumb, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err = f.Truncate(crumbSize); err != nil {
		return nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, crumbSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &Crumb{b}, nil
}

// Reset starts a new execution.
func (c *Crumb) Reset() {
	binary.LittleEndian.PutUint32(c.b[4:], 0)
	binary.LittleEndian.PutUint32(c.b, binary.LittleEndian.Uint32(c.b)+1)
}

// Put records a choice.
func (c *Crumb) Put(i, v int) {
	if off := 16 + 4*i; off+4 <= len(c.b) {
		binary.LittleEndian.PutUint32(c.b[off:], uint32(v))
		binary.LittleEndian.PutUint32(c.b[4:], uint32(i+1))
	}
}

// SetLevel records which family and bound is being explored.
func (c *Crumb) SetLevel(family, bound int) {
	binary.LittleEndian.PutUint32(c.b[8:], uint32(family))
	binary.LittleEndian.PutUint32(c.b[12:], uint32(bound))
}

// ReadCrumb returns the number of executions started and the choices of the last one.
func ReadCrumb(path string) (execs uint32, choices []int) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 16 {
		return 0, nil
	}
	n := int(binary.LittleEndian.Uint32(b[4:]))
	for i := 0; i < n && 20+4*i <= len(b); i++ {
		choices = append(choices, int(binary.LittleEndian.Uint32(b[16+4*i:])))
	}
	return binary.LittleEndian.Uint32(b), choices
}
