// Package vpprof replaces runtime/pprof.
package vpprof

import (
	"errors"
	"io"
	"vshim/vsched"
)

var (
	// Content of each named profile.
	Content map[string][]byte
	// CPUContent is what a CPU profile writes when stopped.
	CPUContent []byte
	// CPUActive says whether a CPU profile is running.
	CPUActive bool
	// ChunkWrites makes WriteTo write its content in pieces of this size (0: one write).
	ChunkWrites int
	// Writes lists the profiles written.
	Writes []Written
	cpuW   io.Writer
)

// Written is one profile written; Debug 0 is the binary form.
type Written struct {
	Name  string
	Debug int
	At    int64
}

func init() {
	vsched.OnReset(func() {
		Content = map[string][]byte{}
		CPUContent = []byte("cpu")
		CPUActive = false
		cpuW = nil
		ChunkWrites = 0
		Writes = nil
	})
}

type Profile struct{ name string }

func Lookup(name string) *Profile {
	switch name {
	case "goroutine", "threadcreate", "heap", "allocs", "block", "mutex":
		return &Profile{name}
	}
	return nil
}
func (p *Profile) Name() string { return p.name }
func (p *Profile) Count() int   { return 1 }
func (p *Profile) WriteTo(w io.Writer, debug int) error {
	Writes = append(Writes, Written{p.name, debug, vsched.Now()})
	b := Content[p.name]
	for ChunkWrites > 0 && len(b) > ChunkWrites {
		if _, err := w.Write(b[:ChunkWrites]); err != nil {
			return err
		}
		b = b[ChunkWrites:]
	}
	_, err := w.Write(b)
	return err
}

func StartCPUProfile(w io.Writer) error {
	vsched.Point("StartCPUProfile")
	if CPUActive {
		return errors.New("cpu profiling already in use")
	}
	CPUActive = true
	cpuW = w
	return nil
}
func StopCPUProfile() {
	vsched.Point("StopCPUProfile")
	if !CPUActive {
		return
	}
	CPUActive = false
	Writes = append(Writes, Written{"cpu", 0, vsched.Now()})
	if cpuW != nil {
		cpuW.Write(CPUContent)
	}
	cpuW = nil
}
func WriteHeapProfile(w io.Writer) error {
	_, err := w.Write(Content["heap"])
	return err
}
