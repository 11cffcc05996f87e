// Package smmap replaces github.com/edsrzf/mmap-go: real shared mappings of the memory files of package sos.
// After Unmap the memory stays reserved and inaccessible until the end of the run, so that a later access faults.
package smmap

import (
	"errors"
	"syscall"
	"unsafe"

	"github.com/solarisdb/solaris/zsim/sim"
	"github.com/solarisdb/solaris/zsim/sos"
)

const (
	RDONLY = 0
	RDWR   = 1 << iota
	COPY
	EXEC
)

const ANON = 1 << iota

type MMap []byte

var owner = map[*byte]*sos.Inode{}

func Map(f *sos.File, prot, flags int) (MMap, error) { return MapRegion(f, -1, prot, flags, 0) }

func MapRegion(f *sos.File, length int, prot, flags int, offset int64) (MMap, error) {
	sim.Enter()
	sim.YS()
	sim.Count("fs:mmap")
	if offset%4096 != 0 {
		return nil, errors.New("offset parameter must be a multiple of the system's page size")
	}
	if flags&ANON != 0 {
		return nil, errors.New("anonymous mappings are not simulated")
	}
	ino, err := f.Inode()
	if err != nil {
		return nil, err
	}
	if length < 0 {
		length = int(ino.Size())
	}
	if v := sim.Fault("fs.mmap"); v != 0 {
		return nil, syscall.ENOMEM
	}
	fl, p := syscall.MAP_SHARED, syscall.PROT_READ
	switch {
	case prot&COPY != 0:
		p |= syscall.PROT_WRITE
		fl = syscall.MAP_PRIVATE
	case prot&RDWR != 0:
		p |= syscall.PROT_WRITE
	}
	addr, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, uintptr(length), uintptr(p), uintptr(fl), uintptr(ino.Fd()), uintptr(offset))
	if e != 0 {
		return nil, e
	}
	sim.OnEnd(func() { syscall.Syscall(syscall.SYS_MUNMAP, addr, uintptr(length), 0) })
	b := unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&addr))), length)
	if prot&RDWR != 0 && length > 0 {
		ino.AddMap(b)
		owner[&b[0]] = ino
		sim.OnEnd(func() { delete(owner, &b[0]) })
	}
	return MMap(b), nil
}

func (m MMap) Lock() error   { return nil }
func (m MMap) Unlock() error { return nil }

func (m MMap) Flush() error {
	sim.YS()
	sim.Count("fs:msync")
	if sim.Fault("fs.msync") != 0 {
		return syscall.EIO
	}
	return nil
}

func (m *MMap) Unmap() error {
	sim.Enter()
	sim.YS()
	if len(*m) > 0 {
		if ino := owner[&(*m)[0]]; ino != nil {
			ino.DelMap(&(*m)[0])
		}
		p := uintptr(unsafe.Pointer(&(*m)[0]))
		if _, _, e := syscall.Syscall(syscall.SYS_MPROTECT, p, uintptr(len(*m)), 0); e != 0 {
			panic("sim: mprotect: " + e.Error())
		}
	}
	*m = nil
	return nil
}
