// Package mmap is github.com/edsrzf/mmap-go over the in-memory file system.
package mmap

import (
	"errors"
	"syscall"
	"unsafe"

	"verif.local/v/mc"
	"verif.local/v/shim/os"
)

const (
	RDONLY = 0
	RDWR   = 1 << iota
	COPY
	EXEC
)

const (
	ANON = 1 << iota
)

type MMap []byte

func Map(f *os.File, prot, flags int) (MMap, error) { return MapRegion(f, -1, prot, flags, 0) }

func MapRegion(f *os.File, length int, prot, flags int, offset int64) (MMap, error) {
	if offset%4096 != 0 {
		return nil, errors.New("offset parameter must be a multiple of the system's page size")
	}
	if flags&ANON != 0 {
		if length <= 0 {
			return nil, errors.New("anonymous mapping requires non-zero length")
		}
		return make([]byte, length), nil
	}
	if err := f.Mappable(prot&RDWR != 0 && prot&COPY == 0); err != nil {
		return nil, err
	}
	b := f.Ino().Map()
	if length < 0 {
		length = len(f.Ino().Data)
	}
	if int(offset) >= len(b) || length == 0 {
		return nil, syscall.EINVAL
	}
	if prot&COPY != 0 || prot&RDWR == 0 { // writing to a read-only mapping ends the real process; here it is lost
		return append([]byte(nil), b[offset:int(offset)+length]...), nil
	}
	return MMap(b[offset : int(offset)+length : int(offset)+length]), nil
}

func (m MMap) Lock() error   { return nil }
func (m MMap) Unlock() error { return nil }

func (m MMap) Flush() error {
	if len(m) == 0 {
		return nil
	}
	i, o := os.Disk().FindMapping(uintptr(unsafe.Pointer(&m[0])))
	if i == nil {
		return syscall.EINVAL
	}
	if mc.Active() {
		mc.Point("msync", nil, mc.Foot{Obj: -1, W: true})
	}
	if o%4096 != 0 {
		return syscall.EINVAL
	}
	return os.Disk().Flush(i, o, o+len(m))
}

// Unmap, as munmap of a shared mapping, keeps the content in the file but does not wait for the disk.
func (m *MMap) Unmap() error {
	if len(*m) == 0 {
		*m = nil
		return syscall.EINVAL
	}
	i, _ := os.Disk().FindMapping(uintptr(unsafe.Pointer(&(*m)[0])))
	*m = nil
	if i == nil {
		return syscall.EINVAL
	}
	i.Unmap()
	return nil
}
