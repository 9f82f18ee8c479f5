// Package unix stands for golang.org/x/sys/unix and syscall in rewritten code: msync and fsync act on the
// in-memory file system, everything else is re-exported from syscall.
package unix

import (
	"unsafe"

	"verif.local/v/mc"
	"verif.local/v/shim/os"
)

const (
	SYS_MSYNC     = 26
	SYS_FSYNC     = 74
	SYS_FDATASYNC = 75
	SYS_SYNC      = 162
)

func Getpagesize() int { return 4096 }

func msync(p, n uintptr, flags int) Errno {
	if mc.Active() {
		mc.Point("msync", nil, mc.Foot{Obj: -1, W: true})
	}
	if p%4096 != 0 || flags&MS_SYNC != 0 && flags&MS_ASYNC != 0 {
		return EINVAL
	}
	if n == 0 {
		return 0
	}
	d := os.Disk()
	i, o := d.FindMapping(p)
	if i == nil {
		return ENOMEM
	}
	end := o + (int(n)+4095)/4096*4096
	if end > (len(i.Mapped)+4095)/4096*4096 {
		return ENOMEM
	}
	if flags&MS_SYNC == 0 {
		return 0 // scheduled, not awaited
	}
	if err := d.Flush(i, o, end); err != nil {
		return EIO
	}
	return 0
}

func sys(trap, a, b, c uintptr) (r1, r2 uintptr, e Errno) {
	switch trap {
	case SYS_MSYNC:
		e = msync(a, b, int(c))
	case SYS_FSYNC, SYS_FDATASYNC:
		e = fsync(int(a))
	default:
		e = ENOSYS
	}
	if e != 0 {
		r1 = ^uintptr(0)
	}
	return
}

func Syscall(trap, a, b, c uintptr) (r1, r2 uintptr, e Errno)              { return sys(trap, a, b, c) }
func RawSyscall(trap, a, b, c uintptr) (r1, r2 uintptr, e Errno)           { return sys(trap, a, b, c) }
func Syscall6(trap, a, b, c, d, f, g uintptr) (r1, r2 uintptr, e Errno)    { return sys(trap, a, b, c) }
func RawSyscall6(trap, a, b, c, d, f, g uintptr) (r1, r2 uintptr, e Errno) { return sys(trap, a, b, c) }

func errOf(e Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

func Msync(b []byte, flags int) error {
	if len(b) == 0 {
		return nil
	}
	return errOf(msync(uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)), flags))
}

func fsync(fd int) Errno {
	f := os.Disk().ByFd(uintptr(fd))
	if f == nil {
		return EBADF
	}
	if f.Sync() != nil {
		return EIO
	}
	return 0
}

func Fsync(fd int) error     { return errOf(fsync(fd)) }
func Fdatasync(fd int) error { return errOf(fsync(fd)) }
