// Package fault makes chosen file system calls of this process fail, or kill the process, or stop it
// while its parent runs another one.
package fault

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Supervisor sees every file system call of this process while it is armed, numbers them, and
// lets them continue, fails them, or kills the process instead of executing them. It is a seccomp
// user notification filter whose listener is served by a goroutine of the same process. Calls on
// descriptors below LowFd (standard files, epoll, the listener) are not looked at.
type Supervisor struct {
	fd      int
	armed   atomic.Bool
	N       int
	Names   []string
	Plan    map[int]string // number of the call -> KILL, or an errno
	Fired   int
	written map[int]bool // descriptors that were written to successfully and not closed
	// CloseFailed: the close of a file that was written to was made to fail
	CloseFailed bool
	Unclosed    bool // some close was made to fail: the file stays open
	// Open, Mapped: how many close, munmap calls were made to fail
	Open, Mapped int
}

// Do runs f under supervision.
func (s *Supervisor) Do(f func()) {
	if s != nil {
		s.armed.Store(true)
		defer s.armed.Store(false)
	}
	f()
}

const LowFd = 100

// descriptors of a child over which it asks its parent to run another process
const OtherGo, OtherAsk = 3, 4

type bpf struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

// numbers of linux/amd64
var pathCalls = map[uint32]string{
	2: "open", 257: "openat", 437: "openat2", 85: "creat", 82: "rename", 264: "renameat", 316: "renameat2",
	87: "unlink", 263: "unlinkat", 86: "link", 265: "linkat", 88: "symlink", 266: "symlinkat", 76: "truncate",
	83: "mkdir", 258: "mkdirat", 84: "rmdir", 90: "chmod", 268: "fchmodat", 4: "stat", 6: "lstat",
	262: "newfstatat", 332: "statx", 21: "access", 269: "faccessat", 439: "faccessat2", 162: "sync",
	306: "syncfs", 326: "copy_file_range", 40: "sendfile", 26: "msync",
}
var fdCalls = map[uint32]string{
	0: "read", 1: "write", 3: "close", 5: "fstat", 8: "lseek", 17: "pread64", 18: "pwrite64", 19: "readv",
	20: "writev", 77: "ftruncate", 74: "fsync", 75: "fdatasync", 285: "fallocate", 91: "fchmod",
	295: "preadv", 296: "pwritev", 327: "preadv2", 328: "pwritev2", 73: "flock", 277: "sync_file_range",
}

const mmapCall, munmapCall = 9, 11

// WatchUnmap has to be set before Supervise to see munmap, too.
var WatchUnmap bool

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE,
	"EINTR": syscall.EINTR, "EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS, "ENOMEM": syscall.ENOMEM,
}

func filter() []bpf {
	const (
		ld     = 0x20 // BPF_LD|BPF_W|BPF_ABS
		jeq    = 0x15
		jge    = 0x35
		ret    = 0x06
		allow  = 0x7fff0000
		notify = 0x7fc00000
		arch   = 0xc000003e
	)
	p := []bpf{{ld, 0, 0, 4}, {jeq, 1, 0, arch}, {ret, 0, 0, allow}, {ld, 0, 0, 0}}
	for nr := range pathCalls {
		p = append(p, bpf{jeq, 0, 1, nr}, bpf{ret, 0, 0, notify})
	}
	for nr := range fdCalls {
		// low half of the first argument
		p = append(p, bpf{jeq, 0, 4, nr}, bpf{ld, 0, 0, 16}, bpf{jge, 0, 1, LowFd}, bpf{ret, 0, 0, notify}, bpf{ret, 0, 0, allow})
	}
	p = append(p, bpf{jeq, 0, 5, mmapCall}, bpf{ld, 0, 0, 16 + 4*8}, bpf{jeq, 1, 0, 0xffffffff}, bpf{jge, 1, 0, LowFd},
		bpf{ret, 0, 0, allow}, bpf{ret, 0, 0, notify})
	if WatchUnmap {
		p = append(p, bpf{jeq, 0, 1, munmapCall}, bpf{ret, 0, 0, notify})
	}
	return append(p, bpf{ret, 0, 0, allow})
}

// Supervise installs the filter for all threads.
func Supervise(plan map[int]string) (*Supervisor, error) {
	for { // make all further descriptors of this process high ones
		fd, err := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
		if err != nil {
			return nil, err
		}
		if fd >= LowFd {
			syscall.Close(fd)
			break
		}
	}
	// the listener has to be a low one
	if err := syscall.Close(LowFd - 1); err != nil {
		return nil, err
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	const prSetNoNewPrivs = 38
	p := filter()
	prog := struct {
		n uint16
		_ [6]byte
		p *bpf
	}{n: uint16(len(p)), p: &p[0]}
	// no_new_privs belongs to the thread; TSYNC hands it to the others
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, prSetNoNewPrivs, 1, 0, 0, 0, 0); e != 0 {
		return nil, e
	}
	fd, _, e := syscall.RawSyscall(317, 1, 1|8|16, uintptr(unsafe.Pointer(&prog)))
	if e != 0 {
		return nil, fmt.Errorf("seccomp: %w", e)
	}
	s := &Supervisor{fd: int(fd), Plan: plan, written: map[int]bool{}}
	if s.fd >= LowFd {
		return nil, fmt.Errorf("listener is descriptor %d", s.fd)
	}
	ready := make(chan bool)
	go s.serve(ready)
	<-ready
	return s, nil
}

func (s *Supervisor) serve(ready chan bool) {
	runtime.LockOSThread()
	ready <- true
	var req [80]byte
	var resp [24]byte
	for {
		req = [80]byte{}
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(s.fd), 0xc0502100, uintptr(unsafe.Pointer(&req[0]))); e != 0 {
			if e == syscall.EINTR || e == syscall.ENOENT {
				continue
			}
			fmt.Println("supervisor:", e)
			time.Sleep(time.Second)
			continue
		}
		copy(resp[:8], req[:8]) // id
		errno, cont := s.decide(binary.LittleEndian.Uint32(req[16:]), req[32:])
		binary.LittleEndian.PutUint64(resp[8:], 0)
		binary.LittleEndian.PutUint32(resp[16:], uint32(-int32(errno)))
		binary.LittleEndian.PutUint32(resp[20:], cont)
		for {
			_, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(s.fd), 0xc0182101, uintptr(unsafe.Pointer(&resp[0])))
			if e != syscall.EINTR {
				break
			}
		}
	}
}

func (s *Supervisor) decide(nr uint32, args []byte) (syscall.Errno, uint32) {
	if !s.armed.Load() {
		return 0, 1
	}
	name := pathCalls[nr]
	if name == "" {
		name = fdCalls[nr]
	}
	switch nr {
	case mmapCall:
		name = "mmap"
	case munmapCall:
		name = "munmap"
		if act := s.Plan[s.N+1]; act != "" {
			s.Mapped++
		}
	case 3:
		if act := s.Plan[s.N+1]; act != "" {
			s.Open++
		}
	}
	fd := int(int32(binary.LittleEndian.Uint64(args)))
	s.N++
	s.Names = append(s.Names, name)
	act := s.Plan[s.N]
	if act == "KILL" {
		syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
		select {}
	}
	if act == "OTHER" { // the parent runs another process now
		var b [1]byte
		syscall.Write(OtherAsk, b[:])
		for {
			if _, e := syscall.Read(OtherGo, b[:]); e != syscall.EINTR {
				break
			}
		}
		s.Fired++
		if name == "write" {
			s.written[fd] = true
		}
		return 0, 1
	}
	switch name {
	case "write", "pwrite64", "writev", "pwritev", "ftruncate":
		if act == "" {
			s.written[fd] = true
		}
	case "close":
		s.Unclosed = s.Unclosed || act != ""
		if s.written[fd] && act != "" && act != "EINTR" {
			s.CloseFailed = true
		}
		delete(s.written, fd)
	}
	if act != "" {
		s.Fired++
		return errnos[act], 0
	}
	return 0, 1
}
