package kern

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"sort"
	"strings"
	"syscall"

	"verif/sim/wire"
)

// Linux/amd64 system-call numbers used here.
const (
	sysRead, sysWrite, sysOpen, sysClose, sysStat, sysFstat, sysLstat = 0, 1, 2, 3, 4, 5, 6
	sysPoll, sysLseek, sysMmap, sysMprotect, sysMunmap                = 7, 8, 9, 10, 11
	sysIoctl, sysPread, sysPwrite, sysReadv, sysWritev, sysAccess     = 16, 17, 18, 19, 20, 21
	sysPipe, sysMadvise, sysDup, sysDup2, sysNanosleep                = 22, 28, 32, 33, 35
	sysGetpid, sysSendfile, sysUname, sysFcntl, sysFlock, sysFsync    = 39, 40, 63, 72, 73, 74
	sysFdatasync, sysTruncate, sysFtruncate, sysGetdents, sysGetcwd   = 75, 76, 77, 78, 79
	sysChdir, sysFchdir, sysRename, sysMkdir, sysRmdir, sysCreat      = 80, 81, 82, 83, 84, 85
	sysLink, sysUnlink, sysSymlink, sysReadlink, sysChmod, sysFchmod  = 86, 87, 88, 89, 90, 91
	sysChown, sysFchown, sysLchown, sysUmask                          = 92, 93, 94, 95
	sysGetrusage, sysGetuid, sysGetgid, sysGeteuid, sysGetegid        = 98, 102, 104, 107, 108
	sysGetppid, sysGetgroups, sysStatfs, sysFstatfs, sysSync          = 110, 115, 137, 138, 162
	sysGettid, sysUtimes, sysGetdents64, sysFadvise                   = 186, 235, 217, 221
	sysOpenat, sysMkdirat, sysFchownat, sysNewfstatat, sysUnlinkat    = 257, 258, 260, 262, 263
	sysRenameat, sysLinkat, sysSymlinkat, sysReadlinkat, sysFchmodat  = 264, 265, 266, 267, 268
	sysFaccessat, sysSplice, sysSyncFileRange, sysUtimensat           = 269, 275, 277, 280
	sysFallocate, sysDup3, sysPipe2, sysPreadv, sysPwritev            = 285, 292, 293, 295, 296
	sysPrlimit, sysSyncfs, sysRenameat2, sysGetrandom, sysMemfd       = 302, 306, 316, 318, 319
	sysCopyFileRange, sysStatx, sysOpenat2, sysFaccessat2             = 326, 332, 437, 439
	sysFchmodat2, sysMknod, sysMknodat                                = 452, 133, 259
)

const atFdcwd = ^uintptr(99) // -100

// Hook is installed as syscall.SimHook.
func (k *Kernel) Hook(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, syscall.Errno, bool) {
	k.mu.Lock()
	if trap == sysWrite && k.req.Huge && !k.multi { // hundreds of millions of these
		if int(int32(a1)) != k.hugeFd {
			k.hugeFd, k.hugeF = int(int32(a1)), k.virt(a1)
		}
		if f := k.hugeF; f != nil && f.ino != nil && f.ino.sink != nil && f.flags&oWrite != 0 {
			k.sinkWrite(f, mem(a2, int(a3)), -1)
			k.steps++
			k.now += baseCost
			k.mu.Unlock()
			return a3, 0, 0, true
		}
	}
	if trap == sysRead && k.req.Big && !k.multi {
		if int(int32(a1)) != k.hugeFd {
			k.hugeFd, k.hugeF = int(int32(a1)), k.virt(a1)
		}
		if f := k.hugeF; f != nil && f.ino != nil && f.ino.typ == "" && f.flags&oRead != 0 && f.off <= int64(len(f.ino.data)) {
			n := copy(mem(a2, int(a3)), f.ino.data[f.off:])
			f.off += int64(n)
			k.steps++
			k.now += baseCost
			k.mu.Unlock()
			return uintptr(n), 0, 0, true
		}
	}
	k.hugeFd = -1
	r, e, ok := k.sys(trap, a1, a2, a3, a4, a5, a6)
	k.mu.Unlock()
	if e != 0 {
		return ^uintptr(0), 0, e, ok
	}
	return r, 0, 0, ok
}

func (k *Kernel) virt(fd uintptr) *ofile { return k.fds[int(int32(fd))] }

func isVirtFd(fd uintptr) bool {
	f := int(int32(fd))
	return (f >= 0 && f <= 2) || f >= fdBase
}

func (k *Kernel) sys(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, syscall.Errno, bool) {
	switch trap {
	// not part of the simulated world
	case sysGetpid:
		return uintptr(300 + fnv(14695981039346656037, k.req.Entropy)%30000), 0, true
	case sysGettid, sysGetppid, sysGetuid, sysGetgid, sysGeteuid, sysGetegid, sysGetgroups,
		sysGetrusage, sysUname, sysPrlimit, sysMprotect, sysMadvise, sysMunmap, sysNanosleep, sysPoll, 228, 230, 24, 97, 131, 234, 13, 14:
		return 0, 0, false
	case sysMmap:
		if int32(a5) >= 0 {
			return 0, syscall.ENODEV, true
		}
		return 0, 0, false
	case sysMemfd, sysPipe, sysPipe2:
		return 0, syscall.ENOSYS, true
	case 149, 150, 151, 152, 157, 160, 325: // mlock and the like, prctl, setrlimit
		return 0, 0, true
	case sysGetrandom:
		n, err := k.random(mem(a1, int(a2)))
		if err != nil {
			return 0, syscall.EIO, true
		}
		return uintptr(n), 0, true
	}
	r, e, ok := k.fs(trap, a1, a2, a3, a4, a5, a6)
	if !ok {
		// a kernel that does not have this call
		k.Resp.Calls[fmt.Sprintf("missing call %d", trap)]++
		return 0, syscall.ENOSYS, true
	}
	return r, e, true
}

func (k *Kernel) fs(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, syscall.Errno, bool) {
	at := func(dir, p uintptr) string { return k.at(dir, cstr(p)) }
	switch trap {
	case sysOpenat:
		r, e := k.open(at(a1, a2), int(a3), uint32(a4))
		return r, e, true
	case sysOpen:
		r, e := k.open(k.abs(cstr(a1)), int(a2), uint32(a3))
		return r, e, true
	case sysCreat:
		r, e := k.open(k.abs(cstr(a1)), syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, uint32(a2))
		return r, e, true
	case sysOpenat2, sysCopyFileRange, sysFaccessat2, sysFchmodat2, sysStatx:
		return 0, syscall.ENOSYS, true
	case sysSendfile, sysSplice:
		return 0, syscall.EINVAL, true
	case sysClose:
		e := k.close(int(int32(a1)))
		return 0, e, true
	case sysRead:
		r, e := k.read(a1, mem(a2, int(a3)), -1)
		return r, e, true
	case sysPread:
		r, e := k.read(a1, mem(a2, int(a3)), int64(a4))
		return r, e, true
	case sysWrite:
		r, e := k.write(a1, mem(a2, int(a3)), -1)
		return r, e, true
	case sysPwrite:
		r, e := k.write(a1, mem(a2, int(a3)), int64(a4))
		return r, e, true
	case sysReadv, sysPreadv:
		off := int64(-1)
		if trap == sysPreadv {
			off = int64(a4)
		}
		// one segment per call is a legal short transfer
		for i := 0; i < int(a3); i++ {
			base := *(*uintptr)(ptr(a2 + uintptr(16*i)))
			ln := *(*uintptr)(ptr(a2 + uintptr(16*i) + 8))
			if ln > 0 {
				r, e := k.read(a1, mem(base, int(ln)), off)
				return r, e, true
			}
		}
		return 0, 0, true
	case sysWritev, sysPwritev:
		off := int64(-1)
		if trap == sysPwritev {
			off = int64(a4)
		}
		for i := 0; i < int(a3); i++ {
			base := *(*uintptr)(ptr(a2 + uintptr(16*i)))
			ln := *(*uintptr)(ptr(a2 + uintptr(16*i) + 8))
			if ln > 0 {
				r, e := k.write(a1, mem(base, int(ln)), off)
				return r, e, true
			}
		}
		return 0, 0, true
	case sysLseek:
		f := k.virt(a1)
		if f == nil {
			return 0, syscall.EBADF, true
		}
		if _, e := k.simple("seek", f.path, false); e != 0 {
			return 0, e, true
		}
		if f.ino == nil || f.ino.typ == "fifo" {
			return 0, syscall.ESPIPE, true
		}
		switch a3 {
		case 0:
			f.off = int64(a2)
		case 1:
			f.off += int64(a2)
		case 2:
			f.off = f.ino.size() + int64(a2)
		default:
			return 0, syscall.EINVAL, true
		}
		return uintptr(f.off), 0, true
	case sysFstat:
		f := k.virt(a1)
		if f == nil {
			return 0, syscall.EBADF, true
		}
		if _, e := k.simple("stat", f.path, false); e != 0 {
			return 0, e, true
		}
		k.fillStat(a2, f.ino)
		return 0, 0, true
	case sysStat, sysLstat, sysNewfstatat:
		var p string
		var buf uintptr
		follow := true
		switch trap {
		case sysNewfstatat:
			p, buf = at(a1, a2), a3
			follow = a4&0x100 == 0
			if cstr(a2) == "" && a4&0x1000 != 0 {
				f := k.virt(a1)
				if f == nil {
					return 0, syscall.EBADF, true
				}
				k.fillStat(a3, f.ino)
				return 0, 0, true
			}
		default:
			p, buf = k.abs(cstr(a1)), a2
			follow = trap == sysStat
		}
		if _, e := k.simple("stat", p, false); e != 0 {
			return 0, e, true
		}
		n, _, _, e := k.resolve(p, follow)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e != 0 {
			return 0, e, true
		}
		k.fillStat(buf, n)
		return 0, 0, true
	case sysAccess, sysFaccessat:
		p := ""
		if trap == sysAccess {
			p = k.abs(cstr(a1))
		} else {
			p = at(a1, a2)
		}
		if _, e := k.simple("stat", p, false); e != 0 {
			return 0, e, true
		}
		n, _, _, e := k.resolve(p, true)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		return 0, e, true
	case sysFsync, sysFdatasync, sysSyncFileRange, sysSyncfs:
		f := k.virt(a1)
		if f == nil {
			return 0, syscall.EBADF, true
		}
		after, e := k.simple("sync", f.path, true)
		if e != 0 {
			return 0, e, true
		}
		if f.ino == nil || f.ino.typ != "" && f.ino.typ != "dir" {
			return 0, syscall.EINVAL, true
		}
		if f.ino.typ == "" {
			f.ino.durable = append([]byte(nil), f.ino.data...)
			f.ino.dirty = false
		}
		k.meta = nil
		k.after(after)
		return 0, 0, true
	case sysSync:
		return 0, 0, true
	case sysTruncate, sysFtruncate:
		var n *inode
		var p string
		if trap == sysFtruncate {
			f := k.virt(a1)
			if f == nil {
				return 0, syscall.EBADF, true
			}
			n, p = f.ino, f.path
		} else {
			p = k.abs(cstr(a1))
			var e syscall.Errno
			n, _, _, e = k.resolve(p, true)
			if e == 0 && n == nil {
				e = syscall.ENOENT
			}
			if e != 0 {
				return 0, e, true
			}
		}
		after, e := k.simple("trunc", p, true)
		if e != 0 {
			return 0, e, true
		}
		if n == nil || n.typ != "" {
			return 0, syscall.EINVAL, true
		}
		k.setSize(n, int(a2))
		k.after(after)
		return 0, 0, true
	case sysFallocate:
		return 0, syscall.EOPNOTSUPP, true
	case sysFadvise:
		return 0, 0, true
	case sysFlock:
		f := k.virt(a1)
		if f == nil || f.ino == nil {
			return 0, syscall.EBADF, true
		}
		return 0, k.flock(f, int(a2)), true
	case sysFcntl:
		f := k.virt(a1)
		if f == nil {
			return 0, syscall.EBADF, true
		}
		switch a2 {
		case 0, 1030: // F_DUPFD, F_DUPFD_CLOEXEC
			return uintptr(k.install(f)), 0, true
		case 1, 2: // FD flags
			return 0, 0, true
		case 3: // F_GETFL
			fl := uintptr(0)
			switch f.flags {
			case oWrite:
				fl = 1
			case oRead | oWrite:
				fl = 2
			}
			return fl, 0, true
		case 4:
			return 0, 0, true
		case 5, 6, 7, 36, 37, 38: // locks
			return 0, 0, true
		}
		return 0, syscall.EINVAL, true
	case sysDup:
		f := k.virt(a1)
		if f == nil {
			return 0, syscall.EBADF, true
		}
		return uintptr(k.install(f)), 0, true
	case sysDup2, sysDup3:
		f := k.virt(a1)
		if f == nil {
			return 0, syscall.EBADF, true
		}
		k.fds[int(a2)] = f
		return a2, 0, true
	case sysIoctl:
		return k.ioctl(a1, a2, a3)
	case sysUnlink, sysUnlinkat, sysRmdir:
		var p string
		dir := trap == sysRmdir
		if trap == sysUnlinkat {
			p = at(a1, a2)
			dir = a3&0x200 != 0
		} else {
			p = k.abs(cstr(a1))
		}
		after, e := k.simple("unlink", p, true)
		if e != 0 {
			return 0, e, true
		}
		e = k.unlink(p, dir)
		k.after(after)
		return 0, e, true
	case sysRename, sysRenameat, sysRenameat2:
		var from, to string
		noreplace := false
		if trap == sysRename {
			from, to = k.abs(cstr(a1)), k.abs(cstr(a2))
		} else {
			from, to = at(a1, a2), at(a3, a4)
			if trap == sysRenameat2 && a5 != 0 {
				if a5 != 1 {
					return 0, syscall.EINVAL, true
				}
				noreplace = true
			}
		}
		after, e := k.simple("rename", to, true)
		if e != 0 {
			return 0, e, true
		}
		e = k.rename(from, to, noreplace)
		k.after(after)
		return 0, e, true
	case sysLink, sysLinkat, sysSymlink, sysSymlinkat:
		var from, to string
		switch trap {
		case sysLink:
			from, to = k.abs(cstr(a1)), k.abs(cstr(a2))
		case sysLinkat:
			from, to = at(a1, a2), at(a3, a4)
		case sysSymlink:
			from, to = cstr(a1), k.abs(cstr(a2))
		case sysSymlinkat:
			from, to = cstr(a1), at(a2, a3)
		}
		after, e := k.simple("link", to, true)
		if e != 0 {
			return 0, e, true
		}
		n, d, name, e := k.resolve(to, false)
		if e == 0 && n != nil {
			e = syscall.EEXIST
		}
		if e != 0 {
			return 0, e, true
		}
		var x *inode
		if trap == sysLink || trap == sysLinkat {
			x, _, _, e = k.resolve(from, false)
			if e == 0 && x == nil {
				e = syscall.ENOENT
			}
			if e == 0 && x.typ == "dir" {
				e = syscall.EPERM
			}
			if e != 0 {
				return 0, e, true
			}
		} else {
			x = k.newInode("link", 0777)
			x.data = []byte(from)
		}
		d.kids[name] = x
		k.meta = append(k.meta, metaOp{func() { delete(d.kids, name) }})
		k.after(after)
		return 0, 0, true
	case sysReadlink, sysReadlinkat:
		var p string
		buf, n := a2, int(a3)
		if trap == sysReadlinkat {
			p, buf, n = at(a1, a2), a3, int(a4)
		} else {
			p = k.abs(cstr(a1))
		}
		x, _, _, e := k.resolve(p, false)
		if e == 0 && x == nil {
			e = syscall.ENOENT
		}
		if e == 0 && x.typ != "link" {
			e = syscall.EINVAL
		}
		if e != 0 {
			return 0, e, true
		}
		return uintptr(copy(mem(buf, n), x.data)), 0, true
	case sysMkdir, sysMkdirat:
		var p string
		mode := uint32(a2)
		if trap == sysMkdirat {
			p, mode = at(a1, a2), uint32(a3)
		} else {
			p = k.abs(cstr(a1))
		}
		after, e := k.simple("mkdir", p, true)
		if e != 0 {
			return 0, e, true
		}
		n, d, name, e := k.resolve(p, false)
		if e == 0 && n != nil {
			e = syscall.EEXIST
		}
		if e != 0 {
			return 0, e, true
		}
		d.kids[name] = k.newInode("dir", mode&^k.umask&07777)
		k.meta = append(k.meta, metaOp{func() { delete(d.kids, name) }})
		k.after(after)
		return 0, 0, true
	case sysChmod, sysFchmod, sysFchmodat:
		var n *inode
		var p string
		mode := uint32(a2)
		switch trap {
		case sysFchmod:
			f := k.virt(a1)
			if f == nil || f.ino == nil {
				return 0, syscall.EBADF, true
			}
			n, p = f.ino, f.path
		default:
			if trap == sysChmod {
				p = k.abs(cstr(a1))
			} else {
				p, mode = at(a1, a2), uint32(a3)
			}
			var e syscall.Errno
			n, _, _, e = k.resolve(p, true)
			if e == 0 && n == nil {
				e = syscall.ENOENT
			}
			if e != 0 {
				return 0, e, true
			}
		}
		after, e := k.simple("chmod", p, true)
		if e != 0 {
			return 0, e, true
		}
		n.mode = mode & 07777
		if n.mode&077 != 0 {
			n.everPublic = true
		}
		k.exposure(n, p, 0, len(n.data))
		k.after(after)
		return 0, 0, true
	case sysChown, sysFchown, sysLchown, sysFchownat, sysUtimes, sysUtimensat:
		var n *inode
		var p string
		follow := trap != sysLchown
		switch {
		case trap == sysFchown || trap == sysUtimensat && a2 == 0:
			f := k.virt(a1)
			if f == nil || f.ino == nil {
				return 0, syscall.EBADF, true
			}
			n, p = f.ino, f.path
		case trap == sysFchownat:
			p, follow = at(a1, a2), a5&0x100 == 0
		case trap == sysUtimensat:
			p, follow = at(a1, a2), a4&0x100 == 0
		default:
			p = k.abs(cstr(a1))
		}
		if n == nil {
			var e syscall.Errno
			n, _, _, e = k.resolve(p, follow)
			if e == 0 && n == nil {
				e = syscall.ENOENT
			}
			if e != 0 {
				return 0, e, true
			}
		}
		after, e := k.simple("chown", p, true)
		if e != 0 {
			return 0, e, true
		}
		n.touched++
		if trap == sysUtimensat && a3 != 0 {
			switch t := *(*syscall.Timespec)(ptr(a3 + 16)); t.Nsec {
			case 0x3fffffff:
				n.mtime = k.clock()
			case 0x3ffffffe:
			default:
				n.mtime = t.Nano() - k.epoch()
			}
		} else if trap == sysUtimes || trap == sysUtimensat {
			n.mtime = k.clock()
		}
		k.after(after)
		return 0, 0, true
	case sysUmask:
		task, _ := k.cross("umask", "", 0)
		k.note(task, "umask", "", int64(a1))
		old := k.umask
		k.umask = uint32(a1) & 0777
		return uintptr(old), 0, true
	case sysGetcwd:
		b := mem(a1, int(a2))
		n := copy(b, k.cwd+"\x00")
		return uintptr(n), 0, true
	case sysChdir:
		p := k.abs(cstr(a1))
		n, _, _, e := k.resolve(p, true)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e == 0 && n.typ != "dir" {
			e = syscall.ENOTDIR
		}
		if e == 0 {
			k.cwd = p
		}
		return 0, e, true
	case sysFchdir:
		f := k.virt(a1)
		if f == nil {
			return 0, syscall.EBADF, true
		}
		if f.ino == nil || f.ino.typ != "dir" {
			return 0, syscall.ENOTDIR, true
		}
		k.cwd = f.path
		return 0, 0, true
	case sysStatfs, sysFstatfs:
		return 0, syscall.ENOSYS, true
	case sysMknod, sysMknodat:
		return 0, syscall.EPERM, true
	case 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199: // extended attributes
		return 0, syscall.EOPNOTSUPP, true
	case sysGetdents64:
		f := k.virt(a1)
		if f == nil {
			return 0, syscall.EBADF, true
		}
		if f.ino == nil || f.ino.typ != "dir" {
			return 0, syscall.ENOTDIR, true
		}
		if _, e := k.simple("readdir", f.path, false); e != 0 {
			return 0, e, true
		}
		return k.getdents(f, mem(a2, int(a3))), 0, true
	}
	return 0, 0, false
}

func (k *Kernel) at(dir uintptr, p string) string {
	if strings.HasPrefix(p, "/") || int32(dir) == -100 {
		return k.abs(p)
	}
	if f := k.virt(dir); f != nil {
		return k.abs(f.path + "/" + p)
	}
	return "/<bad dirfd>/" + p
}

func (k *Kernel) install(f *ofile) int {
	fd := fdBase
	for k.fds[fd] != nil {
		fd++
	}
	k.fds[fd] = f
	return fd
}

// simple crosses the seam for calls whose only faults are errors and crashes.
// It returns the crash to be taken after the effect, if any.
func (k *Kernel) simple(class, path string, mutating bool) (*wire.Event, syscall.Errno) {
	task, evs := k.cross(class, path, 0)
	k.note(task, class, path, 0)
	for i := range evs {
		e := evs[i]
		switch e.Kind {
		case "err":
			k.fired(e, task, class, path)
			k.note(task, "!err", path, e.Arg)
			return nil, syscall.Errno(e.Arg)
		case "full":
			k.diskFree = e.Arg
			k.fired(e, task, class, path)
		case "crash", "power":
			k.fired(e, task, class, path)
			if e.Arg2 == 0 || !mutating || e.Kind == "power" && e.Arg == 0 {
				k.crash(e)
			}
			return &evs[i], 0
		}
	}
	return nil, 0
}

func (k *Kernel) after(e *wire.Event) {
	if e != nil {
		k.crash(*e)
	}
}

func (k *Kernel) open(p string, flags int, mode uint32) (uintptr, syscall.Errno) {
	task, evs := k.cross("open", p, 0)
	var after *wire.Event
	for i := range evs {
		e := evs[i]
		switch e.Kind {
		case "err":
			k.fired(e, task, "open", p)
			k.note(task, "!open", p, e.Arg)
			return 0, syscall.Errno(e.Arg)
		case "eintr":
			k.fired(e, task, "open", p)
			k.note(task, "!open", p, -1)
			return 0, syscall.EINTR
		case "full":
			k.diskFree = e.Arg
			k.fired(e, task, "open", p)
		case "crash", "power":
			k.fired(e, task, "open", p)
			if e.Arg2&1 == 0 {
				k.crash(e)
			}
			after = &evs[i]
		}
	}
	acc := 0
	switch flags & 3 {
	case 0:
		acc = oRead
	case 1:
		acc = oWrite
	case 2:
		acc = oRead | oWrite
	}
	n, d, name, e := k.resolve(p, flags&syscall.O_NOFOLLOW == 0 && flags&(syscall.O_CREAT|syscall.O_EXCL) != syscall.O_CREAT|syscall.O_EXCL)
	if flags&0x410000 == 0x410000 { // O_TMPFILE
		return 0, syscall.EOPNOTSUPP
	}
	if e == 0 && n == nil && flags&syscall.O_CREAT == 0 {
		e = syscall.ENOENT
	}
	if e == 0 && n == nil && strings.HasSuffix(p, "/") {
		e = syscall.EISDIR
	}
	if e == 0 && n != nil {
		switch {
		case flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0:
			e = syscall.EEXIST
		case n.typ == "dir" && acc&oWrite != 0:
			e = syscall.EISDIR
		case n.typ != "dir" && flags&syscall.O_DIRECTORY != 0:
			e = syscall.ENOTDIR
		case n.typ == "link":
			e = syscall.ELOOP
		}
	}
	if e == 0 && n == nil && k.diskFree == 0 {
		k.fired(wire.Event{Task: task, Kind: "enospc"}, task, "open", p)
		e = syscall.ENOSPC
	}
	if e != 0 {
		k.note(task, "open", p, int64(e))
		return 0, e
	}
	if n == nil {
		n = k.newInode("", mode&^k.umask&07777)
		n.isNew = true
		d.kids[name] = n
		k.meta = append(k.meta, metaOp{func() { delete(d.kids, name) }})
	} else if flags&syscall.O_TRUNC != 0 && n.typ == "" && acc&oWrite != 0 {
		k.setSize(n, 0)
	}
	f := &ofile{ino: n, path: p, flags: acc, append: flags&syscall.O_APPEND != 0}
	switch n.typ {
	case "tty":
		f.tty, f.ino = true, nil
	case "stdout":
		f.out, f.ino = &k.Resp.Stdout, nil
	}
	fd := k.install(f)
	k.note(task, "open", p, int64(flags))
	k.after(after)
	return uintptr(fd), 0
}

func (k *Kernel) setSize(n *inode, size int) {
	n.sink = nil
	old := n.data
	if size <= len(old) {
		n.data = append([]byte(nil), old[:size]...)
	} else {
		n.data = append(append([]byte(nil), old...), make([]byte, size-len(old))...)
	}
	n.dirty = true
	n.mtime = k.clock()
	if k.diskFree >= 0 {
		k.diskFree += int64(len(old) - len(n.data))
		if k.diskFree < 0 {
			k.diskFree = 0
		}
	}
}

func (k *Kernel) close(fd int) syscall.Errno {
	f := k.fds[fd]
	if f == nil {
		return syscall.EBADF
	}
	task, evs := k.cross("close", f.path, 0)
	k.note(task, "close", f.path, int64(fd))
	delete(k.fds, fd)
	if f.ino != nil && f.ino.locks[f] != 0 {
		last := true
		for _, o := range k.fds {
			last = last && o != f
		}
		if last {
			delete(f.ino.locks, f)
		}
	}
	for _, e := range evs {
		switch e.Kind {
		case "crash", "power":
			k.fired(e, task, "close", f.path)
			k.crash(e)
		case "err", "eintr":
			if e.Kind == "eintr" {
				continue
			}
			if f.wrote {
				k.fired(e, task, "close", f.path)
				return syscall.Errno(e.Arg)
			}
		case "closeerr":
			// a delayed write failed: the tail is lost and close says so
			if f.wrote && f.ino != nil && f.ino.typ == "" && f.ino.dirty {
				n := len(f.ino.data) - int(e.Arg)
				if n < 0 {
					n = 0
				}
				f.ino.data = append([]byte(nil), f.ino.data[:n]...)
				k.fired(e, task, "close", f.path)
				return syscall.Errno(e.Arg2)
			}
		}
	}
	return 0
}

func (k *Kernel) read(fd uintptr, b []byte, off int64) (uintptr, syscall.Errno) {
	f := k.virt(fd)
	if f == nil {
		return 0, syscall.EBADF
	}
	if f.ino != nil && f.ino.typ == "dir" {
		return 0, syscall.EISDIR
	}
	if f.flags&oRead == 0 {
		return 0, syscall.EBADF
	}
	class := "read"
	if f.tty {
		class = "ttyread"
	}
	if f.ino != nil && f.ino.typ == "urandom" {
		n, err := k.random(b)
		if err != nil {
			return 0, syscall.EIO
		}
		return uintptr(n), 0
	}
	task, evs := k.cross(class, f.path, len(b))
	limit := len(b)
	for _, e := range evs {
		switch e.Kind {
		case "err":
			k.fired(e, task, class, f.path)
			k.note(task, "!read", f.path, e.Arg)
			return 0, syscall.Errno(e.Arg)
		case "eintr":
			k.fired(e, task, class, f.path)
			k.note(task, "!read", f.path, -1)
			return 0, syscall.EINTR
		case "short":
			if limit > int(e.Arg) && e.Arg > 0 {
				limit = int(e.Arg)
				k.fired(e, task, class, f.path)
			}
		case "full":
			k.diskFree = e.Arg
			k.fired(e, task, class, f.path)
		case "crash", "power":
			k.fired(e, task, class, f.path)
			k.crash(e)
		}
	}
	n := 0
	switch {
	case f.tty:
		n = k.ttyRead(b[:limit])
		if n < 0 {
			return 0, syscall.EIO
		}
	case f.ino == nil:
	case f.ino.typ == "null":
	case f.ino.typ == "zero":
		for i := range b[:limit] {
			b[i] = 0
		}
		n = limit
	case f.ino.typ == "fifo":
		x := f.ino
		for n == 0 && x.chunkIdx < len(x.chunks) {
			avail := x.chunks[x.chunkIdx] - x.inChunk
			start := x.inChunk
			for i := 0; i < x.chunkIdx; i++ {
				start += x.chunks[i]
			}
			if avail > limit {
				avail = limit
			}
			n = copy(b[:avail], x.data[start:])
			x.inChunk += n
			if x.inChunk >= x.chunks[x.chunkIdx] {
				x.chunkIdx++
				x.inChunk = 0
			}
			if avail <= 0 && limit == 0 {
				break
			}
		}
	default:
		o := off
		if o < 0 {
			o = f.off
		}
		if f.ino.virt > 0 {
			for ; n < limit && o+int64(n) < f.ino.virt; n++ {
				b[n] = 0
			}
		}
		if f.ino.sink != nil {
			f.ino.sink.Odd = "read back"
			return 0, syscall.EIO
		}
		if o < int64(len(f.ino.data)) {
			n = copy(b[:limit], f.ino.data[o:])
		}
		if k.req.LogReads {
			k.Resp.Reads = append(k.Resp.Reads, wire.Seg{Task: task, Op: k.OpOf[task], Path: f.path, Off: o, Data: append([]byte(nil), b[:n]...)})
		}
		if off < 0 {
			f.off += int64(n)
		}
	}
	k.note(task, class, f.path, int64(n))
	return uintptr(n), 0
}

func (k *Kernel) write(fd uintptr, b []byte, off int64) (uintptr, syscall.Errno) {
	f := k.virt(fd)
	if f == nil || f.flags&oWrite == 0 && !f.tty {
		return 0, syscall.EBADF
	}
	if f.out != nil {
		// standard output and error: collected, and a place for errors
		task, evs := k.cross("stdwrite", f.path, len(b))
		for _, e := range evs {
			switch e.Kind {
			case "err":
				k.fired(e, task, "stdwrite", f.path)
				return 0, syscall.Errno(e.Arg)
			case "crash", "power":
				k.fired(e, task, "stdwrite", f.path)
				k.crash(e)
			}
		}
		*f.out = append(*f.out, b...)
		k.note(task, "stdwrite", f.path, int64(len(b)))
		return uintptr(len(b)), 0
	}
	task, evs := k.cross("write", f.path, len(b))
	limit := len(b)
	crash := -1
	var crashEv wire.Event
	for _, e := range evs {
		switch e.Kind {
		case "err":
			k.fired(e, task, "write", f.path)
			k.note(task, "!write", f.path, e.Arg)
			return 0, syscall.Errno(e.Arg)
		case "eintr":
			k.fired(e, task, "write", f.path)
			k.note(task, "!write", f.path, -1)
			return 0, syscall.EINTR
		case "short":
			if limit > int(e.Arg) && e.Arg > 0 {
				limit = int(e.Arg)
				k.fired(e, task, "write", f.path)
			}
		case "full":
			k.diskFree = e.Arg
			k.fired(e, task, "write", f.path)
		case "crash", "power":
			k.fired(e, task, "write", f.path)
			crash = int(e.Arg)
			crashEv = e
			if crash < limit {
				limit = crash
			}
		}
	}
	if f.ino != nil && f.ino.sink != nil {
		k.sinkWrite(f, b[:limit], off)
	} else if f.ino != nil && f.ino.typ == "" {
		n := f.ino
		o := off
		if o < 0 {
			o = f.off
			if f.append {
				o = int64(len(n.data))
			}
		}
		growth := o + int64(limit) - int64(len(n.data))
		if k.diskFree >= 0 && growth > k.diskFree {
			if crash < 0 {
				k.fired(wire.Event{Task: task, Kind: "enospc"}, task, "write", f.path)
			}
			limit -= int(growth - k.diskFree)
			if limit <= 0 {
				if crash >= 0 {
					k.crash(crashEv)
				}
				k.note(task, "!write", f.path, int64(syscall.ENOSPC))
				return 0, syscall.ENOSPC
			}
			growth = k.diskFree
		}
		if k.diskFree >= 0 && growth > 0 {
			k.diskFree -= growth
		}
		end := int(o) + limit
		if end > len(n.data) {
			if int(o) == len(n.data) {
				n.data = append(n.data, b[:limit]...)
			} else {
				d := make([]byte, end)
				copy(d, n.data)
				n.data = d
			}
		}
		// durable may alias the old content: copy before overwriting in place
		if int(o) < len(n.durable) && !n.split {
			n.split = true
			n.data = append([]byte(nil), n.data...)
		}
		copy(n.data[o:end], b[:limit])
		n.dirty = true
		n.mtime = k.clock()
		f.wrote = true
		if off < 0 {
			f.off = int64(end)
		}
		if k.req.LogWrites {
			k.Resp.Writes = append(k.Resp.Writes, wire.Seg{Task: task, Op: k.OpOf[task], Path: f.path, Ino: n.id, Off: o, Mode: n.mode, Data: append([]byte(nil), b[:limit]...)})
		}
		k.exposure(n, f.path, int(o)-200, end+200)
		k.spill(f, n)
	}
	if f.ino != nil && f.ino.typ != "" && f.ino.typ != "null" && f.ino.typ != "proc" {
		return 0, syscall.EPIPE
	}
	k.note(task, "write", f.path, int64(limit))
	if crash >= 0 {
		k.crash(crashEv)
	}
	return uintptr(limit), 0
}

// exposure notes files that hold secret key material while, or after having
// been, accessible to group or others.
func (k *Kernel) exposure(n *inode, path string, from, to int) {
	if !n.everPublic || n.typ != "" {
		return
	}
	if from < 0 {
		from = 0
	}
	if to > len(n.data) {
		to = len(n.data)
	}
	d := n.data[from:to]
	i := bytes.Index(d, []byte("RWRCS")) // base64 of "EdBK"
	if i < 0 || len(d)-i < 60 {
		return
	}
	for _, x := range k.Resp.Exposed {
		if x == path {
			return
		}
	}
	k.Resp.Exposed = append(k.Resp.Exposed, path)
}

// flock is a lock on an open file. A task that has to wait looks again every
// so often; if the lock is never given back it runs out of steps.
func (k *Kernel) flock(f *ofile, how int) syscall.Errno {
	for {
		task, evs := k.cross("flock", f.path, 0)
		k.note(task, "flock", f.path, int64(how))
		for _, e := range evs {
			switch e.Kind {
			case "err":
				k.fired(e, task, "flock", f.path)
				return syscall.Errno(e.Arg)
			case "eintr":
				k.fired(e, task, "flock", f.path)
				return syscall.EINTR
			case "crash", "power":
				k.fired(e, task, "flock", f.path)
				k.crash(e)
			}
		}
		want := how & 3
		if how&8 != 0 {
			delete(f.ino.locks, f)
			return 0
		}
		if want != 1 && want != 2 {
			return syscall.EINVAL
		}
		free := true
		for o, held := range f.ino.locks {
			free = free && (o == f || want == 1 && held == 1)
		}
		if free {
			if f.ino.locks == nil {
				f.ino.locks = map[*ofile]int{}
			}
			f.ino.locks[f] = want
			return 0
		}
		if how&4 != 0 {
			return syscall.EWOULDBLOCK
		}
		k.sleeping = 100000
	}
}

func (k *Kernel) unlink(p string, dir bool) syscall.Errno {
	n, d, name, e := k.resolve(p, false)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return e
	}
	if n.typ == "dir" != dir {
		if dir {
			return syscall.ENOTDIR
		}
		return syscall.EISDIR
	}
	if dir && len(n.kids) > 0 {
		return syscall.ENOTEMPTY
	}
	delete(d.kids, name)
	k.meta = append(k.meta, metaOp{func() { d.kids[name] = n }})
	return 0
}

func (k *Kernel) rename(from, to string, noreplace bool) syscall.Errno {
	n, d1, n1, e := k.resolve(from, false)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return e
	}
	x, d2, n2, e := k.resolve(to, false)
	if e != 0 {
		return e
	}
	if x != nil && noreplace {
		return syscall.EEXIST
	}
	if x != nil && (x.typ == "dir") != (n.typ == "dir") {
		if x.typ == "dir" {
			return syscall.EISDIR
		}
		return syscall.ENOTDIR
	}
	delete(d1.kids, n1)
	d2.kids[n2] = n
	k.meta = append(k.meta, metaOp{func() {
		if x != nil {
			d2.kids[n2] = x
		} else {
			delete(d2.kids, n2)
		}
		d1.kids[n1] = n
	}})
	return 0
}

func (k *Kernel) fillStat(buf uintptr, n *inode) {
	var st syscall.Stat_t
	st.Nlink = 1
	st.Blksize = 4096
	st.Ino = 1
	if n == nil {
		st.Mode = syscall.S_IFCHR | 0620
	} else {
		st.Ino = uint64(n.id)
		st.Mtim = syscall.NsecToTimespec(k.epoch() + n.mtime)
		st.Mode = n.mode
		switch n.typ {
		case "", "zeros":
			st.Mode |= syscall.S_IFREG
			st.Size = n.size()
		case "proc":
			st.Mode |= syscall.S_IFREG
		case "sys":
			st.Mode |= syscall.S_IFREG
			st.Size = 4096
		case "dir":
			st.Mode |= syscall.S_IFDIR
			st.Size = 4096
		case "fifo":
			st.Mode |= syscall.S_IFIFO
		case "link":
			st.Mode |= syscall.S_IFLNK
			st.Size = int64(len(n.data))
		default:
			st.Mode |= syscall.S_IFCHR
		}
		st.Blocks = (st.Size + 511) / 512
	}
	*(*syscall.Stat_t)(ptr(buf)) = st
}

func (k *Kernel) getdents(f *ofile, b []byte) uintptr {
	names := make([]string, 0, len(f.ino.kids))
	for n := range f.ino.kids {
		names = append(names, n)
	}
	sort.Strings(names)
	out := 0
	for f.dirOff < len(names) {
		name := names[f.dirOff]
		n := f.ino.kids[name]
		reclen := (19 + len(name) + 1 + 7) &^ 7
		if out+reclen > len(b) {
			break
		}
		r := b[out : out+reclen]
		for i := range r {
			r[i] = 0
		}
		binary.LittleEndian.PutUint64(r, uint64(n.id))
		binary.LittleEndian.PutUint64(r[8:], uint64(f.dirOff+1))
		binary.LittleEndian.PutUint16(r[16:], uint16(reclen))
		r[18] = 8
		if n.typ == "dir" {
			r[18] = 4
		}
		copy(r[19:], name)
		out += reclen
		f.dirOff++
	}
	return uintptr(out)
}

// ---- terminal ----

func (k *Kernel) ioctl(fd, reqno, arg uintptr) (uintptr, syscall.Errno, bool) {
	f := k.virt(fd)
	if f == nil {
		return 0, syscall.EBADF, true
	}
	if !f.tty || !k.req.HaveTTY {
		return 0, syscall.ENOTTY, true
	}
	if _, e := k.simple("ioctl", f.path, true); e != 0 {
		return 0, e, true
	}
	switch reqno {
	case 0x5401: // TCGETS
		copy(mem(arg, 36), k.termios[:36])
		return 0, 0, true
	case 0x5402, 0x5403, 0x5404: // TCSETS, TCSETSW, TCSETSF
		copy(k.termios[:36], mem(arg, 36))
		return 0, 0, true
	case 0x5413:
		return 0, syscall.ENOTTY, true
	}
	return 0, syscall.ENOTTY, true
}

func (k *Kernel) ttyRead(b []byte) int {
	if !k.req.HaveTTY {
		return 0
	}
	k.Resp.TTYReads++
	if k.termios[12]&0x08 != 0 {
		k.Resp.TTYEchoed = true
	}
	for k.ttyIdx < len(k.tty) {
		c := k.tty[k.ttyIdx]
		if k.ttyOff < len(c) {
			n := copy(b, c[k.ttyOff:])
			k.ttyOff += n
			return n
		}
		k.ttyIdx++
		k.ttyOff = 0
	}
	if k.req.TTYEof {
		// A hung-up terminal.  A program that keeps reading one is spinning.
		if k.ttyEOFs++; k.ttyEOFs > 2000 {
			k.Finish("steplimit", "ttyread <stdin>", 0)
		}
		return 0
	}
	// The user never types anything more: the read never completes.  The
	// program can only be ended from outside.
	k.Finish("ttywait", "", 0)
	return 0
}

// ---- randomness ----

// Rand is the simulated randomness source; it is an io.Reader.
type Rand struct{ K *Kernel }

func (r Rand) Read(p []byte) (int, error) {
	r.K.mu.Lock()
	defer r.K.mu.Unlock()
	return r.K.random(p)
}

// random is one request to the randomness source, with the kernel locked.
func (k *Kernel) random(p []byte) (int, error) {
	task, evs := k.cross("rand", "", len(p))
	limit := len(p)
	for _, e := range evs {
		switch e.Kind {
		case "err":
			k.fired(e, task, "rand", "")
			k.note(task, "!rand", "", 0)
			return 0, io.ErrNoProgress
		case "short":
			if limit > int(e.Arg) && e.Arg > 0 {
				limit = int(e.Arg)
				k.fired(e, task, "rand", "")
			}
		case "full":
			k.diskFree = e.Arg
			k.fired(e, task, "rand", "")
		case "crash", "power":
			k.fired(e, task, "rand", "")
			k.crash(e)
		}
	}
	k.fill(task, p[:limit])
	return limit, nil
}

// fill draws random bytes.
func (k *Kernel) fill(task int, b []byte) {
	var in [12]byte
	binary.BigEndian.PutUint32(in[:], uint32(task))
	for done := 0; done < len(b); {
		binary.BigEndian.PutUint64(in[4:], uint64(k.entropyN[task]))
		k.entropyN[task]++
		h := sha256.Sum256(append(append([]byte(nil), k.req.Entropy...), in[:]...))
		done += copy(b[done:], h[:])
	}
	k.Resp.RandLog = append(k.Resp.RandLog, wire.Seg{Task: task, Op: k.OpOf[task], Data: append([]byte(nil), b...)})
	k.note(task, "rand", "", int64(len(b)))
}
