package main

import (
	"syscall"
	"unsafe"
)

func uintptrOf(ts *syscall.Timespec) uintptr { return uintptr(unsafe.Pointer(ts)) }

func uintptrOfBytes(b *[64]byte) uintptr { return uintptr(unsafe.Pointer(b)) }
