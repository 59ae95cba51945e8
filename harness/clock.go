package main

import (
	"syscall"
	"unsafe"
)

func uintptrOf(ts *syscall.Timespec) uintptr { return uintptr(unsafe.Pointer(ts)) }
