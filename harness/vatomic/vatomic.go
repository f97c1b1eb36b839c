//go:build go1.25

// Package vatomic stands for package sync/atomic in the files under test when schedules are explored: another
// goroutine may go on before each operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/unit-io/unitdb/server/zzverif/vsync"
)

type (
	// Bool and the other types are those of package sync/atomic.
	Bool           = atomic.Bool
	Int32          = atomic.Int32
	Int64          = atomic.Int64
	Uint32         = atomic.Uint32
	Uint64         = atomic.Uint64
	Uintptr        = atomic.Uintptr
	Value          = atomic.Value
	Pointer[T any] = atomic.Pointer[T]
)

// LoadInt32 is that of package sync/atomic.
func LoadInt32(addr *int32) int32 {
	vsync.Yield()
	return atomic.LoadInt32(addr)
}

// StoreInt32 is that of package sync/atomic.
func StoreInt32(addr *int32, val int32) {
	vsync.Yield()
	atomic.StoreInt32(addr, val)
}

// SwapInt32 is that of package sync/atomic.
func SwapInt32(addr *int32, new int32) int32 {
	vsync.Yield()
	return atomic.SwapInt32(addr, new)
}

// CompareAndSwapInt32 is that of package sync/atomic.
func CompareAndSwapInt32(addr *int32, old, new int32) bool {
	vsync.Yield()
	return atomic.CompareAndSwapInt32(addr, old, new)
}

// AddInt32 is that of package sync/atomic.
func AddInt32(addr *int32, delta int32) int32 {
	vsync.Yield()
	return atomic.AddInt32(addr, delta)
}

// AndInt32 is that of package sync/atomic.
func AndInt32(addr *int32, mask int32) int32 {
	vsync.Yield()
	return atomic.AndInt32(addr, mask)
}

// OrInt32 is that of package sync/atomic.
func OrInt32(addr *int32, mask int32) int32 {
	vsync.Yield()
	return atomic.OrInt32(addr, mask)
}

// LoadInt64 is that of package sync/atomic.
func LoadInt64(addr *int64) int64 {
	vsync.Yield()
	return atomic.LoadInt64(addr)
}

// StoreInt64 is that of package sync/atomic.
func StoreInt64(addr *int64, val int64) {
	vsync.Yield()
	atomic.StoreInt64(addr, val)
}

// SwapInt64 is that of package sync/atomic.
func SwapInt64(addr *int64, new int64) int64 {
	vsync.Yield()
	return atomic.SwapInt64(addr, new)
}

// CompareAndSwapInt64 is that of package sync/atomic.
func CompareAndSwapInt64(addr *int64, old, new int64) bool {
	vsync.Yield()
	return atomic.CompareAndSwapInt64(addr, old, new)
}

// AddInt64 is that of package sync/atomic.
func AddInt64(addr *int64, delta int64) int64 {
	vsync.Yield()
	return atomic.AddInt64(addr, delta)
}

// AndInt64 is that of package sync/atomic.
func AndInt64(addr *int64, mask int64) int64 {
	vsync.Yield()
	return atomic.AndInt64(addr, mask)
}

// OrInt64 is that of package sync/atomic.
func OrInt64(addr *int64, mask int64) int64 {
	vsync.Yield()
	return atomic.OrInt64(addr, mask)
}

// LoadUint32 is that of package sync/atomic.
func LoadUint32(addr *uint32) uint32 {
	vsync.Yield()
	return atomic.LoadUint32(addr)
}

// StoreUint32 is that of package sync/atomic.
func StoreUint32(addr *uint32, val uint32) {
	vsync.Yield()
	atomic.StoreUint32(addr, val)
}

// SwapUint32 is that of package sync/atomic.
func SwapUint32(addr *uint32, new uint32) uint32 {
	vsync.Yield()
	return atomic.SwapUint32(addr, new)
}

// CompareAndSwapUint32 is that of package sync/atomic.
func CompareAndSwapUint32(addr *uint32, old, new uint32) bool {
	vsync.Yield()
	return atomic.CompareAndSwapUint32(addr, old, new)
}

// AddUint32 is that of package sync/atomic.
func AddUint32(addr *uint32, delta uint32) uint32 {
	vsync.Yield()
	return atomic.AddUint32(addr, delta)
}

// AndUint32 is that of package sync/atomic.
func AndUint32(addr *uint32, mask uint32) uint32 {
	vsync.Yield()
	return atomic.AndUint32(addr, mask)
}

// OrUint32 is that of package sync/atomic.
func OrUint32(addr *uint32, mask uint32) uint32 {
	vsync.Yield()
	return atomic.OrUint32(addr, mask)
}

// LoadUint64 is that of package sync/atomic.
func LoadUint64(addr *uint64) uint64 {
	vsync.Yield()
	return atomic.LoadUint64(addr)
}

// StoreUint64 is that of package sync/atomic.
func StoreUint64(addr *uint64, val uint64) {
	vsync.Yield()
	atomic.StoreUint64(addr, val)
}

// SwapUint64 is that of package sync/atomic.
func SwapUint64(addr *uint64, new uint64) uint64 {
	vsync.Yield()
	return atomic.SwapUint64(addr, new)
}

// CompareAndSwapUint64 is that of package sync/atomic.
func CompareAndSwapUint64(addr *uint64, old, new uint64) bool {
	vsync.Yield()
	return atomic.CompareAndSwapUint64(addr, old, new)
}

// AddUint64 is that of package sync/atomic.
func AddUint64(addr *uint64, delta uint64) uint64 {
	vsync.Yield()
	return atomic.AddUint64(addr, delta)
}

// AndUint64 is that of package sync/atomic.
func AndUint64(addr *uint64, mask uint64) uint64 {
	vsync.Yield()
	return atomic.AndUint64(addr, mask)
}

// OrUint64 is that of package sync/atomic.
func OrUint64(addr *uint64, mask uint64) uint64 {
	vsync.Yield()
	return atomic.OrUint64(addr, mask)
}

// LoadUintptr is that of package sync/atomic.
func LoadUintptr(addr *uintptr) uintptr {
	vsync.Yield()
	return atomic.LoadUintptr(addr)
}

// StoreUintptr is that of package sync/atomic.
func StoreUintptr(addr *uintptr, val uintptr) {
	vsync.Yield()
	atomic.StoreUintptr(addr, val)
}

// SwapUintptr is that of package sync/atomic.
func SwapUintptr(addr *uintptr, new uintptr) uintptr {
	vsync.Yield()
	return atomic.SwapUintptr(addr, new)
}

// CompareAndSwapUintptr is that of package sync/atomic.
func CompareAndSwapUintptr(addr *uintptr, old, new uintptr) bool {
	vsync.Yield()
	return atomic.CompareAndSwapUintptr(addr, old, new)
}

// AddUintptr is that of package sync/atomic.
func AddUintptr(addr *uintptr, delta uintptr) uintptr {
	vsync.Yield()
	return atomic.AddUintptr(addr, delta)
}

// AndUintptr is that of package sync/atomic.
func AndUintptr(addr *uintptr, mask uintptr) uintptr {
	vsync.Yield()
	return atomic.AndUintptr(addr, mask)
}

// OrUintptr is that of package sync/atomic.
func OrUintptr(addr *uintptr, mask uintptr) uintptr {
	vsync.Yield()
	return atomic.OrUintptr(addr, mask)
}

// LoadPointer is that of package sync/atomic.
func LoadPointer(addr *unsafe.Pointer) unsafe.Pointer {
	vsync.Yield()
	return atomic.LoadPointer(addr)
}

// StorePointer is that of package sync/atomic.
func StorePointer(addr *unsafe.Pointer, val unsafe.Pointer) {
	vsync.Yield()
	atomic.StorePointer(addr, val)
}

// SwapPointer is that of package sync/atomic.
func SwapPointer(addr *unsafe.Pointer, new unsafe.Pointer) unsafe.Pointer {
	vsync.Yield()
	return atomic.SwapPointer(addr, new)
}

// CompareAndSwapPointer is that of package sync/atomic.
func CompareAndSwapPointer(addr *unsafe.Pointer, old, new unsafe.Pointer) bool {
	vsync.Yield()
	return atomic.CompareAndSwapPointer(addr, old, new)
}
