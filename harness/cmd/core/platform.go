package main

import (
	"runtime"
	"strings"
	"unsafe"

	"verif/harness/mon"
)

func init() { props["C28"] = c28 }

// The monitors whose oracle is the reference model, which does not depend on the platform.
var platformSubs = []string{"C01", "C02", "C03", "C04", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C26", "C29", "C30", "C32"}

func c28(r *mon.Run) {
	x := uint16(0x0102)
	big := *(*byte)(unsafe.Pointer(&x)) == 1
	if big != strings.HasPrefix(r.Config, "mips") {
		panic("the machine has not the byte order it should have: " + runtime.GOARCH)
	}
	r.Count(map[bool]string{true: "big-endian", false: "little-endian"}[big]+" machine", 1)
	r.CountMax("word size in bits", int64(8*unsafe.Sizeof(uintptr(0))))
	for _, s := range platformSubs {
		r.Sub = s
		props[s](r)
	}
	r.Sub = ""
}
