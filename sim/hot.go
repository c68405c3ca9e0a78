package main

import (
	"bytes"
	"debug/elf"
	"os"
	"sort"
	"strings"
	"unsafe"

	"github.com/mjarkk/yarql/verifsim"
)

// Where does a request change the library's package-level memory? Such state is
// shared by all copies, so that the statement after the change is where another
// request has to run to meet it half done. This only guides the scheduler: a
// violation is still a request that gets another answer, or a data race.

var hotRanges [][]byte // the library's package variables
var hotShadow [][]byte
var hotSites map[int]bool
var hotLoaded bool

//go:nocheckptr
func loadHot() {
	if hotLoaded {
		return
	}
	hotLoaded = true
	self, err := os.Executable()
	if err != nil {
		return
	}
	f, err := elf.Open(self)
	if err != nil {
		return
	}
	defer f.Close()
	syms, err := f.Symbols()
	if err != nil || f.Type != elf.ET_EXEC {
		return
	}
	for _, s := range syms {
		if !strings.HasPrefix(s.Name, "github.com/mjarkk/yarql") || strings.Contains(s.Name, "/verifsim.") || strings.Contains(s.Name, "..") || s.Size == 0 || s.Size > 1<<16 {
			continue
		}
		if int(s.Section) >= len(f.Sections) {
			continue
		}
		switch sec := f.Sections[s.Section]; {
		case elf.ST_TYPE(s.Info) != elf.STT_OBJECT, sec.Flags&elf.SHF_WRITE == 0:
			continue
		}
		hotRanges = append(hotRanges, unsafe.Slice((*byte)(unsafe.Pointer(uintptr(s.Value))), int(s.Size)))
		hotShadow = append(hotShadow, make([]byte, s.Size))
	}
}

//go:norace
func startHot() {
	loadHot()
	for i := range hotRanges {
		copyQuiet(hotShadow[i], hotRanges[i])
	}
	if hotSites == nil {
		hotSites = map[int]bool{}
	}
	cur.watch = true
}

//go:norace
func copyQuiet(a, b []byte) {
	for i := range a {
		a[i] = b[i]
	}
}

// checkHot is called before a statement.
//
//go:norace
func checkHot(site int) {
	for i, g := range hotRanges {
		if !bytes.Equal(g, hotShadow[i]) {
			copyQuiet(hotShadow[i], g)
			hotSites[site] = true
		}
	}
}

// stopHot returns the statements before which package-level memory had changed.
func stopHot() []int {
	cur.watch = false
	verifsim.Next = never
	var l []int
	for s := range hotSites {
		l = append(l, s)
	}
	hotSites = nil
	sort.Ints(l)
	return l
}
