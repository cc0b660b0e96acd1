package core

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
)

// Objects counts the objects on the heap by the function of the code under test that
// allocated them, itself or through the standard library. The process must have set
// runtime.MemProfileRate to 1 before.
func Objects() map[string]int64 {
	return inUse((*runtime.MemProfileRecord).InUseObjects)
}

// Bytes is like Objects, but counts the bytes.
func Bytes() map[string]int64 {
	return inUse((*runtime.MemProfileRecord).InUseBytes)
}

func inUse(what func(*runtime.MemProfileRecord) int64) map[string]int64 {
	// two cycles, so that the profile is up to date and finalizers have run
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var recs []runtime.MemProfileRecord
	n, ok := runtime.MemProfile(nil, false)
	for !ok {
		recs = make([]runtime.MemProfileRecord, n+500)
		n, ok = runtime.MemProfile(recs, false)
	}
	out := map[string]int64{}
	for i := range recs[:n] {
		if site := site(recs[i].Stack()); site != "" {
			out[site] += what(&recs[i])
		}
	}
	return out
}

func site(stack []uintptr) string {
	frames := runtime.CallersFrames(stack)
	for {
		f, more := frames.Next()
		if strings.HasPrefix(f.Function, "github.com/kgantsov/doq/") {
			return strings.TrimPrefix(f.Function, "github.com/kgantsov/doq/")
		}
		switch f.Function {
		case "runtime.acquireSudog", "runtime.newproc", "runtime.newproc1", "runtime.malg", "runtime.newdefer":
			// kept by the runtime, for the next goroutine
			return ""
		}
		first, _, _ := strings.Cut(f.Function, "/")
		if strings.HasPrefix(f.Function, "main.") || strings.HasPrefix(first, "doqverif") || strings.Contains(first, ".") && strings.Contains(f.Function, "/") {
			return ""
		}
		if !more {
			return ""
		}
	}
}

// Grown tells which functions have more than before, by more than the limit.
func Grown(before, after map[string]int64, limit int64, unit string) (out []string) {
	for k, v := range after {
		if v-before[k] > limit {
			out = append(out, fmt.Sprintf("%s: %d %s, %d before", k, v, unit, before[k]))
		}
	}
	sort.Strings(out)
	return
}
