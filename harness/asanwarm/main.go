// asanwarm is built with the address sanitizer before a check, which leaves the
// standard library so built in the Go cache, and run, which tells if that works here.
package main

/*
#include <stdlib.h>
#include <string.h>
static int use(int *p, int n) { int s = 0; for (int i = 0; i < n; i++) s += p[i]; return s; }
*/
import "C"

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

func main() {
	p := C.calloc(4, 4)
	if C.use((*C.int)(p), 4) != 0 {
		os.Exit(1)
	}
	C.free(unsafe.Pointer(p))
	var wg sync.WaitGroup
	var n atomic.Int32
	wg.Add(1)
	go func() { n.Add(1); wg.Done() }()
	wg.Wait()
	runtime.GC()
	debug.SetGCPercent(50)
	s := []string{strconv.Itoa(int(math.Sqrt(4))), strings.Repeat("a", 2), string(bytes.TrimSpace([]byte(" x ")))}
	sort.Strings(s)
	w := bufio.NewWriter(os.Stdout)
	fmt.Fprintln(w, s, errors.New("x"), time.Second)
	w.Flush()
}
