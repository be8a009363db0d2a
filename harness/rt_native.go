package skipmap

// Native counterparts of rt_sym.go: they replay one recorded counterexample.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/bits"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"MODULE/zzverif/sched"
)

type vReplayFile struct {
	Entry  string
	Params map[string]string
	Inputs map[string]interface{}
	Draws  map[string][]json.Number
	Sched  []sched.Seg
}

type vOutcome struct {
	Kind, Msg string
}

var (
	vFile     vReplayFile
	vMu       sync.Mutex
	vOutcomes []vOutcome
	vTokens   = map[int]*int32{}
	vObserved []string
)

func vFail(kind, msg string) {
	vMu.Lock()
	vOutcomes = append(vOutcomes, vOutcome{kind, msg})
	vMu.Unlock()
}

func vFinish(done bool) {
	if done {
		vFail("end", "")
	}
	vMu.Lock()
	for _, o := range vObserved {
		vOutcomes = append(vOutcomes, vOutcome{"obs", o})
	}
	b, _ := json.Marshal(vOutcomes)
	os.WriteFile(os.Getenv("VERIF_OUT"), b, 0o644)
	os.Exit(0)
}

func TestVerifReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		t.Fatal(err)
	}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&vFile); err != nil {
		t.Fatal(err)
	}
	sched.Draws = map[int][]int64{}
	for k, v := range vFile.Draws {
		id, _ := strconv.Atoi(k)
		for _, n := range v {
			x, _ := n.Int64()
			sched.Draws[id] = append(sched.Draws[id], x)
		}
	}
	sched.Trouble = func(kind, msg string) {
		vFail(kind, msg)
		vFinish(false)
	}
	time.AfterFunc(20*time.Second, func() {
		vFail("livelock", "no end after 20 s")
		vFinish(false)
	})
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 8192)
			vFail("panic", fmt.Sprint(r, "\n", string(buf[:runtime.Stack(buf, false)])))
			vFinish(false)
		}
	}()
	vEntries[vFile.Entry]()
	vFinish(true)
}

func vInput(label string) (json.Number, bool) {
	x, ok := vFile.Inputs[label]
	if !ok || x == nil {
		return "", false
	}
	n, ok := x.(json.Number)
	return n, ok
}

func vInt(label string, lo, hi int) int {
	if n, ok := vInput(label); ok {
		v, _ := n.Int64()
		return int(v)
	}
	return lo
}

func vPick(label string, mask int) int {
	if n, ok := vInput(label); ok {
		v, _ := n.Int64()
		return int(v)
	}
	return bits.TrailingZeros(uint(mask))
}

func vBool(label string) bool {
	b, _ := vFile.Inputs[label].(bool)
	return b
}

func vNondet[T any](label string) (t T) {
	rv := reflect.ValueOf(&t).Elem()
	var raw int64
	if n, ok := vInput(label); ok {
		raw, _ = n.Int64()
	}
	switch rv.Kind() {
	case reflect.Bool:
		rv.SetBool(vBool(label))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(raw)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		rv.SetUint(uint64(raw) & (^uint64(0) >> (64 - rv.Type().Bits())))
	case reflect.Float64:
		rv.SetFloat(math.Float64frombits(uint64(raw)))
	case reflect.Float32:
		*(*float32)(rv.Addr().UnsafePointer()) = math.Float32frombits(uint32(raw))
	case reflect.String:
		switch x := vFile.Inputs[label].(type) {
		case string:
			rv.SetString(x)
		case []interface{}:
			var bs []byte
			for _, y := range x {
				n, _ := y.(json.Number).Int64()
				bs = append(bs, byte(n))
			}
			rv.SetString(string(bs))
		}
	}
	return
}

func vAssume(c bool) {
	if !c {
		vFail("assume", "an assumption does not hold in the replay")
		vFinish(false)
	}
}

func vAssert(c bool, label string) {
	if !c {
		vFail("assert", label)
	}
}

func vReach(label string) {}

// vObs records a result, to be compared with the one the symbolic execution predicts.
func vObs(label string, x int, ok bool) {
	vMu.Lock()
	vObserved = append(vObserved, fmt.Sprintf("%d %s %d %v", sched.Current(), label, x, ok))
	vMu.Unlock()
}
func vYield()             { sched.Point() }
func vAnd(a, b bool) bool { return a && b }
func vOr(a, b bool) bool  { return a || b }
func vNot(a bool) bool    { return !a }
func vEqB(a, b bool) bool { return a == b }
func vIte(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func vParam(name string) string { return vFile.Params[name] }
func vParamInt(name string) int {
	n, _ := strconv.ParseInt(vFile.Params[name], 0, 64)
	return int(n)
}
func vLevels(mask int) {}

// vCost gives the number of atomic operations since it was last asked.
func vCost() int         { return sched.Cost() }
func vItoa(n int) string { return strconv.Itoa(n) }
func vOp()               {}

func vParallel(s string, stall bool, fs []func()) {
	r := sched.Par(s, vFile.Sched, stall, fs)
	last := len(fs) - 1
	bad := false
	for i := range fs {
		if r.Panic[i] != nil {
			vFail("panic", fmt.Sprint(r.Panic[i]))
			bad = true
		}
	}
	if stall {
		if !bad && !r.Done[last] && r.Blocked[last] {
			vFail("blocked", "the last goroutine waits for a lock held by a stopped goroutine")
			bad = true
		}
		if !bad && !r.Done[last] {
			vFail("livelock", "the last goroutine does not end")
			bad = true
		}
	} else if !bad {
		for i := range fs {
			if !r.Done[i] {
				vFail("deadlock", fmt.Sprintf("goroutine %d waits for a lock for ever", i))
				bad = true
			}
		}
	}
	if bad {
		vFinish(false)
	}
}

func vPar(s string, fs ...func())   { vParallel(s, false, fs) }
func vStall(s string, fs ...func()) { vParallel(s, true, fs) }

//go:noinline
func vToken(id int) *int64 {
	// not a tiny object: those share blocks, which keep one another alive
	p := new([8]int64)
	p[0] = int64(id) + 1
	gone := new(int32)
	vTokens[id] = gone
	runtime.SetFinalizer(p, func(*[8]int64) { vMu.Lock(); *gone = 1; vMu.Unlock() })
	return &p[0]
}

//go:noinline
func vClobber(n int) int {
	var a [512]int
	for i := range a {
		a[i] = n + i
	}
	if n > 0 {
		return vClobber(n-1) + a[n]
	}
	return a[0]
}

func vRetained(m interface{}, id int) bool {
	for i := 0; i < 20; i++ {
		vClobber(8)
		runtime.GC()
		time.Sleep(2 * time.Millisecond)
		vMu.Lock()
		g := *vTokens[id]
		vMu.Unlock()
		if g != 0 {
			runtime.KeepAlive(m)
			return false
		}
	}
	runtime.KeepAlive(m)
	return true
}
