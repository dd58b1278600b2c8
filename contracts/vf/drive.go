package vf

// Execution of contracts against the running code.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Ctx is one execution.
type Ctx struct {
	G      *Gen
	in     string
	out    string
	skip   bool
	called bool
	frame  []string
}

// Case is one function with its contract.
type Case struct {
	Name string
	Run  func(c *Ctx)
}

// In records the inputs.
func (c *Ctx) In(vs ...interface{}) { c.in = Show(vs...) }

// Out records the results.
func (c *Ctx) Out(vs ...interface{}) { c.out = Show(vs...) }

// Call marks the start of the call under test.
func (c *Ctx) Call() { c.called, Called = true, true }

// Skip: the precondition does not hold.
func (c *Ctx) Skip() { c.skip = true }

// Frame reports whether the inputs were left alone.
func (c *Ctx) Frame(before string, vs ...interface{}) {
	if after := show(vs, true); after != before {
		Fails = append(Fails, "frame: only declared locations change")
	}
}

// Before is the state of the inputs, spare capacity included.
func (c *Ctx) Before(vs ...interface{}) string { return show(vs, true) }

type outcome struct {
	Fn    string   `json:"fn"`
	Seed  uint64   `json:"seed"`
	Size  int      `json:"size"`
	Fails []string `json:"fails"`
	In    string   `json:"in"`
	Out   string   `json:"out"`
	Sum   bool     `json:"sum"`
	Ran   int      `json:"ran"`
	Skip  int      `json:"skipped"`
	Dist  int      `json:"distinct"`
	Gen   string   `json:"genpanic"`
}

func emit(o outcome) {
	b, _ := json.Marshal(o)
	os.Stdout.WriteString("\nVF " + string(b) + "\n")
}

func relevant(label, prop string) bool {
	if prop == "" || !strings.HasPrefix(label, "@") {
		return true
	}
	tag := label
	if i := strings.IndexByte(label, ' '); i >= 0 {
		tag = label[:i]
	}
	return strings.Contains(tag, "@"+prop)
}

func once(cs Case, seed uint64, size int, prop string) (c *Ctx, fails []string) {
	Called = false
	c = &Ctx{G: NewGen(seed, size)}
	c.G.Ints, c.G.Strs = constInts, constStrs
	Fails = nil
	func() {
		defer func() {
			if r := recover(); r != nil {
				if !c.called {
					c.skip = true
					genPanic = fmt.Sprint(r)
					return
				}
				Fails = append(Fails, "panics: "+fmt.Sprint(r))
			}
		}()
		cs.Run(c)
	}()
	if c.skip {
		return c, nil
	}
	for _, f := range Fails {
		if relevant(f, prop) {
			fails = append(fails, f)
		}
	}
	return c, fails
}

var genPanic string // last panic raised while inputs were being made

var (
	constInts []int64
	constStrs []string
)

// Drive runs the cases named by the environment and prints what it found.
func Drive(cases []Case, ints []int64, strs []string) {
	log.SetOutput(io.Discard)
	constInts, constStrs = ints, strs
	want := map[string]bool{}
	for _, n := range strings.Split(os.Getenv("VF_CASES"), ",") {
		want[n] = true
	}
	base, _ := strconv.ParseUint(os.Getenv("VF_SEED"), 10, 64)
	ms, _ := strconv.Atoi(os.Getenv("VF_MS"))
	max, _ := strconv.Atoi(os.Getenv("VF_MAX"))
	prop := os.Getenv("VF_PROP")
	one := os.Getenv("VF_ONE")
	var cur atomic.Value
	var began int64
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			b := atomic.LoadInt64(&began)
			if b != 0 && time.Now().UnixNano()-b > int64(10*time.Second) {
				o := cur.Load().(outcome)
				o.Fails = []string{"does not return within 10 s"}
				emit(o)
				os.Exit(3)
			}
		}
	}()
	for _, cs := range cases {
		if !want[cs.Name] {
			continue
		}
		if one != "" {
			var seed uint64
			var size int
			fmt.Sscanf(one, "%d/%d", &seed, &size)
			cur.Store(outcome{Fn: cs.Name, Seed: seed, Size: size})
			atomic.StoreInt64(&began, time.Now().UnixNano())
			c, fails := once(cs, seed, size, prop)
			atomic.StoreInt64(&began, 0)
			emit(outcome{Fn: cs.Name, Seed: seed, Size: size, Fails: fails, In: c.in, Out: c.out})
			continue
		}
		t0 := time.Now()
		sum := outcome{Fn: cs.Name, Sum: true}
		seen := map[uint64]bool{}
		got := map[string]bool{}
		for i := 0; i < max && time.Since(t0) < time.Duration(ms)*time.Millisecond; i++ {
			seed := base*1000003 + uint64(i)
			size := 1 + i/40
			if size > 48 {
				size = 1 + i%64
			}
			cur.Store(outcome{Fn: cs.Name, Seed: seed, Size: size})
			atomic.StoreInt64(&began, time.Now().UnixNano())
			c, fails := once(cs, seed, size, prop)
			atomic.StoreInt64(&began, 0)
			if c.skip {
				sum.Skip++
				continue
			}
			sum.Ran++
			h := fnv.New64a()
			h.Write([]byte(c.in))
			if !seen[h.Sum64()] {
				seen[h.Sum64()] = true
				sum.Dist++
				if sum.Dist == 7 {
					sum.In, sum.Out = c.in, c.out
				}
			}
			k := strings.Join(fails, "|")
			if len(k) > 0 && !got[k] {
				got[k] = true
				emit(outcome{Fn: cs.Name, Seed: seed, Size: size, Fails: fails, In: c.in, Out: c.out})
				if len(got) >= 6 {
					break
				}
			}
		}
		sum.Gen = genPanic
		emit(sum)
	}
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

// Show prints values, following pointers.
func Show(vs ...interface{}) string { return show(vs, false) }

func show(vs []interface{}, spare bool) string {
	p := &shower{spare: spare, seen: map[uintptr]bool{}}
	for i, v := range vs {
		if i > 0 {
			p.b.WriteString(", ")
		}
		if v == nil {
			p.b.WriteString("nil")
			continue
		}
		p.val(reflect.ValueOf(v), 0)
	}
	return p.b.String()
}

type shower struct {
	b     strings.Builder
	spare bool
	seen  map[uintptr]bool
}

func (p *shower) val(v reflect.Value, depth int) {
	if p.b.Len() > 20000 || depth > 12 {
		p.b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(&p.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(&p.b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(&p.b, v.Uint())
	case reflect.String:
		p.b.WriteString(strconv.Quote(v.String()))
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(&p.b, v.Float())
	case reflect.Ptr:
		if v.IsNil() {
			p.b.WriteString("nil")
			return
		}
		if v.Type().Elem().PkgPath() == "net" || strings.HasPrefix(v.Type().Elem().PkgPath(), "bufio") || strings.HasPrefix(v.Type().Elem().PkgPath(), "sync") {
			p.b.WriteString("&" + v.Type().Elem().String())
			if v.Type() == reflect.TypeOf((*bufio.Reader)(nil)) {
				if v.CanInterface() {
					p.b.WriteString("(" + strconv.Quote(Stream(v.Interface().(*bufio.Reader))) + ")")
				} else {
					p.b.WriteString("(" + strconv.Quote(Stream((*bufio.Reader)(unsafe.Pointer(v.Pointer())))) + ")")
				}
			}
			return
		}
		if p.seen[v.Pointer()] {
			p.b.WriteString("&<again>")
			return
		}
		p.seen[v.Pointer()] = true
		p.b.WriteByte('&')
		p.val(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			p.b.WriteString("nil")
			return
		}
		if e := v.Elem(); e.Kind() == reflect.Ptr && e.Type().Implements(errType) {
			if e.Elem().Kind() == reflect.Struct && e.Elem().NumField() > 0 && e.Elem().Field(0).Kind() == reflect.String {
				p.b.WriteString("error(" + strconv.Quote(e.Elem().Field(0).String()) + ")")
				return
			}
		}
		p.val(v.Elem(), depth+1)
	case reflect.Struct:
		t := v.Type()
		if pp := t.PkgPath(); pp == "sync" || pp == "time" || pp == "bufio" {
			p.b.WriteString(t.String())
			return
		}
		p.b.WriteString(t.Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				p.b.WriteString(", ")
			}
			p.b.WriteString(t.Field(i).Name + ":")
			p.val(v.Field(i), depth+1)
		}
		p.b.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			p.b.WriteString("nil")
			return
		}
		p.seq(v, depth)
		if p.spare && v.Cap() > v.Len() {
			p.b.WriteString("+")
			p.seq(v.Slice(0, v.Cap()).Slice(v.Len(), v.Cap()), depth)
		}
	case reflect.Array:
		p.seq(v, depth)
	case reflect.Map:
		keys := v.MapKeys()
		var ks []string
		for _, k := range keys {
			q := &shower{spare: p.spare, seen: p.seen}
			q.val(k, depth+1)
			q.b.WriteByte(':')
			q.val(v.MapIndex(k), depth+1)
			ks = append(ks, q.b.String())
		}
		sortStrings(ks)
		p.b.WriteString("map[" + strings.Join(ks, " ") + "]")
	default:
		p.b.WriteString("<" + v.Type().String() + ">")
	}
}

func (p *shower) seq(v reflect.Value, depth int) {
	if v.Type().Elem().Kind() == reflect.Uint8 {
		p.b.WriteString("[")
		for i := 0; i < v.Len() && i < 4096; i++ {
			fmt.Fprintf(&p.b, "%02x", v.Index(i).Uint())
		}
		if v.Len() > 4096 {
			fmt.Fprintf(&p.b, "... %d bytes", v.Len())
		}
		p.b.WriteString("]")
		return
	}
	p.b.WriteString("[")
	for i := 0; i < v.Len() && i < 300; i++ {
		if i > 0 {
			p.b.WriteString(" ")
		}
		p.val(v.Index(i), depth+1)
	}
	p.b.WriteString("]")
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
