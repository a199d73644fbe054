// Package pure checks histories of calls whose answers must depend on their arguments only: that
// each gives what it gives in a process of its own, changes none of its arguments, and is not
// changed by later calls or by what is done with other calls' results.
package pure

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"

	"verif/mc/engine"
)

// Result is what a call gave
type Result struct {
	// Show tells it, now
	Show func() string
	// Spoil overwrites all memory of it which belongs to the caller; nil: there is none
	Spoil func()
}

// S is a result which is a text
func S(x ...interface{}) Result {
	t := fmt.Sprintln(x...)
	return Result{Show: func() string { return t }}
}

// B is a result of bytes and an error
func B(b []byte, err error) Result {
	return Result{Show: func() string { return fmt.Sprintf("%x %v", b, err) }, Spoil: func() {
		for i := range b {
			b[i] ^= 0xA5
		}
	}}
}

// Show is a result which is shown by a function
func Show(f func() string) Result { return Result{Show: f} }

// Call is a function with N different sets of arguments
type Call struct {
	Name string
	N    int
	Do   func(v int, a *Args) Result
	// Alias: what it gives refers to its arguments, rightly
	Alias bool
	// Rounded: it gives a floating point number, whose last digits are the processor's
	Rounded bool
}

// Args makes arguments and tells whether they are unchanged
type Args struct {
	pool  *[][]byte
	n     int
	keep  map[string]interface{}
	have  []arg
	lists []list
	shown []shown
}

type shown struct {
	f   func() string
	was string
}

// Keep is an object which is the same one in all calls of a history in which arguments stay in the
// same memory
func (a *Args) Keep(name string, make func() interface{}) interface{} {
	if a.keep == nil {
		return make()
	}
	x, ok := a.keep[name]
	if !ok {
		x = make()
		a.keep[name] = x
	}
	return x
}

// Watch tells how an argument looks, which must stay so
func (a *Args) Watch(f func() string) { a.shown = append(a.shown, shown{f, f()}) }

type arg struct {
	got []byte
	was string
}

type list struct {
	got []string
	was []string
}

// Bytes is an argument of these bytes, in a slice with room behind it
func (a *Args) Bytes(b []byte) []byte {
	var buf []byte
	if a.pool != nil {
		if a.n == len(*a.pool) {
			*a.pool = append(*a.pool, make([]byte, 512))
		}
		buf = (*a.pool)[a.n]
		a.n++
	} else {
		buf = make([]byte, len(b)+64)
	}
	copy(buf, b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = 0xC3
	}
	a.have = append(a.have, arg{buf, string(buf)})
	return buf[:len(b)]
}

// Strs is an argument of these strings
func (a *Args) Strs(l []string) []string {
	got := append(make([]string, 0, len(l)+3), l...)
	full := got[:cap(got)]
	for i := len(l); i < len(full); i++ {
		full[i] = "room"
	}
	a.lists = append(a.lists, list{full, append([]string{}, full...)})
	return got
}

func (a *Args) intact() bool {
	for _, x := range a.have {
		if string(x.got) != x.was {
			return false
		}
	}
	for _, x := range a.shown {
		if x.f() != x.was {
			return false
		}
	}
	for _, x := range a.lists {
		for i := range x.got {
			if x.got[i] != x.was[i] {
				return false
			}
		}
	}
	return true
}

// Suite is the calls of a program
type Suite struct {
	Calls []Call

	all   []entry
	first []int // of each call
	alone []string
}

type entry struct{ c, v int }

func (s *Suite) enumerate() {
	if s.all != nil {
		return
	}
	for i, c := range s.Calls {
		s.first = append(s.first, len(s.all))
		for v := 0; v < c.N; v++ {
			s.all = append(s.all, entry{i, v})
		}
	}
}

// Worker makes the process tell what one call gives, if it was started for this
func (s *Suite) Worker() {
	if len(os.Args) != 4 || os.Args[1] != "__pure" {
		return
	}
	c, _ := strconv.Atoi(os.Args[2])
	v, _ := strconv.Atoi(os.Args[3])
	fmt.Print(s.Calls[c].Do(v, &Args{}).Show())
	os.Exit(0)
}

// setup lets every call run in a process of its own
func (s *Suite) setup() {
	s.enumerate()
	s.alone = make([]string, len(s.all))
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad string
	ch := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				cmd := exec.Command("/proc/self/exe", "__pure", fmt.Sprint(s.all[i].c), fmt.Sprint(s.all[i].v))
				var eb strings.Builder
				cmd.Stderr = &eb
				b, err := cmd.Output()
				if _, crashed := err.(*exec.ExitError); crashed {
					b = []byte("a crash: " + eb.String())
				} else if err != nil {
					mu.Lock()
					bad = fmt.Sprintf("%s %d in a process of its own: %v %s", s.Calls[s.all[i].c].Name, s.all[i].v, err, eb.String())
					mu.Unlock()
				}
				s.alone[i] = string(b)
			}
		}()
	}
	for i := range s.all {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if bad != "" {
		panic(bad)
	}
}

type mode int

const (
	fresh mode = iota
	reuse
	spoil
)

var modeName = []string{"", " (arguments in the same memory)", " (results overwritten)"}

func (s *Suite) run(c *engine.Ctx, m mode, seq ...int) {
	var pool [][]byte
	keep := map[string]interface{}{}
	type done struct {
		r    Result
		was  string
		name string
	}
	var ds []done
	h := ""
	for _, i := range seq {
		e := s.all[i]
		call := &s.Calls[e.c]
		name := fmt.Sprintf("%s[%d]", call.Name, e.v)
		h += name + "; "
		a := &Args{}
		if m == reuse {
			a.pool, a.keep = &pool, keep
		}
		var r Result
		var got string
		c.NoPanic("panic "+call.Name, func() {
			r = call.Do(e.v, a)
			got = r.Show()
		})
		c.Check(got == s.alone[i], "answer "+call.Name, "after %s%s: %s gives %s, alone it gives %s", h, modeName[m], name, got, s.alone[i])
		c.Check(a.intact(), "arguments "+call.Name, "after %s%s: the arguments of %s are changed", h, modeName[m], name)
		for _, d := range ds {
			now := d.r.Show()
			c.Check(now == d.was, "result "+d.name, "after %s%s: what %s gave was %s and is now %s", h, modeName[m], d.name, d.was, now)
		}
		switch {
		case m == spoil:
			if r.Spoil != nil {
				r.Spoil()
				c.Check(a.intact() || call.Alias, "result is argument "+call.Name, "after %s: to change what %s gave changes its arguments", h, name)
			}
		case m == reuse && call.Alias:
		default:
			ds = append(ds, done{r, got, name})
		}
	}
}

// Harnesses are the histories of the suite's calls
func (s *Suite) Harnesses(tier string) []engine.Harness {
	s.enumerate()
	n := len(s.all)
	hs := []engine.Harness{
		{Name: "pairs", Serial: true, Setup: s.setup, About: fmt.Sprintf("every two of %d calls (%d functions with arguments which differ little), one after the other: each gives what it gives in a process of its own, arguments and earlier results stay as they are", n, len(s.Calls)), Body: func(c *engine.Ctx) {
			i := c.Pick(n)
			j := c.Pick(n)
			s.run(c, fresh, i, j)
		}},
		{Name: "memory", Serial: true, About: "every two calls of one function, with the arguments in the same memory, and with the first result overwritten", Body: func(c *engine.Ctx) {
			k := c.Pick(len(s.Calls))
			m := mode(1 + c.Pick(2))
			i := s.first[k] + c.Pick(s.Calls[k].N)
			j := s.first[k] + c.Pick(s.Calls[k].N)
			s.run(c, m, i, j, i)
		}},
		{Name: "triples", Serial: true, About: "every three calls of one function", Body: func(c *engine.Ctx) {
			k := c.Pick(len(s.Calls))
			m := s.Calls[k].N
			if tier != "thorough" && m > 9 {
				m = 9
			}
			i := s.first[k] + c.Pick(m)
			j := s.first[k] + c.Pick(m)
			l := s.first[k] + c.Pick(m)
			s.run(c, fresh, i, j, l)
		}},
	}
	if tier == "thorough" {
		hs = append(hs, engine.Harness{Name: "memory-pairs", Serial: true, About: "every two calls, with the arguments in the same memory, and with the first result overwritten, and the first one again", Body: func(c *engine.Ctx) {
			m := mode(1 + c.Pick(2))
			i := c.Pick(n)
			j := c.Pick(n)
			s.run(c, m, i, j, i)
		}}, engine.Harness{Name: "between", Serial: true, About: "two calls of one function with any call of another function between them", Body: func(c *engine.Ctx) {
			k := c.Pick(len(s.Calls))
			j := c.Pick(n)
			m := s.Calls[k].N
			if m > 6 {
				m = 6
			}
			i := s.first[k] + c.Pick(m)
			l := s.first[k] + c.Pick(m)
			s.run(c, fresh, i, j, l)
		}})
	}
	return hs
}

// Builds is a harness which compares the answers of other builds of this program with the ones of
// this: the environment's variables name the programs
func (s *Suite) Builds(vars ...string) engine.Harness {
	s.enumerate()
	var files, names []string
	for _, v := range vars {
		if f := os.Getenv(v); f != "" {
			files, names = append(files, f), append(names, v)
		}
	}
	return engine.Harness{Name: "builds", About: fmt.Sprintf("what each of %d calls (%d functions) gives in this build and in other ones (%s); floating point numbers left out", len(s.all), len(s.Calls), strings.Join(names, ", ")), Body: func(c *engine.Ctx) {
		if len(files) == 0 {
			panic("no other builds to compare with")
		}
		e := s.all[c.Pick(len(s.all))]
		k := c.Pick(len(files))
		name := s.Calls[e.c].Name
		if s.Calls[e.c].Rounded {
			c.Stop()
		}
		cmd := exec.Command(files[k], "__pure", fmt.Sprint(e.c), fmt.Sprint(e.v))
		var eb strings.Builder
		cmd.Stderr = &eb
		b, err := cmd.Output()
		if _, crashed := err.(*exec.ExitError); crashed {
			b = []byte("a crash: " + eb.String())
		} else if err != nil {
			panic(fmt.Sprintf("%s[%d] in %s: %v %s", name, e.v, names[k], err, eb.String()))
		}
		got := ""
		c.NoPanic("panic "+name, func() { got = s.Calls[e.c].Do(e.v, &Args{}).Show() })
		c.Check(got == string(b), "build "+name, "%s[%d]: %s gives %s, this build gives %s", name, e.v, names[k], b, got)
	}}
}
