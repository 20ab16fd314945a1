// Package drv is what the drivers share: reading stimuli, writing traces.
package drv

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"time"
)

// Ev is one event of a stimulus or trace.
type Ev map[string]any

func (e Ev) S(k string) string {
	s, _ := e[k].(string)
	return s
}
func (e Ev) I(k string) int {
	f, ok := e[k].(float64)
	if !ok {
		if i, ok := e[k].(int); ok {
			return i
		}
	}
	return int(f)
}
func (e Ev) B(k string) bool {
	b, _ := e[k].(bool)
	return b
}
func (e Ev) L(k string) []any {
	l, _ := e[k].([]any)
	return l
}
func (e Ev) E(k string) Ev {
	switch m := e[k].(type) {
	case map[string]any:
		return Ev(m)
	case Ev:
		return m
	}
	return Ev{}
}

// Pairs returns a list of [name, value] lists as a map.
func Pairs(l []any) map[string]string {
	m := make(map[string]string, len(l))
	for _, x := range l {
		p := x.([]any)
		m[p[0].(string)] = p[1].(string)
	}
	return m
}

func SortedPairs(m map[string]string) [][2]string {
	r := make([][2]string, 0, len(m))
	for k, v := range m {
		r = append(r, [2]string{k, v})
	}
	sort.Slice(r, func(i, j int) bool { return r[i][0] < r[j][0] })
	return r
}

// Copy returns a copy of e with extra fields.
func Copy(e Ev, kv ...any) Ev {
	r := make(Ev, len(e)+len(kv)/2)
	for k, v := range e {
		r[k] = v
	}
	for i := 0; i+1 < len(kv); i += 2 {
		r[kv[i].(string)] = kv[i+1]
	}
	return r
}

func Die(a ...any) {
	fmt.Println(a...)
	os.Exit(3)
}

// Main reads the stimuli, runs each with run, and writes the traces.
func Main(run map[string]func([]Ev) []Ev) {
	if len(os.Args) != 4 {
		Die("usage: driver CMD IN OUT")
	}
	f := run[os.Args[1]]
	if f == nil {
		Die("unknown command", os.Args[1])
	}
	Each(os.Args[2], os.Args[3], f)
}

func Each(in, out string, f func([]Ev) []Ev) {
	data, err := os.ReadFile(in)
	if err != nil {
		Die(err)
	}
	var stim [][]Ev
	if err := json.Unmarshal(data, &stim); err != nil {
		Die(err)
	}
	traces := make([][]Ev, len(stim))
	for i, s := range stim {
		traces[i] = Guard(s, f)
	}
	data, err = json.Marshal(traces)
	if err != nil {
		Die(err)
	}
	if err := os.WriteFile(out, data, 0644); err != nil {
		Die(err)
	}
}

// HangAfter is how long one stimulus may take.
var HangAfter = 10 * time.Second

// Guard runs one stimulus, turning a panic or a hang into an event no
// specification has.
func Guard(s []Ev, f func([]Ev) []Ev) []Ev {
	ch := make(chan []Ev, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- []Ev{{"op": "panic", "msg": fmt.Sprint(r)}}
			}
		}()
		ch <- f(s)
	}()
	select {
	case t := <-ch:
		return t
	case <-time.After(HangAfter):
		return []Ev{{"op": "hang"}}
	}
}
