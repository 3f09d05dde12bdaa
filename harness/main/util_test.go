package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
)

// vrun drives one executable-contract test: cases are numbered and named, every failing case is written
// with its input to $VERIF_OUT, and the test itself never fails.
type vrun struct {
	t        *testing.T
	name     string
	rule     string
	n        int
	distinct map[string]bool
	samples  []interface{}
	nfail    int
	thorough bool
	rng      *rand.Rand
	cur      string
	input    interface{}
}

var vmu sync.Mutex

func vwrite(v map[string]interface{}) {
	vmu.Lock()
	defer vmu.Unlock()
	fn := os.Getenv("VERIF_OUT")
	if fn == "" {
		b, _ := json.Marshal(v)
		if v["k"] != "start" {
			fmt.Println(string(b))
		}
		return
	}
	f, err := os.OpenFile(fn, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		panic(err)
	}
	b, err := json.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(map[string]interface{}{"k": v["k"], "id": v["id"], "msg": fmt.Sprint(v["msg"])})
	}
	f.Write(append(b, '\n'))
	f.Close()
}

func vstart(t *testing.T, name, rule string) *vrun {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := &vrun{t: t, name: name, rule: rule, distinct: map[string]bool{}, thorough: os.Getenv("VERIF_TIER") == "thorough", rng: rand.New(rand.NewSource(seed*7919 + 1))}
	return r
}

// check runs one case: id names it, input describes it, f returns "" when the contract holds.
func (r *vrun) check(id string, input interface{}, f func() string) {
	r.n++
	k := fmt.Sprint(input)
	if len(r.distinct) < 2000000 {
		r.distinct[k] = true
	}
	if len(r.samples) < 2 {
		r.samples = append(r.samples, map[string]interface{}{"id": id, "input": fmt.Sprint(input)})
	}
	if r.cur != id {
		r.cur = id
		vwrite(map[string]interface{}{"k": "start", "id": r.name + ":" + id, "input": fmt.Sprint(input)})
	}
	msg := func() (m string) {
		defer func() {
			if e := recover(); e != nil {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 1200 {
					st = st[:1200]
				}
				m = fmt.Sprintf("panic: %v\n%s", e, st)
			}
		}()
		return f()
	}()
	if msg != "" {
		r.nfail++
		if r.nfail <= 60 {
			vwrite(map[string]interface{}{"k": "fail", "id": r.name + ":" + id, "msg": msg, "input": fmt.Sprint(input)})
		}
	}
}

func (r *vrun) end() {
	vwrite(map[string]interface{}{"k": "stats", "name": r.name, "n": r.n, "distinct": len(r.distinct), "rule": r.name + ": " + r.rule, "samples": r.samples})
}

func TestMain(m *testing.M) {
	code := m.Run()
	if code == 0 {
		vwrite(map[string]interface{}{"k": "done"})
	}
	os.Exit(code)
}
