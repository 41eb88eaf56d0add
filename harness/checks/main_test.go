package checks

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type failRec struct {
	Property string          `json:"property"`
	Scenario string          `json:"scenario"`
	Case     json.RawMessage `json:"case"`
	Viol     []Viol          `json:"violations"`
	Trace    []string        `json:"trace,omitempty"`
	Repro    string          `json:"reproduced,omitempty"`
}

type outRec struct {
	Evaluations int               `json:"evaluations"`
	Nontrivial  []uint64          `json:"nontrivial_hashes"`
	Rule        string            `json:"rule"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Fail        *failRec          `json:"fail,omitempty"`
	Other       map[string]int    `json:"other_properties,omitempty"`
	OtherMsg    map[string]string `json:"other_messages,omitempty"`
	DeadlineHit bool              `json:"deadline_hit"`
}

var (
	outMu   sync.Mutex
	out     outRec
	curCase []byte
	curScn  string
)

func writeOut() {
	b, err := json.Marshal(&out)
	if err != nil {
		panic(err)
	}
	if p := os.Getenv("VP_OUT"); p != "" {
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
	}
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// TestVP runs one property's generated-case search, or replays one case.
func TestVP(t *testing.T) {
	prop := os.Getenv("VP_PROP")
	if prop == "" {
		t.Skip("VP_PROP not set")
	}
	if n := envInt("VP_PROCS", 0); n > 0 {
		runtime.GOMAXPROCS(n)
	}
	hangReport = func(kind, detail string) {
		// The case goroutine is stuck; record and leave.
		outMu.Lock()
		if harnessStuck(detail) {
			fmt.Fprintln(os.Stderr, "VP-INCONCLUSIVE: harness stuck:\n"+detail)
			os.Exit(9)
		}
		if strings.Contains(detail, "juju/worker/v4") {
			out.Fail = &failRec{Property: prop, Scenario: curScn, Case: curCase,
				Viol: []Viol{{prop, kind + ": the case never finishes; goroutines:\n" + clip(detail, 6000)}}}
		}
		writeOut()
		os.Exit(7)
	}
	startWatchdog()
	if f := os.Getenv("VP_REPLAY"); f != "" {
		replay(t, prop, f)
		return
	}
	chk := checksTable[prop]
	if chk == nil {
		t.Fatalf("no check for %q", prop)
	}
	if len(sprintKinds[prop]) > 0 {
		withSprints(chk)
	}
	if bigKinds[prop] != "" || prop == "C28" {
		withScale(chk)
	}
	if s := os.Getenv("VP_SCN"); s != "" {
		chk.Scn = []string{s}
	}
	out.Rule = chk.Rule
	out.Classes = map[string]int{}
	out.Other = map[string]int{}
	out.OtherMsg = map[string]string{}
	deadline := time.Now().Add(time.Duration(envInt("VP_DEADLINE", 3600)) * time.Second)
	cur := os.Getenv("VP_CUR")
	var curFile *os.File
	if cur != "" {
		var err error
		if curFile, err = os.Create(cur); err != nil {
			t.Fatal(err)
		}
	}
	seen := map[uint64]bool{}
	shrinking := false
	var shrinkEnd time.Time
	bestLen := 1 << 30
	defer func() {
		outMu.Lock()
		defer outMu.Unlock()
		for h := range seen {
			out.Nontrivial = append(out.Nontrivial, h)
		}
		sort.Slice(out.Nontrivial, func(i, j int) bool { return out.Nontrivial[i] < out.Nontrivial[j] })
		writeOut()
	}()
	rapid.Check(t, func(rt *rapid.T) {
		if !shrinking && time.Now().After(deadline) {
			out.DeadlineHit = true
			return
		}
		if shrinking && time.Now().After(shrinkEnd) {
			return
		}
		scnName := rapid.SampledFrom(chk.Scn).Draw(rt, "scenario")
		scn := scenarios[scnName]
		c := scn.Gen(rt, prop)
		js, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		if curFile != nil {
			b := append([]byte(scnName+"\n"), js...)
			b = append(b, '\n')
			curFile.WriteAt(b, 0)
			curFile.Truncate(int64(len(b)))
		}
		tries := 1
		if shrinking {
			tries = 4
		}
		for i := 0; i < tries; i++ {
			r := runCase(t, scn, js, c)
			if !shrinking {
				out.Evaluations++
				for k := range r.Classes {
					out.Classes[k]++
				}
				h := fnv.New64a()
				h.Write([]byte(scnName))
				h.Write(js)
				if chk.Nontrivial(r.Classes) {
					k := h.Sum64()
					if !seen[k] {
						seen[k] = true
						if len(out.Samples) < 3 && len(seen)%37 == 1 {
							s, _ := json.Marshal(map[string]any{"scenario": scnName, "case": json.RawMessage(js)})
							out.Samples = append(out.Samples, s)
						}
					}
				}
			}
			for _, v := range r.Viol {
				if v.Prop != prop {
					out.Other[v.Prop]++
					if out.OtherMsg[v.Prop] == "" {
						out.OtherMsg[v.Prop] = clip(v.Msg, 400) + " CASE " + clip(string(js), 3000)
					}
				}
			}
			if vs := r.of(prop); len(vs) > 0 {
				if !shrinking {
					shrinking = true
					shrinkEnd = time.Now().Add(time.Duration(envInt("VP_SHRINK", 15)) * time.Second)
				}
				if len(js) < bestLen {
					bestLen = len(js)
					outMu.Lock()
					out.Fail = &failRec{Property: prop, Scenario: scnName, Case: append([]byte(nil), js...), Viol: vs, Trace: r.Trace}
					writeOut()
					outMu.Unlock()
				}
				rt.Fatalf("violation of %s", prop)
			}
		}
	})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func runCase(t *testing.T, scn *Scenario, js []byte, c any) *Res {
	r := newRes()
	outMu.Lock()
	curCase, curScn = js, scn.Name
	outMu.Unlock()
	caseNo.Add(1)
	caseBegan.Store(time.Now().UnixNano())
	scn.Run(t, c, r)
	caseBegan.Store(0)
	return r
}

// replay runs a recorded case repeatedly and reports the first violation.
func replay(t *testing.T, prop, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	var rec failRec
	if err := json.Unmarshal(b, &rec); err != nil {
		t.Fatal(err)
	}
	scn := scenarios[rec.Scenario]
	if scn == nil {
		t.Fatalf("unknown scenario %q", rec.Scenario)
	}
	n := envInt("VP_REPEAT", 500)
	hits := 0
	for i := 0; i < n; i++ {
		c := scn.New()
		if err := json.Unmarshal(rec.Case, c); err != nil {
			t.Fatal(err)
		}
		r := runCase(t, scn, rec.Case, c)
		if vs := r.of(prop); len(vs) > 0 {
			hits++
			if hits == 1 {
				for _, v := range vs {
					fmt.Printf("  %s: %s\n", v.Prop, v.Msg)
				}
				for _, l := range r.Trace {
					fmt.Println("   ", l)
				}
				out.Fail = &failRec{Property: prop, Scenario: rec.Scenario, Case: rec.Case, Viol: vs, Trace: r.Trace}
				writeOut()
				if os.Getenv("VP_FIRST") != "" {
					break
				}
			}
		}
	}
	fmt.Printf("replayed %d times, %d violations\n", n, hits)
	if hits > 0 {
		t.Fail()
	}
}
