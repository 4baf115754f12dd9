// Package clu checks the clustering properties on simulated clusters.
package clu

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/internal/mysim"
	"verif/internal/vt"
	"verif/internal/world"
)

// Op is one step of a fault history.
type Op struct {
	Kind string  `json:"op"`
	I    int     `json:"i,omitempty"`
	J    int     `json:"j,omitempty"`
	K    int     `json:"k,omitempty"`
	S    string  `json:"s,omitempty"`
	Dur  float64 `json:"dur,omitempty"`  // seconds
	Wait float64 `json:"wait,omitempty"` // seconds after the step
}

// Plan is a fault history.
type Plan struct {
	N        int       `json:"n"`
	Interval int       `json:"interval"`
	Ver      string    `json:"ver"`
	MaxDelay int64     `json:"maxDelay,omitempty"`
	Boot     int       `json:"boot"`
	Clone    int       `json:"clone"`
	Lag      []int     `json:"lag"` // ms per instance
	Clients  []ClientP `json:"clients"`
	Source   bool      `json:"source,omitempty"`
	RTT      int       `json:"rtt"`
	Ops      []Op      `json:"ops"`
}

// ClientP is a client.
type ClientP struct {
	Every  int  `json:"every"` // ms
	Sticky bool `json:"sticky,omitempty"`
}

// Weights selects the mix of operations.
type Weights map[string]int

func pick(t *rapid.T, w Weights) string {
	var ks []string
	for k := range w {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var bag []string
	for _, k := range ks {
		for i := 0; i < w[k]; i++ {
			bag = append(bag, k)
		}
	}
	return bag[vt.Uni(t, "op", len(bag))]
}

var waits = []float64{0, 0.1, 0.3, 1, 3, 8, 15, 25, 40, 70, 120}

func genOps(t *rapid.T, n, minOps, maxOps int, w Weights) []Op {
	cnt := rapid.IntRange(minOps, maxOps).Draw(t, "ops")
	var ops []Op
	for k := 0; k < cnt; k++ {
		o := Op{Kind: pick(t, w)}
		// the primary (-1) or a replica relative to it
		o.I = rapid.IntRange(-1, n-1).Draw(t, "i")
		switch o.Kind {
		case "crash":
			o.Dur = rapid.SampledFrom([]float64{1, 5, 12, 25, 60, 150}).Draw(t, "dur")
		case "ctrlcut", "isolate", "linkcut":
			o.Dur = rapid.SampledFrom([]float64{2, 8, 20, 45, 100, 200}).Draw(t, "dur")
			o.J = rapid.IntRange(0, n-1).Draw(t, "j")
		case "lag":
			o.K = rapid.SampledFrom([]int{0, 200, 2000, 10000, 40000}).Draw(t, "lag")
		case "long":
			o.Dur = rapid.SampledFrom([]float64{2, 8, 12, 30}).Draw(t, "dur")
		case "crashapi", "crashsql":
			o.K = rapid.IntRange(1, 60).Draw(t, "k")
			o.Dur = rapid.SampledFrom([]float64{1, 20, 60}).Draw(t, "dur")
		case "apifault":
			o.K = rapid.IntRange(1, 40).Draw(t, "k")
			o.S = rapid.SampledFrom([]string{"error", "conflict", "after"}).Draw(t, "s")
		case "sqlfault":
			o.K = rapid.IntRange(1, 60).Draw(t, "k")
			o.S = rapid.SampledFrom([]string{"error", "drop", "after"}).Draw(t, "s")
		case "purge":
			o.K = rapid.IntRange(1, 30).Draw(t, "k")
		}
		o.Wait = rapid.SampledFrom(waits).Draw(t, "wait")
		ops = append(ops, o)
	}
	return ops
}

func genPlan(t *rapid.T, w Weights, minOps, maxOps int) Plan {
	p := Plan{}
	p.N = rapid.SampledFrom([]int{3, 3, 3, 5}).Draw(t, "n")
	p.Interval = rapid.SampledFrom([]int{10, 30, 60}).Draw(t, "interval")
	p.Ver = rapid.SampledFrom([]string{"8.0.36", "8.4.3"}).Draw(t, "ver")
	p.Boot = rapid.SampledFrom([]int{2, 5, 20}).Draw(t, "boot")
	p.Clone = rapid.SampledFrom([]int{1, 5, 40}).Draw(t, "clone")
	for i := 0; i < p.N; i++ {
		p.Lag = append(p.Lag, rapid.SampledFrom([]int{0, 0, 100, 1000, 5000}).Draw(t, "lag"))
	}
	p.RTT = rapid.SampledFrom([]int{1, 3, 11}).Draw(t, "rtt")
	nc := rapid.IntRange(1, 3).Draw(t, "clients")
	for i := 0; i < nc; i++ {
		p.Clients = append(p.Clients, ClientP{Every: rapid.SampledFrom([]int{150, 400, 1000}).Draw(t, "every"), Sticky: rapid.Bool().Draw(t, "sticky")})
	}
	p.Ops = genOps(t, p.N, minOps, maxOps, w)
	return p
}

// Runner executes a plan.
type Runner struct {
	P        Plan
	W        *world.World
	Logf     func(string, ...any)
	disturb  int
	restart  time.Time // time to restart the controller
	heals    []heal
	InitOK   bool
	Settled  bool
	why      string
	OnOp     func(o Op)
	NoSettle bool
	wiped    bool // a lost volume has not been replaced yet
}

type heal struct {
	at time.Time
	f  func()
}

// NewRunner prepares the world (inside the bubble).
func NewRunner(p Plan) *Runner {
	cfg := world.Config{N: p.N, Interval: time.Duration(p.Interval) * time.Second, Ver: p.Ver, MaxDelayDel: p.MaxDelay,
		BootDur: time.Duration(p.Boot) * time.Second, CloneDur: time.Duration(p.Clone) * time.Second, WithSource: p.Source}
	cfg.APILatency, cfg.StmtLatency = time.Duration(p.RTT)*2*time.Millisecond, time.Duration(p.RTT)*time.Millisecond
	w := world.New(cfg)
	r := &Runner{P: p, W: w}
	for i, l := range p.Lag {
		if i < len(w.S) {
			w.S[i].Lag = time.Duration(l) * time.Millisecond
		}
	}
	return r
}

// Start starts everything and waits for the cluster to become healthy.
func (r *Runner) Start() {
	r.W.Start()
	r.W.StartController()
	for _, c := range r.P.Clients {
		r.W.AddClient(time.Duration(c.Every)*time.Millisecond, c.Sticky)
	}
	r.InitOK = r.WaitState("Healthy", 10*time.Minute)
}

// WaitState waits until the reported state is st.
func (r *Runner) WaitState(st string, d time.Duration) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		if r.W.State() == st {
			return true
		}
		r.sleep(2 * time.Second)
	}
	return false
}

// sleep lets time pass and applies due heals and controller restarts.
func (r *Runner) sleep(d time.Duration) {
	end := time.Now().Add(d)
	for {
		now := time.Now()
		var rest []heal
		for _, h := range r.heals {
			if !now.Before(h.at) {
				h.f()
			} else {
				rest = append(rest, h)
			}
		}
		r.heals = rest
		if r.W.ControllerDown() {
			if r.restart.IsZero() {
				r.restart = now.Add(15 * time.Second)
			}
			if !now.Before(r.restart) {
				r.restart = time.Time{}
				r.W.StartController()
			}
		}
		if !now.Before(end) {
			return
		}
		step := end.Sub(now)
		if step > 250*time.Millisecond {
			step = 250 * time.Millisecond
		}
		time.Sleep(step)
	}
}

func (r *Runner) later(d float64, f func()) {
	r.heals = append(r.heals, heal{time.Now().Add(time.Duration(d * float64(time.Second))), f})
}

// target maps -1 to the recorded primary.
func (r *Runner) target(i int) int {
	if i < 0 {
		return r.W.Primary()
	}
	return i % r.W.N
}

func (r *Runner) locked(f func()) {
	r.W.Net.Mu.Lock()
	defer r.W.Net.Mu.Unlock()
	f()
}

// Do executes one operation.
func (r *Runner) Do(o Op) {
	w := r.W
	i := r.target(o.I)
	s := w.S[i]
	if r.wiped && w.State() == "Healthy" && r.fullySynced() {
		r.wiped = false
	}
	if r.wiped {
		// Losing a volume is the one fault the cluster has to survive: no other instance fails until it is replaced.
		switch o.Kind {
		case "crash", "ctrlcut", "linkcut", "isolate", "delete", "kill":
			return
		}
	}
	switch o.Kind {
	case "crash":
		w.CrashServer(i, time.Duration(o.Dur*float64(time.Second)))
		w.Note("op-crash")
	case "ctrlcut":
		r.locked(func() { w.Net.CtrlCut[s.Name] = true; w.NoteCut(s) })
		r.later(o.Dur, func() { r.locked(func() { delete(w.Net.CtrlCut, s.Name); w.NoteCut(s) }) })
		w.Note("op-ctrlcut")
	case "linkcut":
		t := w.S[o.J%w.N]
		if t == s {
			return
		}
		r.locked(func() { w.Net.SetCut(s.Name, t.Name, true) })
		r.later(o.Dur, func() { r.locked(func() { w.Net.SetCut(s.Name, t.Name, false) }) })
		w.Note("op-linkcut")
	case "isolate":
		cut := func(on bool) func() {
			return func() {
				r.locked(func() {
					for _, t := range w.S {
						if t != s {
							w.Net.SetCut(s.Name, t.Name, on)
						}
					}
					if on {
						w.Net.CtrlCut[s.Name] = true
					} else {
						delete(w.Net.CtrlCut, s.Name)
					}
					w.NoteCut(s)
				})
			}
		}
		cut(true)()
		r.later(o.Dur, cut(false))
		w.Note("op-isolate")
	case "lag":
		r.locked(func() { s.Lag = time.Duration(o.K) * time.Millisecond })
	case "delete":
		if w.DeletePod(i) {
			w.Note("op-delete")
		}
	case "demote":
		w.Demote(i)
		w.Note("op-demote")
	case "kill":
		w.KillPod(i)
		w.Note("op-killpod")
	case "wipe":
		// volumes are lost one at a time, with the cluster healthy in between
		if !r.quiet() || w.State() != "Healthy" || !r.fullySynced() {
			return
		}
		w.WipePod(i)
		r.wiped = true
		r.sleep(2 * time.Second)
	case "errant":
		if i == w.Primary() {
			return
		}
		r.locked(func() {
			if s.Up {
				s.LocalCommit()
				w.Notes["op-errant"]++
			}
		})
	case "purge":
		r.locked(func() {
			if s.Up {
				s.PurgeBinlog(o.K)
				w.Notes["op-purge"]++
			}
		})
	case "long":
		for _, c := range w.Clients {
			c.Long = time.Duration(o.Dur * float64(time.Second))
			break
		}
		w.Note("op-long")
	case "crashapi":
		w.CrashAtAPI(o.K)
		r.restart = time.Time{}
	case "crashsql":
		w.CrashAtSQL(o.K)
		r.restart = time.Time{}
	case "ctlrestart":
		w.CrashController()
		r.restart = time.Now().Add(time.Second)
	case "apifault":
		w.FaultAPI(o.K, o.S)
	case "sqlfault":
		w.FaultSQL(o.K, o.S)
	case "scale":
		if w.N == 3 && r.quiet() && w.State() == "Healthy" && r.fullySynced() {
			w.Scale(5)
			w.Note("op-scale")
		}
	case "wake":
		w.Wake()
	}
}

// quiet: no fault is active.
func (r *Runner) quiet() bool {
	if len(r.heals) > 0 || r.W.ControllerDown() {
		return false
	}
	return !r.W.Busy()
}

// fullySynced: the primary is writable, every other instance replicates from it, and all have executed something.
func (r *Runner) fullySynced() bool {
	prim := r.W.Primary()
	if prim < 0 || prim >= len(r.W.S) {
		return false
	}
	if pod := r.W.Pod(prim); pod == nil || pod.Annotations["moco.cybozu.com/demote"] != "" {
		return false
	}
	ok := true
	r.locked(func() {
		p := r.W.S[prim]
		if p.ReadOnly && !r.P.Source {
			ok = false
		}
		for i, s := range r.W.S {
			if !s.Up || s.Executed.Empty() {
				ok = false
			}
			if i == prim {
				continue
			}
			if s.Src == nil || s.Src.Host != p.Host || s.IOState() != "Yes" || !s.SQLRun {
				ok = false
			}
		}
	})
	return ok
}

// Run executes the history.
func (r *Runner) Run() {
	for _, o := range r.P.Ops {
		r.Do(o)
		if r.OnOp != nil {
			r.OnOp(o)
		}
		r.sleep(time.Duration(o.Wait * float64(time.Second)))
	}
}

// Settle ends all faults, does what an administrator does, and waits for the cluster to be healthy and synchronised.
func (r *Runner) Settle(limit time.Duration) bool {
	w := r.W
	w.ClearFaults()
	for _, h := range r.heals {
		h.f()
	}
	r.heals = nil
	r.locked(func() {
		w.Net.HealAll()
		for _, s := range w.Net.List {
			if s.Lag > time.Second {
				s.Lag = time.Second
			}
		}
	})
	r.sleep(time.Second)
	end := time.Now().Add(limit)
	lastFix := time.Now()
	for time.Now().Before(end) {
		r.sleep(5 * time.Second)
		if w.State() == "Healthy" && !w.Busy() && !w.ControllerDown() {
			if r.finish() {
				r.Settled = true
				return true
			}
		}
		if time.Since(lastFix) < 60*time.Second || w.Busy() {
			continue
		}
		// the administrator: restarts instances stuck waiting for acknowledgements, re-initialises errant ones
		prim := w.Primary()
		fixed := false
		for i, s := range w.S {
			if i == prim {
				continue
			}
			hung := false
			r.locked(func() { hung = s.Up && len(s.Pending) > 0 })
			if hung {
				w.CrashServer(i, 2*time.Second)
				w.Note("admin-restart")
				fixed = true
			}
		}
		if !fixed {
			for _, i := range w.Cluster().Status.ErrantReplicaList {
				if i == prim {
					continue
				}
				ok := true
				r.locked(func() {
					for _, s := range w.S {
						if !s.Up {
							ok = false
						}
					}
					// already re-initialised: the status is not up to date yet
					if i >= len(w.S) || prim < 0 || prim >= len(w.S) || w.S[i].Executed.SubsetOf(w.S[prim].Executed) {
						ok = false
					}
				})
				if ok && w.State() == "Degraded" || ok && w.State() == "Incomplete" {
					w.WipePod(i)
					w.Note("admin-reinit")
					fixed = true
					break
				}
			}
		}
		if fixed {
			lastFix = time.Now()
		}
	}
	return false
}

// finish: the healthy cluster must accept writes and bring them to every instance.
func (r *Runner) finish() bool {
	w := r.W
	probe := w.AddClient(200*time.Millisecond, false)
	before := len(w.Acked())
	for k := 0; k < 120 && len(w.Acked()) == before; k++ {
		r.sleep(time.Second)
	}
	ok := len(w.Acked()) > before
	if !ok {
		r.why = "no write is acknowledged by the healthy cluster"
	}
	r.locked(func() { probe.Stop = true; w.NoClients = true })
	defer func() { r.locked(func() { w.NoClients = false }) }()
	r.sleep(20 * time.Second)
	if w.State() != "Healthy" {
		return false
	}
	if !w.Synced() {
		r.why = "instances of the healthy cluster do not catch up"
		return false
	}
	return ok
}

// FinalData checks that all acknowledged rows are everywhere.
func (r *Runner) FinalData() string {
	w := r.W
	var out string
	r.locked(func() {
		for _, s := range w.S {
			if m := w.Missing(s); len(m) > 0 {
				if len(m) > 5 {
					m = m[:5]
				}
				out = fmt.Sprintf("acknowledged writes %v are missing on instance %d of the recovered cluster", m, s.Index)
				return
			}
		}
	})
	return out
}

// FinalSemiSync: the writable primary of the healthy cluster waits for a majority of the current size.
func (r *Runner) FinalSemiSync() string {
	w := r.W
	var out string
	r.locked(func() {
		i := w.PrimaryIdx()
		if w.N < 3 || w.Cfg.WithSource || i < 0 || i >= len(w.S) || w.S[i].ReadOnly {
			return
		}
		if s := w.S[i]; !s.SSMaster || s.SSWait != w.N/2 || s.SSTimeout < 3600*1000 {
			out = fmt.Sprintf("the primary %d of the recovered cluster of %d has semi-sync enabled=%v wait=%d timeout=%dms", i, w.N, s.SSMaster, s.SSWait, s.SSTimeout)
		}
	})
	return out
}

// Classes labels the history.
func (r *Runner) Classes() []string {
	var c []string
	for _, n := range r.W.SortedNotes() {
		c = append(c, n)
	}
	if !r.InitOK {
		c = append(c, "never-healthy")
	}
	if r.Settled {
		c = append(c, "settled")
	}
	return c
}

func indent(s string) string { return strings.ReplaceAll(s, "\n", "\n  ") }

var _ = mysim.New
