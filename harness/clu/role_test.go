package clu

import (
	"fmt"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"pgregory.net/rapid"

	"verif/internal/gtid"
	"verif/internal/mysim"
	"verif/internal/vt"
	"verif/internal/world"
)

// Fault is one injected failure.
type Fault struct {
	Kind string `json:"kind,omitempty"` // sql-error, sql-drop, sql-after, api-error, api-conflict, api-after, ctl-api, ctl-sql
	K    int    `json:"k,omitempty"`
	At   string `json:"at,omitempty"` // "" (k-th call of any kind)
}

func genFault(t *rapid.T, maxK int) *Fault {
	if rapid.IntRange(0, 2).Draw(t, "fault?") != 0 {
		return nil
	}
	return &Fault{Kind: rapid.SampledFrom([]string{"sql-error", "sql-drop", "sql-after", "api-error", "api-conflict", "api-after", "ctl-api", "ctl-sql"}).Draw(t, "fault"),
		K: rapid.IntRange(1, maxK).Draw(t, "k")}
}

func (f *Fault) arm(w *world.World) {
	if f == nil {
		return
	}
	switch f.Kind {
	case "sql-error", "sql-drop", "sql-after":
		w.FaultSQL(f.K, f.Kind[4:])
	case "api-error", "api-conflict", "api-after":
		w.FaultAPI(f.K, f.Kind[4:])
	case "ctl-api":
		w.CrashAtAPI(f.K)
	case "ctl-sql":
		w.CrashAtSQL(f.K)
	}
}

// run lets time pass, restarting a crashed controller, until stop returns true.
func passTime(w *world.World, d time.Duration, stop func() bool) {
	end := time.Now().Add(d)
	down := time.Time{}
	for time.Now().Before(end) {
		time.Sleep(500 * time.Millisecond)
		if w.ControllerDown() {
			if down.IsZero() {
				down = time.Now()
			} else if time.Since(down) > 10*time.Second {
				down = time.Time{}
				w.StartController()
			}
		}
		if stop != nil && stop() {
			return
		}
	}
}

// ---- C05 ----

// FailPlan is a failover situation.
type FailPlan struct {
	S     Snap   `json:"snap"`
	Fault *Fault `json:"fault,omitempty"`
	Lag   []int  `json:"lag,omitempty"` // ms
}

var failBias = SnapBias{"down": 2, "cut": 1, "empty": 1, "nosrc": 1, "errlist": 3, "wait": 1, "notready": 1, "sqloff": 2, "io": 1, "othersrc": 1, "readonly": 1, "writable": 1}

func genFail(t *rapid.T) FailPlan {
	s := genSnap(t, failBias, []int{3, 3, 5, 5, 7}, 0, 4)
	if s.Source {
		s = healthySnap(s.N, s.Primary, false)
	}
	p := &s.I[s.Primary]
	switch rapid.IntRange(0, 9).Draw(t, "dead") {
	case 0: // keep
	case 1, 2:
		p.Exec, p.Retr = nil, nil
		p.RO, p.SRO = true, true
	case 3:
		p.Net = "cut"
	default:
		p.Net = "down"
	}
	p.Ready = rapid.Bool().Draw(t, "pready")
	pl := FailPlan{}
	diverge := rapid.IntRange(0, 3).Draw(t, "diverge") == 0
	for i := range s.I {
		pl.Lag = append(pl.Lag, rapid.SampledFrom([]int{0, 0, 500, 3000, 20000}).Draw(t, "lag"))
		if i == s.Primary || s.I[i].Src < 0 || len(s.I[i].Exec) == 0 {
			continue
		}
		in := &s.I[i]
		in.Exec[0].B = rapid.Int64Range(4, 12).Draw(t, "exec")
		from := rapid.SampledFrom([]int64{1, in.Exec[0].B + 1}).Draw(t, "from")
		to := rapid.Int64Range(in.Exec[0].B, 14).Draw(t, "retr")
		in.Retr = nil
		if to >= from {
			in.Retr = []Iv{{s.Primary, from, to}}
		}
		odd := rapid.IntRange(0, 11).Draw(t, "odd")
		if !diverge {
			odd = 5
		}
		switch odd {
		case 0: // own writes, not recorded as errant
			in.Exec = append(in.Exec, Iv{i, 1, 2})
		case 1: // common history of a former primary
			in.Exec = append(in.Exec, Iv{8, 1, 3})
		}
	}
	if rapid.Bool().Draw(t, "former") {
		for i := range s.I {
			if len(s.I[i].Exec) > 0 {
				s.I[i].Exec = append(s.I[i].Exec, Iv{8, 1, 3})
			}
		}
	}
	pl.S = s
	pl.Fault = genFault(t, 60)
	return pl
}

func received(s *mysim.Server) gtid.Set {
	x := s.Executed.Clone()
	x.Union(s.Retrieved)
	return x
}

// counts tells whether the replica counts for a failover decision.
func counts(w *world.World, i, primary int, errant map[int]bool) bool {
	s := w.S[i]
	return i != primary && s.Up && !w.Net.CtrlCut[s.Name] && s.Src != nil && !errant[i] && s.WaitSessions() == 0 && !received(s).Empty()
}

func errantMap(c *mocov1beta2.MySQLCluster) map[int]bool {
	m := map[int]bool{}
	for _, e := range c.Status.ErrantReplicaList {
		m[e] = true
	}
	return m
}

func runC05(t *testing.T, p FailPlan) (c vt.Case, err error) {
	berr := vt.Bubble(t, func() error {
		s := p.S
		w := s.Build(20 * time.Second)
		for i, l := range p.Lag {
			if i < len(w.S) {
				w.S[i].Lag = time.Duration(l) * time.Millisecond
				// transactions become due from now on
				for k := range w.S[i].Relay {
					w.S[i].Relay[k].At = time.Now()
				}
			}
		}
		r := s.ref()
		viol := ""
		moved := -1
		w.OnPromote = func(from, to int) { // Mu held
			if moved >= 0 {
				return
			}
			moved = to
			fail := func(f string, a ...any) {
				if viol == "" {
					viol = fmt.Sprintf("the role moved from %d to %d: ", from, to) + fmt.Sprintf(f, a...)
				}
			}
			cl := w.Cluster()
			errant := errantMap(cl)
			f, d := w.S[from], w.S[to]
			answers := f.Up && !w.Net.CtrlCut[f.Name]
			if answers && !f.Executed.Empty() {
				fail("the old primary runs and has data")
			}
			n := 0
			for i := range w.S {
				if counts(w, i, from, errant) && !w.S[i].Executed.Empty() {
					n++
				}
			}
			if n <= w.N/2 {
				fail("only %d of %d instances count", n, w.N)
			}
			if !d.Up || w.Net.CtrlCut[d.Name] {
				fail("the new primary does not run")
			}
			if errant[to] {
				fail("the new primary is errant")
			}
			for i, x := range w.S {
				if i == from || !x.Up || w.Net.CtrlCut[x.Name] || x.WaitSessions() > 0 {
					continue
				}
				if x.IORunning {
					fail("instance %d still receives", i)
				}
				if counts(w, i, from, errant) && !received(x).SubsetOf(d.Executed) {
					fail("instance %d received %s which the new primary has not executed (%s)", i, received(x), d.Executed)
				}
			}
			if !d.Retrieved.SubsetOf(d.Executed) {
				fail("it has not executed everything it received")
			}
		}
		w.Start()
		defer w.Stop()
		p.Fault.arm(w)
		w.StartController()
		passTime(w, 5*time.Minute, func() bool { return moved >= 0 })
		if e := unsupported(w); e != nil {
			return e
		}
		if viol != "" {
			return dump(w, s, "%s", viol)
		}
		c.Classes = append(c.Classes, "state-"+r.State)
		if moved >= 0 {
			c.Classes = append(c.Classes, "moved")
		}
		// liveness: all candidates are comparable and their SQL threads work
		if r.State == "Failed" {
			var sets []gtid.Set
			for i, in := range s.I {
				if i == s.Primary || !r.Answers[i] || in.Wait > 0 || in.Src < 0 || contains(r.Errants, i) {
					continue
				}
				x := set(s.N, in.Exec)
				x.Union(set(s.N, in.Retr))
				sets = append(sets, x)
			}
			chain := true
			for i := range sets {
				for j := range sets {
					if !sets[i].SubsetOf(sets[j]) && !sets[j].SubsetOf(sets[i]) {
						chain = false
					}
				}
			}
			if chain {
				c.Classes = append(c.Classes, "must-move")
				if moved < 0 {
					return dump(w, s, "the cluster is failed, %d replicas count and do not diverge, but the role does not move", len(r.OK))
				}
			} else {
				c.Classes = append(c.Classes, "diverged")
			}
			c.Nontrivial = true
		} else if !(s.I[s.Primary].Net == "" && len(s.I[s.Primary].Exec) > 0) {
			c.Nontrivial = true
		}
		return nil
	})
	return c, berr
}

func contains(a []int, x int) bool {
	for _, v := range a {
		if v == x {
			return true
		}
	}
	return false
}

func TestC05(t *testing.T) { vt.Run(t, "C05", genFail, runC05) }

// ---- C04 ----

// SwitchPlan is a switchover situation.
type SwitchPlan struct {
	S       Snap      `json:"snap"`
	Req     string    `json:"req"` // demote, delete, none
	Lag     []int     `json:"lag"` // ms
	Stuck   []int     `json:"stuck,omitempty"`
	Clients []ClientP `json:"clients,omitempty"`
	Idle    int       `json:"idle,omitempty"` // idle client connections on the primary
	Busy    float64   `json:"busy,omitempty"` // one of them is in a long transaction for that many seconds
	Fault   *Fault    `json:"fault,omitempty"`
}

var switchBias = SnapBias{"down": 2, "notready": 4, "errant": 2, "nosrc": 1, "othersrc": 1, "wait": 2, "delay": 3, "maxdelay": 3, "nulldelay": 1, "prevent": 1, "label": 1}

func genSwitch(t *rapid.T) SwitchPlan {
	s := genSnap(t, switchBias, []int{3, 3, 5}, 0, 4)
	s.I[s.Primary].Net, s.I[s.Primary].Ready = "", true
	if rapid.IntRange(0, 5).Draw(t, "delayed") == 0 {
		s.MaxDelay = 10
		d := rapid.SampledFrom([]int64{9, 10, 11, 60}).Draw(t, "delay")
		if i := (s.Primary + rapid.IntRange(1, s.N-1).Draw(t, "who")) % s.N; s.I[i].Src >= 0 {
			s.I[i].Delay = &d
		}
	}
	p := SwitchPlan{S: s, Req: rapid.SampledFrom([]string{"demote", "demote", "delete", "none", "demote-false"}).Draw(t, "req")}
	for i := 0; i < s.N; i++ {
		p.Lag = append(p.Lag, rapid.SampledFrom([]int{0, 0, 300, 2000, 20000}).Draw(t, "lag"))
	}
	if rapid.IntRange(0, 4).Draw(t, "stuck") == 0 {
		p.Stuck = []int{rapid.IntRange(0, s.N-1).Draw(t, "which")}
	}
	nc := rapid.IntRange(0, 2).Draw(t, "clients")
	for i := 0; i < nc; i++ {
		p.Clients = append(p.Clients, ClientP{Every: rapid.SampledFrom([]int{100, 500}).Draw(t, "every"), Sticky: rapid.Bool().Draw(t, "sticky")})
	}
	p.Idle = rapid.IntRange(0, 3).Draw(t, "idle")
	p.Busy = rapid.SampledFrom([]float64{0, 0, 3, 9, 30, 300}).Draw(t, "busy")
	p.Fault = genFault(t, 45)
	return p
}

func runC04(t *testing.T, p SwitchPlan) (c vt.Case, err error) {
	berr := vt.Bubble(t, func() error {
		s := p.S
		switch p.Req {
		case "demote":
			s.I[s.Primary].Demote = "true"
		case "demote-false":
			s.I[s.Primary].Demote = "false"
		case "delete":
			s.I[s.Primary].Term = true
		}
		w := s.Build(20 * time.Second)
		for i, l := range p.Lag {
			w.S[i].Lag = time.Duration(l) * time.Millisecond
		}
		for _, i := range p.Stuck {
			w.S[i].StopSQLApply = true
		}
		prim := w.S[s.Primary]
		r := s.ref()
		var conns []*mysim.Conn
		w.Net.Mu.Lock()
		for i := 0; i < p.Idle; i++ {
			cn := prim.NewClient("app", "10.1.2.3:5555")
			conns = append(conns, cn)
		}
		if p.Busy > 0 && len(conns) > 0 && !prim.ReadOnly {
			conns[0].BusyUntil = time.Now().Add(time.Duration(p.Busy * float64(time.Second)))
		}
		w.Net.Mu.Unlock()
		for _, cp := range p.Clients {
			w.AddClient(time.Duration(cp.Every)*time.Millisecond, cp.Sticky)
		}
		requested := p.Req == "demote" || p.Req == "delete"
		viol := ""
		moved := -1
		var movedAt time.Time
		w.OnPromote = func(from, to int) { // Mu held
			if moved >= 0 {
				return
			}
			moved, movedAt = to, time.Now()
			fail := func(f string, a ...any) {
				if viol == "" {
					viol = fmt.Sprintf("the role moved from %d to %d: ", from, to) + fmt.Sprintf(f, a...)
				}
			}
			if !requested {
				fail("nobody asked for it and the primary is fine")
			}
			if r.Prevent {
				fail("replication delay forbids it")
			}
			f, d := w.S[from], w.S[to]
			if !f.SuperRO {
				fail("the old primary is still writable")
			}
			var ro time.Time
			for _, e := range w.Net.Trace {
				if e.Server == f && e.Kind == "readonly" {
					ro = e.At
				}
			}
			for _, cn := range conns {
				if !cn.Closed {
					fail("a client connection of the old primary is still open")
				}
			}
			for _, cl := range w.Clients {
				if at, open := cl.OpenOn(f); open && at.Before(ro) {
					fail("a client connection of the old primary from before it became read-only is still open")
				}
			}
			if !f.Executed.SubsetOf(d.Executed) {
				fail("the new primary misses %s", f.Executed.Minus(d.Executed))
			}
			if r.State == "Healthy" || r.State == "Degraded" {
				// others may become healthy after a failed attempt
				if want := r.Candidates[0]; want < to {
					fail("the lowest-numbered healthy replica is %d", want)
				}
				if in := s.I[to]; !in.Ready || !r.Answers[to] || in.Wait > 0 || contains(r.Errants, to) {
					fail("it is not healthy")
				}
			}
		}
		w.Start()
		defer w.Stop()
		p.Fault.arm(w)
		started := time.Now()
		w.StartController()
		horizon := 6 * time.Minute
		passTime(w, horizon, func() bool { return moved >= 0 })
		if e := unsupported(w); e != nil {
			return e
		}
		if viol != "" {
			return dump(w, s, "%s", viol)
		}
		c.Classes = append(c.Classes, "state-"+r.State, "req-"+p.Req)
		avail := r.State == "Healthy" || r.State == "Degraded"
		if r.Prevent {
			c.Classes = append(c.Classes, "delay-forbids")
		}
		if avail && requested && !r.Prevent {
			c.Nontrivial = true
			stuck := false
			for _, i := range p.Stuck {
				if i == r.Candidates[0] {
					stuck = true
				}
			}
			if !stuck && moved < 0 {
				return dump(w, s, "the primary is to be replaced and replica %d is healthy, but the role does not move", r.Candidates[0])
			}
		}
		if moved >= 0 {
			c.Classes = append(c.Classes, "moved")
			time.Sleep(5 * time.Second)
			if p.Fault == nil && !w.ControllerDown() {
				if pod := w.Pod(s.Primary); pod != nil && pod.Annotations[world.AnnDemote] == "true" {
					return dump(w, s, "the demotion mark of the old primary is still there")
				}
				if v, ok := w.Metric("moco_cluster_switchover_total"); !ok || v < 1 {
					return dump(w, s, "the switchover was not counted")
				}
			}
			return nil
		}
		if r.Prevent || !requested || !avail {
			return nil
		}
		// failed attempts: the primary must become writable again
		c.Classes = append(c.Classes, "failed-attempts")
		w.Net.Mu.Lock()
		defer w.Net.Mu.Unlock()
		if s.Source {
			return nil
		}
		for k, e := range w.Net.Trace {
			if e.Server != prim || e.Kind != "readonly" || e.At.Sub(started) > horizon-3*time.Minute {
				continue
			}
			ok := false
			for _, x := range w.Net.Trace[k:] {
				if x.Server == prim && x.Kind == "writable" && x.At.Sub(e.At) < 150*time.Second {
					ok = true
				}
			}
			if !ok {
				return fmt.Errorf("a failed switchover left the primary read-only since %s", e.At.Sub(started))
			}
		}
		_ = movedAt
		return nil
	})
	return c, berr
}

func TestC04(t *testing.T) { vt.Run(t, "C04", genSwitch, runC04) }
