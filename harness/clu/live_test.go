package clu

import (
	"fmt"
	"strings"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"pgregory.net/rapid"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"verif/internal/mysim"
	"verif/internal/vt"
	"verif/internal/world"
)

func harmless(stmt string) bool {
	u := strings.ToUpper(stmt)
	return !mysim.Mutating(stmt) || strings.HasPrefix(u, "SET SESSION") || strings.HasPrefix(u, "SET @@SESSION") || strings.HasPrefix(u, "SET NAMES")
}

// ---- C08 ----

// SeedPlan is a cluster with replicas to be seeded.
type SeedPlan struct {
	S        Snap   `json:"snap"`
	Failures int    `json:"failures,omitempty"`
	CloneDur int    `json:"cloneDur"`
	Fault    *Fault `json:"fault,omitempty"`
	Switch   bool   `json:"switch,omitempty"`
}

var seedBias = SnapBias{"gap": 5, "fresh": 8, "empty": 2, "purge": 5, "behind": 4, "nosrc": 2, "othersrc": 2, "io": 1, "errant": 2, "down": 1, "readonly": 2, "foreign": 1, "writable": 1, "fresh-errlist": 1}

func genSeed(t *rapid.T) SeedPlan {
	s := genSnap(t, SnapBias{"none": 1}, []int{3, 3, 5}, 0, 0)
	s = healthySnap(s.N, s.Primary, false)
	cnt := rapid.IntRange(1, 5).Draw(t, "perturbations")
	w := Weights(seedBias)
	for k := 0; k < cnt; k++ {
		kind := pick(t, w)
		switch kind {
		case "fresh", "fresh-errlist":
			i := (s.Primary + rapid.IntRange(1, s.N-1).Draw(t, "i")) % s.N
			s.I[i] = Inst{Src: -1, RO: true, SRO: true}
			if kind == "fresh-errlist" {
				s.Errants = []int{i}
			}
		case "gap": // lacks purged transactions and is not connected
			i := (s.Primary + rapid.IntRange(1, s.N-1).Draw(t, "i")) % s.N
			k := rapid.Int64Range(1, 9).Draw(t, "k")
			s.I[i].Exec, s.I[i].Retr = []Iv{{s.Primary, 1, k}}, nil
			if rapid.Bool().Draw(t, "nosrc") {
				s.I[i].Src, s.I[i].IO, s.I[i].SQL = -1, "", false
			} else if rapid.Bool().Draw(t, "stopped") {
				s.I[i].IO = "No"
			} else {
				s.I[i].Src = 8
			}
			s.I[s.Primary].Purged = []Iv{{s.Primary, 1, min(10, k+rapid.Int64Range(0, 2).Draw(t, "purged"))}}
		default:
			perturb(t, &s, kind)
		}
	}
	p := SeedPlan{S: s, Failures: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 4}).Draw(t, "failures"), CloneDur: rapid.SampledFrom([]int{1, 10, 45}).Draw(t, "cloneDur")}
	p.Fault = genFault(t, 45)
	return p
}

func runC08(t *testing.T, p SeedPlan) (c vt.Case, err error) {
	berr := vt.Bubble(t, func() error {
		s := p.S
		w := s.Build(20 * time.Second)
		w.FreezeReady = false
		w.Cfg.CloneFailures, w.Cfg.CloneDur = p.Failures, time.Duration(p.CloneDur)*time.Second
		r := s.ref()
		viol := ""
		fail := func(f string, a ...any) {
			if viol == "" {
				viol = fmt.Sprintf(f, a...)
			}
		}
		seen := 0
		w.Net.OnStmt = func(x *mysim.Server, stmt string) {
			prim := w.S[w.PrimaryIdx()]
			if x.Index < 0 || x == prim || !strings.HasPrefix(strings.ToUpper(stmt), "CHANGE ") {
				return
			}
			seen++
			if !prim.Purged.SubsetOf(x.Executed) {
				fail("instance %d misses %s, which primary %d has purged, but is set to replicate: %s", x.Index, prim.Purged.Minus(x.Executed), prim.Index, stmt)
			}
			if x.Executed.Empty() && x.Src == nil && !prim.Executed.Empty() {
				fail("instance %d has no data and is set to replicate without cloning: %s", x.Index, stmt)
			}
			if !strings.Contains(stmt, prim.Host) && !strings.Contains(stmt, prim.IP) {
				fail("instance %d is set to replicate from something other than primary %d: %s", x.Index, prim.Index, stmt)
			}
		}
		w.Start()
		defer w.Stop()
		p.Fault.arm(w)
		w.StartController()
		passTime(w, 12*time.Minute, func() bool { return viol != "" })
		if e := unsupported(w); e != nil {
			return e
		}
		for _, cc := range w.Clones {
			prim := w.S[cc.Primary]
			switch {
			case cc.Executed != "":
				fail("instance %d has data (%s) but is told to clone", cc.Index, cc.Executed)
			case cc.Index == cc.Primary:
				fail("primary %d is told to clone", cc.Index)
			case cc.Listed:
				fail("errant instance %d is told to clone", cc.Index)
			case cc.Req.Host != prim.IP && cc.Req.Host != prim.Host:
				fail("instance %d is told to clone from %s, which is not primary %d", cc.Index, cc.Req.Host, cc.Primary)
			case cc.Req.Port != 33062 || cc.Req.User != "moco-clone-donor" || cc.Req.Password != world.Pw.Donor() || cc.Req.InitUser != "moco-admin" || cc.Req.InitPassword != world.Pw.Admin():
				fail("wrong clone request %v", cc.Req)
			}
		}
		if viol != "" {
			return dump(w, s, "%s", viol)
		}
		c.Classes = append(c.Classes, "state-"+r.State)
		if len(w.Clones) > 0 {
			c.Classes = append(c.Classes, "cloned")
		}
		gap, fresh := false, 0
		w.Net.Mu.Lock()
		defer w.Net.Mu.Unlock()
		pi := s.I[s.Primary]
		purged := set(s.N, pi.Purged)
		live := r.Answers[s.Primary] && len(pi.Exec) > 0 && w.PrimaryIdx() == s.Primary
		for i, in := range s.I {
			if i == s.Primary {
				continue
			}
			if !r.Answers[i] || contains(r.Errants, i) {
				continue
			}
			if len(in.Exec) == 0 && in.Src < 0 {
				fresh++
				continue
			}
			if !purged.SubsetOf(set(s.N, in.Exec)) {
				gap = true
			}
		}
		if gap {
			c.Classes = append(c.Classes, "gap")
		}
		if fresh > 0 {
			c.Classes = append(c.Classes, "fresh")
		}
		c.Nontrivial = gap || fresh > 0
		if live && !gap {
			c.Classes = append(c.Classes, "live")
			for i, in := range s.I {
				x := w.S[i]
				if i == s.Primary || !r.Answers[i] || contains(r.Errants, i) || contains(s.Errants, i) || len(in.Exec) > 0 || in.Src >= 0 {
					continue
				}
				if x.Src == nil || x.Src.Host != w.S[s.Primary].Host || x.IOState() != "Yes" || !w.S[s.Primary].Executed.SubsetOf(x.Executed) {
					return fmt.Errorf("fresh instance %d has not joined after 12 minutes (%d clone failures): src=%v io=%s exec=%s, primary %s", i, p.Failures, x.Src, x.IOState(), x.Executed, w.S[s.Primary].Executed)
				}
			}
		}
		_ = seen
		return nil
	})
	return c, berr
}

func TestC08(t *testing.T) { vt.Run(t, "C08", genSeed, runC08) }

// ---- C10 ----

// DelayStep changes delays.
type DelayStep struct {
	Delay  []*int64 `json:"delay"` // per instance; nil: NULL
	Down   int      `json:"down"`  // instance that does not answer (-1: none)
	Demote bool     `json:"demote,omitempty"`
	Limit  *int64   `json:"limit,omitempty"`
}

// DelayPlan is a history of replication delays.
type DelayPlan struct {
	S     Snap        `json:"snap"`
	Steps []DelayStep `json:"steps"`
}

func genDelay(t *rapid.T) DelayPlan {
	s := genSnap(t, SnapBias{"prevent": 3, "notready": 1, "nosrc": 1, "label": 1}, []int{1, 3, 3, 5}, 0, 2)
	s.MaxDelay = rapid.SampledFrom([]int64{0, 1, 10, 60, 3600}).Draw(t, "limit")
	p := DelayPlan{S: s}
	n := rapid.IntRange(1, 6).Draw(t, "steps")
	limit := s.MaxDelay
	for k := 0; k < n; k++ {
		st := DelayStep{Down: -1, Demote: rapid.IntRange(0, 5).Draw(t, "demote") == 0}
		if rapid.IntRange(0, 4).Draw(t, "newlimit") == 0 {
			limit = rapid.SampledFrom([]int64{0, 1, 10, 60}).Draw(t, "limit")
			l := limit
			st.Limit = &l
		}
		for i := 0; i < s.N; i++ {
			switch rapid.IntRange(0, 5).Draw(t, "d") {
			case 0:
				st.Delay = append(st.Delay, nil)
			case 1, 2, 3:
				z := rapid.Int64Range(0, max(limit, 0)).Draw(t, "below")
				st.Delay = append(st.Delay, &z)
			case 4:
				z := limit + rapid.SampledFrom([]int64{0, 1}).Draw(t, "edge")
				st.Delay = append(st.Delay, &z)
			default:
				z := limit + rapid.Int64Range(1, 100000).Draw(t, "above")
				st.Delay = append(st.Delay, &z)
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "down?") == 0 {
			st.Down = rapid.IntRange(0, s.N-1).Draw(t, "down")
		}
		p.Steps = append(p.Steps, st)
	}
	return p
}

func runC10(t *testing.T, p DelayPlan) (c vt.Case, err error) {
	berr := vt.Bubble(t, func() error {
		s := p.S
		w := s.Build(20 * time.Second)
		w.Start()
		defer w.Stop()
		w.StartController()
		down := -1
		limit := s.MaxDelay
		annotated := 0
		for k, st := range p.Steps {
			if st.Limit != nil {
				limit = *st.Limit
				w.UpdateSpec(func(cl *mocov1beta2.MySQLCluster) { cl.Spec.MaxDelaySecondsForPodDeletion = limit })
			}
			w.Net.Mu.Lock()
			for i, x := range w.S {
				x.OverrideDelay, x.OverrideDelayNull = nil, false
				if st.Delay[i] == nil {
					x.OverrideDelayNull = true
				} else {
					d := *st.Delay[i]
					x.OverrideDelay = &d
				}
			}
			w.Net.Mu.Unlock()
			prim := w.Primary()
			if st.Down == prim {
				st.Down = -1 // the role would move
			}
			if down >= 0 && down != st.Down {
				w.CrashServer(down, 0)
			}
			if st.Down >= 0 && st.Down != down {
				w.CrashServer(st.Down, 1e6*time.Second)
			}
			down = st.Down
			if st.Demote {
				w.Demote(prim)
			}
			time.Sleep(150 * time.Second)
			if e := unsupported(w); e != nil {
				return e
			}
			prim = w.Primary()
			want := false
			w.Net.Mu.Lock()
			for i, x := range w.S {
				if i != prim && x.Up && x.Src != nil && st.Delay[i] != nil && limit > 0 && *st.Delay[i] > limit {
					want = true
				}
			}
			w.Net.Mu.Unlock()
			for i := range w.S {
				pod := w.Pod(i)
				_, has := pod.Annotations[world.AnnPrevent]
				switch {
				case has && !want:
					return dump(w, s, "step %d: pod %d carries the annotation although no replica lags more than %d s", k, i, limit)
				case !has && want && i == prim:
					return dump(w, s, "step %d: the primary pod %d does not carry the annotation although a replica lags more than %d s", k, i, limit)
				}
			}
			if want {
				annotated++
				c.Classes = append(c.Classes, "lagging")
			} else {
				c.Classes = append(c.Classes, "fine")
			}
		}
		c.Nontrivial = annotated > 0
		return nil
	})
	return c, berr
}

func TestC10(t *testing.T) { vt.Run(t, "C10", genDelay, runC10) }

// ---- C12 ----

// OffStep changes the snapshot.
type OffStep struct {
	Kind string `json:"op"`
	I    int    `json:"i,omitempty"`
}

// OffPlan is a history of a cluster to be left alone.
type OffPlan struct {
	S     Snap      `json:"snap"`
	Steps []OffStep `json:"steps,omitempty"`
}

func genOff(t *rapid.T) OffPlan {
	s := genSnap(t, snapAll, []int{1, 3, 3, 5}, 0, 6)
	for k := 0; k < 2; k++ {
		switch rapid.IntRange(0, 6).Draw(t, "why") {
		case 0:
			s.Offline = true
			for i := range s.I {
				if rapid.Bool().Draw(t, "gone") {
					s.I[i].NoPod, s.I[i].Net = true, "down"
				}
			}
		case 1:
			s.Restore, s.Restored = true, false
		case 2: // lost
			s.I[s.Primary].Net = "down"
			for i := range s.I {
				if rapid.Bool().Draw(t, "down") {
					s.I[i].Net = "down"
				}
			}
		case 3:
			i := rapid.IntRange(0, s.N-1).Draw(t, "nopod")
			s.I[i].NoPod, s.I[i].Net = true, "down"
		case 4, 5: // waiting for the initial clone
			s.Source, s.Cloned = true, false
			s.I[s.Primary].Clone = rapid.SampledFrom([]string{"", "Failed", "In Progress", "Not Started"}).Draw(t, "clone")
			if rapid.Bool().Draw(t, "blank") {
				for i := range s.I {
					s.I[i].Exec, s.I[i].Retr, s.I[i].Src, s.I[i].IO, s.I[i].SQL = nil, nil, -1, "", false
				}
			}
		}
	}
	p := OffPlan{S: s}
	n := rapid.IntRange(0, 5).Draw(t, "steps")
	for k := 0; k < n; k++ {
		p.Steps = append(p.Steps, OffStep{Kind: rapid.SampledFrom([]string{"offline", "online", "restored", "crash", "boot", "demote", "delete", "notready", "ctlrestart"}).Draw(t, "step"),
			I: rapid.IntRange(0, s.N-1).Draw(t, "i")})
	}
	return p
}

func handsOff(s Snap, r Ref) string {
	switch {
	case r.Missing && !s.Offline:
		return "missing"
	case r.State == "Offline" || r.State == "Restoring" || r.State == "Lost" || r.State == "Cloning":
		return r.State
	}
	return ""
}

func runC12(t *testing.T, p OffPlan) (c vt.Case, err error) {
	berr := vt.Bubble(t, func() error {
		s := p.S
		w := s.Build(20 * time.Second)
		w.Cfg.CloneFailures = 1 << 30
		r := s.ref()
		why := handsOff(s, r)
		if m := s.settled(); handsOff(m, m.ref()) != why {
			why = "" // replication is about to change the state
		}
		labels := map[string]string{}
		for i, in := range s.I {
			labels[w.PodName(i)] = in.Label
		}
		viol := ""
		fail := func(f string, a ...any) {
			if viol == "" {
				viol = fmt.Sprintf(f, a...)
			}
		}
		cloned := s.Cloned
		w.Net.OnStmt = func(x *mysim.Server, stmt string) {
			if why != "" && !harmless(stmt) {
				fail("instance %d: %s", x.Index, stmt)
			}
		}
		w.OnWrite = func(verb string, obj client.Object) {
			if why == "" {
				return
			}
			switch o := obj.(type) {
			case *corev1.Pod:
				if o.Labels[world.RoleLabel] != labels[o.Name] {
					fail("the role label of pod %s became %q", o.Name, o.Labels[world.RoleLabel])
				}
			case *mocov1beta2.MySQLCluster:
				if o.Status.CurrentPrimaryIndex != s.Primary {
					fail("the recorded primary became %d", o.Status.CurrentPrimaryIndex)
				}
				if o.Status.Cloned && !cloned && r.Cloning {
					fail("the initial clone is recorded as completed")
				}
				if o.Status.Cloned {
					cloned = true
				}
			}
		}
		w.Start()
		defer w.Stop()
		w.StartController()
		time.Sleep(75 * time.Second)
		steps := 0
		var grace time.Time
		graced := false
		check := func() error {
			if e := unsupported(w); e != nil {
				return e
			}
			for _, cc := range w.Clones {
				if cc.Index == s.Primary && graced && cc.At.Before(grace) {
					continue // decided before the change
				}
				if why != "Cloning" || cc.Index != s.Primary {
					fail("instance %d was told to clone", cc.Index)
				}
			}
			w.Clones = nil
			if viol != "" {
				return dump(w, s, "the cluster is to be left alone (%s), but %s", why, viol)
			}
			return nil
		}
		if why == "" {
			c.Classes = append(c.Classes, "not-off")
			return unsupported(w)
		}
		c.Nontrivial = true
		c.Classes = append(c.Classes, "off-"+why)
		if e := check(); e != nil {
			return e
		}
		if len(w.Clones) > 0 {
			s.I[s.Primary].Clone = "Failed"
		}
		for _, st := range p.Steps {
			n := s
			n.I = append([]Inst(nil), s.I...)
			n.Cloned = cloned
			w.Net.Mu.Lock()
			n.I[s.Primary].Clone = w.S[s.Primary].Clone
			// replication went on meanwhile
			for i := range n.I {
				x := w.S[i]
				n.I[i].Exec, n.I[i].Retr = ivsOf(w, x.Executed), ivsOf(w, x.Retrieved)
			}
			w.Net.Mu.Unlock()
			in := &n.I[st.I]
			var do func()
			switch st.Kind {
			case "offline", "online":
				n.Offline = st.Kind == "offline"
				do = func() { w.UpdateSpec(func(cl *mocov1beta2.MySQLCluster) { cl.Spec.Offline = n.Offline }) }
			case "restored":
				n.Restored = true
				do = func() {
					w.UpdateStatus(func(cl *mocov1beta2.MySQLCluster) {
						now := metav1.Now()
						cl.Status.RestoredTime = &now
					})
				}
			case "crash":
				if in.NoPod || in.Net != "" {
					continue
				}
				in.Net = "down"
				do = func() { w.CrashServer(st.I, 1e6*time.Second) }
			case "boot":
				continue // a restarted instance differs in more than its reachability
			case "demote":
				if in.NoPod {
					continue
				}
				do = func() { w.Demote(st.I) }
			case "delete":
				if in.NoPod || in.Term {
					continue
				}
				in.Term = true
				do = func() { w.MarkDeleted(st.I) }
			case "notready":
				if in.NoPod {
					continue
				}
				in.Ready = false
				do = func() { w.SetReady(st.I, false) }
			case "ctlrestart":
				do = func() { w.CrashController(); time.Sleep(30 * time.Second); w.StartController() }
			}
			nr := n.ref()
			if handsOff(n, nr) == "" {
				break
			}
			if m := n.settled(); handsOff(m, m.ref()) != handsOff(n, nr) {
				break
			}
			// leaving and entering must not be judged by a check that started before
			graced = r.Cloning
			s, r = n, nr
			grace = time.Now().Add(45 * time.Second)
			do()
			why = handsOff(n, nr)
			time.Sleep(90 * time.Second)
			steps++
			if e := check(); e != nil {
				return e
			}
			c.Classes = append(c.Classes, "step-"+why)
		}
		return nil
	})
	return c, berr
}

func TestC12(t *testing.T) { vt.Run(t, "C12", genOff, runC12) }
