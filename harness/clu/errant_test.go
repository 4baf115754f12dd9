package clu

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"pgregory.net/rapid"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"verif/internal/mysim"
	"verif/internal/vt"
	"verif/internal/world"
)

// ---- C06 ----

var errantMix = Weights{"errant": 8, "stop": 4, "boot": 4, "ctrlcut": 2, "heal": 3, "reinit": 4, "demote": 2, "absolve": 3, "nothing": 1, "ctlrestart": 1, "purgedown": 1}

func genErrantPlan(t *rapid.T) Plan {
	p := genPlan(t, Weights{"wake": 1}, 0, 0)
	cnt := rapid.IntRange(3, 12).Draw(t, "ops")
	for k := 0; k < cnt; k++ {
		o := Op{Kind: pick(t, errantMix), I: rapid.IntRange(-1, p.N-1).Draw(t, "i")}
		o.Wait = rapid.SampledFrom([]float64{1, 150, 150, 200, 300}).Draw(t, "wait")
		p.Ops = append(p.Ops, o)
	}
	return p
}

// errantByData tells whether the replica executed transactions unknown to the primary (Mu held).
func errantByData(p, s *mysim.Server) bool {
	d := s.Executed.Minus(p.Executed)
	for u := range d {
		if u != p.UUID && !d.Only(u).Empty() {
			return true
		}
	}
	return false
}

func runC06(t *testing.T, p Plan) (c vt.Case, err error) {
	berr := vt.Bubble(t, func() error {
		r := NewRunner(p)
		w := r.W
		defer func() { w.Stop() }()
		listed := map[int]time.Time{}
		viol := ""
		fail := func(f string, a ...any) {
			if viol == "" {
				viol = fmt.Sprintf(f, a...)
			}
		}
		w.OnWrite = func(verb string, obj client.Object) {
			cl, ok := obj.(*mocov1beta2.MySQLCluster)
			if !ok {
				return
			}
			now := map[int]time.Time{}
			for _, i := range cl.Status.ErrantReplicaList {
				now[i] = time.Now()
				if at, ok := listed[i]; ok {
					now[i] = at
				}
			}
			r.locked(func() { listed = now })
		}
		w.Net.OnStmt = func(s *mysim.Server, stmt string) { // Mu held
			if s.Index < 0 || !mysim.Mutating(stmt) {
				return
			}
			if _, ok := listed[s.Index]; !ok {
				return
			}
			u := strings.ToUpper(stmt)
			if strings.Contains(u, "STOP") && strings.Contains(u, "IO_THREAD") || strings.HasPrefix(u, "SET SESSION") || strings.HasPrefix(u, "SET NAMES") {
				return
			}
			fail("instance %d is recorded as errant but the controller executed %s on it", s.Index, stmt)
		}
		w.OnPromote = func(from, to int) {
			if _, ok := listed[to]; ok {
				fail("errant instance %d became the primary", to)
			}
		}
		r.Start()
		if !r.InitOK {
			c.Classes = append(c.Classes, "never-healthy")
			return unsupported(w)
		}
		stopped := map[int]bool{}
		everListed := 0
		for k, o := range p.Ops {
			i := r.target(o.I)
			if o.Kind == "errant" && i == w.Primary() {
				i = (i + 1) % w.N
				o.I = i
			}
			s := w.S[i]
			before := append([]int(nil), w.Cluster().Status.ErrantReplicaList...)
			primBefore := w.Primary()
			switch o.Kind {
			case "errant", "ctrlcut", "ctlrestart":
				if o.Kind == "ctrlcut" {
					o.Dur = 1e6
				}
				r.Do(o)
			case "demote":
				r.Do(o)
			case "stop":
				if len(stopped) <= w.N/2 {
					w.CrashServer(i, 1e6*time.Second)
					stopped[i] = true
				}
			case "boot":
				var up []int
				for j := range stopped {
					up = append(up, j)
				}
				sort.Ints(up)
				if len(up) > 0 {
					j := up[((o.I%len(up))+len(up))%len(up)]
					w.CrashServer(j, 0)
					delete(stopped, j)
				}
			case "heal":
				for _, h := range r.heals {
					h.f()
				}
				r.heals = nil
			case "reinit": // what the documentation tells to do with an errant replica
				if len(before) > 0 {
					j := before[((o.I%len(before))+len(before))%len(before)]
					if j != w.Primary() && w.S[j].Up && w.S[w.Primary()].Up {
						w.WipePod(j)
						w.Note("op-reinit")
					}
				}
			case "absolve": // empty transactions on the primary
				pr := w.S[w.Primary()]
				r.locked(func() {
					if !pr.Up || s == pr || pr.Executed.Empty() || !errantByData(pr, s) {
						return
					}
					w.Notes["op-absolve"]++
					for _, id := range ids(s.Executed.Minus(pr.Executed)) {
						pr.Executed.Add(id)
						pr.Binlog = append(pr.Binlog, mysim.Txn{ID: id, Row: -1, At: time.Now()})
					}
				})
			}
			_ = s
			r.sleep(time.Duration(o.Wait * float64(time.Second)))
			if e := unsupported(w); e != nil {
				return e
			}
			if viol != "" {
				return errors.New(viol + "\n" + w.Dump(dumpN))
			}
			if o.Wait < 100 || w.Moving() || w.ControllerDown() {
				continue
			}
			// judge the settled cluster
			cl := w.Cluster()
			prim := cl.Status.CurrentPrimaryIndex
			want := map[int]bool{}
			known := false
			hung := false
			var answers []bool
			r.locked(func() {
				ps := w.S[prim]
				known = ps.Up && !w.Net.CtrlCut[ps.Name] && !ps.Executed.Empty()
				for j, x := range w.S {
					a := x.Up && !w.Net.CtrlCut[x.Name]
					answers = append(answers, a)
					if j != prim && a && errantByData(ps, x) {
						want[j] = true
					}
					if x.WaitSessions() > 0 {
						hung = true
					}
				}
			})
			got := map[int]bool{}
			for _, e := range cl.Status.ErrantReplicaList {
				got[e] = true
			}
			if len(got) != len(cl.Status.ErrantReplicaList) || cl.Status.ErrantReplicas != len(got) {
				return errors.New("the number of errant replicas does not match the list\n" + w.Dump(dumpN))
			}
			for j := range w.S {
				if j == prim {
					if got[j] && known && prim == primBefore {
						return fmt.Errorf("step %d: the primary %d is listed as errant\n%s", k, j, w.Dump(dumpN))
					}
					continue
				}
				was := contains(before, j)
				switch {
				case known && answers[j]:
					if got[j] != want[j] {
						return fmt.Errorf("step %d: instance %d errant by its data: %v, recorded: %v\n%s", k, j, want[j], got[j], w.Dump(dumpN))
					}
				case !answers[j] && was && !got[j] && prim == primBefore && o.Kind != "reinit" && o.Kind != "absolve" && o.Kind != "heal" && o.Kind != "boot":
					return fmt.Errorf("step %d: instance %d does not answer but its errant record disappeared\n%s", k, j, w.Dump(dumpN))
				case !known && prim == primBefore && was != got[j] && !answers[prim] && (o.Kind == "stop" && j != i || o.Kind == "nothing" || o.Kind == "errant"):
					if !(o.Kind == "stop" && i == prim) { // judged before the primary went down
						return fmt.Errorf("step %d: the primary does not answer but the errant record of %d changed to %v\n%s", k, j, got[j], w.Dump(dumpN))
					}
				}
				if got[j] {
					everListed++
					pod := w.Pod(j)
					if known && pod != nil && pod.Labels[world.RoleLabel] != "" {
						return fmt.Errorf("step %d: errant instance %d carries the role label %s\n%s", k, j, pod.Labels[world.RoleLabel], w.Dump(dumpN))
					}
					if known && answers[j] && !hung {
						io := ""
						r.locked(func() { io = w.S[j].IOState() })
						if io == "Yes" {
							return fmt.Errorf("step %d: errant instance %d still receives from the primary\n%s", k, j, w.Dump(dumpN))
						}
					}
					if st := w.State(); st == "Healthy" {
						return fmt.Errorf("step %d: the cluster with errant instance %d is reported healthy\n%s", k, j, w.Dump(dumpN))
					}
				}
			}
			if known {
				c.Classes = append(c.Classes, "judged")
			} else {
				c.Classes = append(c.Classes, "primary-down")
			}
		}
		for _, cc := range w.Clones {
			if cc.Listed {
				return fmt.Errorf("instance %d recorded as errant was told to clone\n%s", cc.Index, w.Dump(dumpN))
			}
		}
		for _, n := range w.SortedNotes() {
			if strings.HasPrefix(n, "op-") || n == "primary-change" {
				c.Classes = append(c.Classes, n)
			}
		}
		if everListed > 0 {
			c.Classes = append(c.Classes, "listed")
		}
		c.Nontrivial = everListed > 0
		return nil
	})
	return c, berr
}

// c06plan is either a history or one cluster state.
type c06plan struct {
	Plan
	Snap *Snap `json:"snap,omitempty"`
}

var snapErrant = SnapBias{"errant": 8, "foreign": 4, "ahead": 8, "behind": 3, "errlist": 4, "down": 2, "cut": 1, "notready": 2, "empty": 1, "retr": 2, "nosrc": 1, "io": 2, "restore": 1}

func genC06(t *rapid.T) c06plan {
	if rapid.IntRange(0, 2).Draw(t, "kind") == 0 {
		return c06plan{Plan: genErrantPlan(t)}
	}
	s := genSnap(t, snapErrant, []int{3, 3, 3, 5, 5, 7}, 1, 8)
	return c06plan{Snap: &s}
}

func runC06both(t *testing.T, p c06plan) (vt.Case, error) {
	if p.Snap == nil {
		return runC06(t, p.Plan)
	}
	return runC06snap(t, *p.Snap)
}

// runC06snap: the record of errant replicas in one state that does not move.
func runC06snap(t *testing.T, s Snap) (c vt.Case, err error) {
	berr := vt.Bubble(t, func() error {
		w := s.Build(20 * time.Second)
		w.Start2()
		defer w.Stop()
		w.FailMut = true
		r := s.ref()
		w.StartController()
		time.Sleep(60 * time.Second)
		if e := unsupported(w); e != nil {
			return e
		}
		if r.Missing || s.Offline {
			return nil
		}
		cl := w.Cluster()
		c.Classes = append(c.Classes, "snapshot")
		c.Nontrivial = len(r.Errants) > 0
		if c.Nontrivial {
			c.Classes = append(c.Classes, "snapshot-errants")
		}
		if cl.Status.ErrantReplicas != len(r.Errants) || !sameInts(cl.Status.ErrantReplicaList, r.Errants) {
			return dump(w, s, "errantReplicas is %d %v but the errant instances are %v", cl.Status.ErrantReplicas, cl.Status.ErrantReplicaList, r.Errants)
		}
		if len(r.Errants) > 0 && w.State() == "Healthy" {
			return dump(w, s, "the cluster with errant instances %v is reported healthy", r.Errants)
		}
		return nil
	})
	return c, berr
}

func TestC06(t *testing.T) { vt.Run(t, "C06", genC06, runC06both) }
