package clu

import (
	"context"
	"fmt"
	"strings"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/types"
	"pgregory.net/rapid"

	"verif/internal/gtid"
	"verif/internal/mysim"
	"verif/internal/vt"
	"verif/internal/world"
)

// ---- C13 ----

// SrcPlan is the life of a replica cluster.
type SrcPlan struct {
	Plan
	Failures int    `json:"failures,omitempty"`
	User     string `json:"user"`
	Password string `json:"password"`
	Port     int    `json:"port"`
	InitUser string `json:"initUser"`
	InitPw   string `json:"initPw"`
	Bad      string `json:"bad,omitempty"`     // secret key that is missing or malformed at first
	Promote  bool   `json:"promote,omitempty"` // the secret reference is removed in the end
	PFault   *Fault `json:"pfault,omitempty"`  // during the promotion
	PSource  bool   `json:"psource,omitempty"` // the source dies during the promotion
	Early    int    `json:"early,omitempty"`   // seconds after which the controller crashes for the first time
	Stall    int    `json:"stall,omitempty"`   // seconds the SQL thread of the primary is stuck before the promotion
	PWrites  int    `json:"pwrites,omitempty"` // milliseconds between writes on the source during the promotion (0: none)
}

func genSrc(t *rapid.T) SrcPlan {
	p := SrcPlan{Plan: genPlan(t, Weights{"crash": 6, "demote": 4, "ctlrestart": 3, "ctrlcut": 3, "crashsource": 3, "rotate": 4, "writes": 6, "lag": 2, "apifault": 1, "sqlfault": 2, "crashapi": 2, "crashsql": 2, "delete": 2}, 1, 7)}
	p.N = rapid.SampledFrom([]int{1, 3, 3, 5}).Draw(t, "n")
	p.Lag = p.Lag[:min(len(p.Lag), p.N)]
	p.Source = true
	p.Clients = nil
	for i := range p.Ops {
		if p.Ops[i].I >= p.N {
			p.Ops[i].I = p.N - 1
		}
	}
	p.Failures = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "failures")
	str := rapid.StringMatching(`[a-zA-Z0-9'"\\ %&;#$-]{1,12}`)
	p.User = rapid.StringMatching(`[a-z][a-z0-9_-]{0,10}`).Draw(t, "user")
	p.Password = str.Draw(t, "pw")
	p.Port = rapid.SampledFrom([]int{3306, 3306, 33060, 1, 65535}).Draw(t, "port")
	p.InitUser = rapid.StringMatching(`[a-z][a-z0-9_-]{0,10}`).Draw(t, "iuser")
	p.InitPw = str.Draw(t, "ipw")
	p.Bad = rapid.SampledFrom([]string{"", "", "", "HOST", "PORT", "USER", "PASSWORD", "INIT_USER", "INIT_PASSWORD", "port-x", "port-0"}).Draw(t, "bad")
	p.Promote = rapid.IntRange(0, 2).Draw(t, "promote") > 0
	p.PFault = genFault(t, 45)
	p.PSource = rapid.IntRange(0, 3).Draw(t, "psource") == 0
	p.Early = rapid.SampledFrom([]int{0, 1, 5, 15, 30}).Draw(t, "early")
	p.Stall = rapid.SampledFrom([]int{0, 0, 20, 100}).Draw(t, "stall")
	p.PWrites = rapid.SampledFrom([]int{0, 0, 20, 500, 3000}).Draw(t, "pwrites")
	return p
}

func runC13(t *testing.T, p SrcPlan) (c vt.Case, err error) {
	berr := vt.Bubble(t, func() error {
		r := NewRunner(p.Plan)
		w := r.W
		w.Cfg.CloneFailures = p.Failures
		// clients do not write to a read-only cluster
		src := w.Source
		good := map[string][]byte{"HOST": []byte("source.example.com"), "PORT": []byte(fmt.Sprint(p.Port)), "USER": []byte(p.User), "PASSWORD": []byte(p.Password),
			"INIT_USER": []byte(p.InitUser), "INIT_PASSWORD": []byte(p.InitPw)}
		setSecret := func(bad string) {
			sec := &corev1.Secret{}
			key := types.NamespacedName{Namespace: w.Cfg.NS, Name: world.SrcSecret}
			if err := w.C.Get(context.Background(), key, sec); err != nil {
				panic(err)
			}
			sec.Data = map[string][]byte{}
			for k, v := range good {
				sec.Data[k] = v
			}
			switch bad {
			case "":
			case "port-x":
				sec.Data["PORT"] = []byte("12x")
			case "port-0":
				sec.Data["PORT"] = []byte("0")
			default:
				delete(sec.Data, bad)
			}
			if err := w.C.Update(context.Background(), sec); err != nil {
				panic(err)
			}
		}
		setSecret(p.Bad)
		src.Users = map[string]string{p.User: p.Password}
		viol := ""
		fail := func(f string, a ...any) {
			if viol == "" {
				viol = fmt.Sprintf(f, a...)
			}
		}
		promoting := false
		quit := make(chan struct{})
		defer close(quit)
		dropped := map[*mysim.Server]gtid.Set{}
		w.Net.OnStmt = func(x *mysim.Server, stmt string) {
			u := strings.ToUpper(stmt)
			if promoting && x.Index >= 0 && (strings.HasPrefix(u, "RESET ") || strings.HasPrefix(u, "CHANGE ")) {
				// the relay log is about to be thrown away
				d := x.Retrieved.Minus(x.Executed)
				if o, ok := dropped[x]; ok {
					d.Union(o)
				}
				dropped[x] = d
			}
			if x.Index < 0 && mysim.Mutating(stmt) {
				fail("the controller changes the source: %s", stmt)
			}
			if strings.HasPrefix(u, "CHANGE ") && strings.Contains(stmt, "source.example.com") {
				if x.Index != w.PrimaryIdx() {
					fail("instance %d is set to replicate from the source although %d is the primary", x.Index, w.PrimaryIdx())
				}
			}
		}
		w.OnWritable = func(x *mysim.Server) { // Mu held
			if !x.Retrieved.SubsetOf(x.Executed) {
				fail("instance %d was made writable before it executed %s which it received", x.Index, x.Retrieved.Minus(x.Executed))
			}
			if d, ok := dropped[x]; ok && !d.SubsetOf(x.Executed) {
				fail("instance %d was made writable after it discarded %s which it received and did not execute", x.Index, d.Minus(x.Executed))
			}
			if x.IORunning {
				fail("instance %d was made writable while it still receives", x.Index)
			}
		}
		w.Net.Mu.Lock()
		for k := 0; k < 5; k++ {
			src.LocalCommit()
		}
		w.Net.Mu.Unlock()
		w.Start()
		defer w.Stop()
		w.StartController()
		if p.Bad != "" {
			r.sleep(70 * time.Second)
			if len(w.Clones) > 0 {
				return dump(w, Snap{}, "the secret lacks %s but a clone was requested: %v", p.Bad, w.Clones[0].Req)
			}
			setSecret("")
		}
		check := func(step string) error {
			if e := unsupported(w); e != nil {
				return e
			}
			if v := w.Viol["C02"]; v != "" {
				fail("%s", v)
			}
			if viol != "" {
				return dump(w, Snap{}, "%s: %s", step, viol)
			}
			return nil
		}
		if p.Early > 0 {
			r.sleep(time.Duration(p.Early) * time.Second)
			w.CrashController()
			r.restart = time.Now().Add(time.Second)
		}
		init := r.WaitState("Healthy", 20*time.Minute)
		if e := check("initial clone"); e != nil {
			return e
		}
		done := 0
		for _, cc := range w.Clones {
			if cc.Req.Host == "source.example.com" || cc.Req.User == p.User {
				if cc.Req.Host != "source.example.com" || cc.Req.Port != int32(p.Port) || cc.Req.User != p.User || cc.Req.Password != p.Password || cc.Req.InitUser != p.InitUser || cc.Req.InitPassword != p.InitPw {
					return dump(w, Snap{}, "the clone request %v does not match the secret", cc.Req)
				}
				if cc.Running {
					return dump(w, Snap{}, "a clone was requested while another is running")
				}
				if cc.Index != cc.Primary {
					return dump(w, Snap{}, "instance %d is told to clone from the source but %d is the primary", cc.Index, cc.Primary)
				}
				if done > 0 {
					return dump(w, Snap{}, "a second clone from the source was requested after one completed")
				}
				if !cc.Failed {
					done++
				}
			}
		}
		if !init {
			return dump(w, Snap{}, "the cluster did not become healthy in 20 minutes (%d clone failures), state %s", p.Failures, w.State())
		}
		if done != 1 {
			return dump(w, Snap{}, "%d clones from the source", done)
		}
		initial := len(w.Clones)
		// credentials the secret has had; the source accepts only the last ones
		rot := -1
		creds := map[string]bool{fmt.Sprintf("%d %s", p.Port, p.Password): true}
		follow := func(step string) error {
			var e error
			r.locked(func() {
				prim := w.S[w.PrimaryIdx()]
				if !prim.SuperRO {
					e = fmt.Errorf("%s: the primary is not read-only", step)
				}
				if s := prim.Src; s == nil || s.Host != "source.example.com" || !creds[fmt.Sprintf("%d %s", s.Port, s.Password)] || s.User != p.User || !s.Auto || prim.IOState() != "Yes" {
					e = fmt.Errorf("%s: the primary %d does not replicate from the source: %+v %s", step, prim.Index, s, prim.IOState())
				}
				if prim.SSMaster || prim.SSSlave {
					// allowed, but has no effect
				}
				for _, x := range w.S {
					if x == prim {
						continue
					}
					if x.Src == nil || x.Src.Host != prim.Host || x.IOState() != "Yes" {
						e = fmt.Errorf("%s: instance %d does not replicate from primary %d", step, x.Index, prim.Index)
					}
					if !x.SuperRO {
						e = fmt.Errorf("%s: instance %d is not read-only", step, x.Index)
					}
					if x.SSSlave {
						e = fmt.Errorf("%s: instance %d uses semi-synchronous replication", step, x.Index)
					}
				}
			})
			if e != nil {
				return fmt.Errorf("%w\n%s", e, w.Dump(dumpN))
			}
			return nil
		}
		if e := follow("after the initial clone"); e != nil {
			return e
		}
		promote := func() {
			if p.Stall > 0 {
				r.locked(func() {
					prim := w.S[w.PrimaryIdx()]
					prim.Lag = time.Duration(p.Stall) * time.Second
					for k := 0; k < 3; k++ {
						src.LocalCommit()
					}
				})
				r.sleep(2 * time.Second)
			}
			p.PFault.arm(w)
			r.locked(func() { promoting = true })
			if p.PSource {
				r.locked(func() { src.Crash() })
			}
			if p.PWrites > 0 {
				go func() {
					for range 120000 / p.PWrites {
						select {
						case <-quit:
							return
						case <-time.After(time.Duration(p.PWrites) * time.Millisecond):
						}
						r.locked(func() {
							if src.Up {
								src.LocalCommit()
							}
						})
					}
				}()
			}
			w.UpdateSpec(func(cl *mocov1beta2.MySQLCluster) { cl.Spec.ReplicationSourceSecretName = nil })
		}
		for k, o := range p.Ops {
			switch o.Kind {
			case "writes":
				r.locked(func() {
					if src.Up {
						for k := 0; k < 3; k++ {
							src.LocalCommit()
						}
					}
				})
			case "rotate":
				// a new password, and the source is restarted
				pw := fmt.Sprintf("%s.%d", p.Password, k)
				port := 3300 + k
				if o.I&1 == 0 {
					good["PASSWORD"], good["PORT"] = []byte(pw), []byte(fmt.Sprint(port))
					creds[fmt.Sprintf("%d %s", port, pw)] = true
					setSecret("")
				}
				r.locked(func() {
					src.Users = map[string]string{p.User: pw}
					src.Crash()
				})
				rot = k
				r.later(8, func() {
					if o.I&1 == 1 && rot == k {
						good["PASSWORD"], good["PORT"] = []byte(pw), []byte(fmt.Sprint(port))
						creds[fmt.Sprintf("%d %s", port, pw)] = true
						setSecret("")
					}
					r.locked(func() { src.Boot() })
				})
				c.Classes = append(c.Classes, "rotate")
			case "crashsource":
				r.locked(func() { src.Crash() })
				r.later(12, func() { r.locked(func() { src.Boot() }) })
			default:
				r.Do(o)
			}
			r.sleep(time.Duration(o.Wait * float64(time.Second)))
			if e := check(fmt.Sprintf("op %d (%s)", k, o.Kind)); e != nil {
				return e
			}
		}
		// end of faults
		w.ClearFaults()
		for _, h := range r.heals {
			h.f()
		}
		r.heals = nil
		r.locked(func() {
			w.Net.HealAll()
			for _, s := range w.Net.List {
				s.Lag = 0
			}
		})
		for k := 0; k < 60; k++ {
			r.sleep(20 * time.Second)
			if w.State() == "Healthy" && !w.Busy() && !w.ControllerDown() {
				break
			}
		}
		r.sleep(130 * time.Second)
		if e := check("after the faults"); e != nil {
			return e
		}
		for _, n := range w.SortedNotes() {
			if strings.HasPrefix(n, "op-") || n == "primary-change" || n == "controller-crash" {
				c.Classes = append(c.Classes, n)
			}
		}
		for _, cc := range w.Clones[initial:] {
			if cc.Req.Host == "source.example.com" {
				return dump(w, Snap{}, "a second clone from the source was requested after one completed")
			}
		}
		c.Nontrivial = len(p.Ops) > 0
		{
			if w.State() != "Healthy" {
				return dump(w, Snap{}, "after the faults ended the cluster that follows its source does not become healthy, state %s", w.State())
			}
			if e := follow("after the faults"); e != nil {
				return e
			}
			var e error
			r.locked(func() {
				for _, x := range w.S {
					if !src.Executed.SubsetOf(x.Executed) {
						e = fmt.Errorf("instance %d has not executed %s of the source", x.Index, src.Executed.Minus(x.Executed))
					}
				}
			})
			if e != nil {
				return fmt.Errorf("%w\n%s", e, w.Dump(dumpN))
			}
		}
		if !p.Promote {
			c.Classes = append(c.Classes, "not-promoted")
			return nil
		}
		promote()
		for k := 0; k < 40; k++ {
			r.sleep(10 * time.Second)
			writable := false
			r.locked(func() { writable = !w.S[w.PrimaryIdx()].ReadOnly })
			if w.State() == "Healthy" && writable && !w.ControllerDown() {
				break
			}
		}
		r.sleep(10 * time.Second)
		if e := check("promotion"); e != nil {
			return e
		}
		c.Classes = append(c.Classes, "promoted")
		if w.State() != "Healthy" {
			return dump(w, Snap{}, "the promoted cluster does not become healthy, state %s", w.State())
		}
		var e error
		r.locked(func() {
			prim := w.S[w.PrimaryIdx()]
			switch {
			case prim.ReadOnly:
				e = fmt.Errorf("the primary of the promoted cluster is read-only")
			case prim.IORunning:
				e = fmt.Errorf("the primary of the promoted cluster still receives")
			case !prim.Retrieved.SubsetOf(prim.Executed):
				e = fmt.Errorf("the primary of the promoted cluster has not executed %s", prim.Retrieved.Minus(prim.Executed))
			}
		})
		if e != nil {
			return fmt.Errorf("%w\n%s", e, w.Dump(dumpN))
		}
		// it really accepts writes
		w.ClearFaults()
		for k := 0; ; k++ {
			var wr *mysim.Write
			r.locked(func() {
				prim := w.S[w.PrimaryIdx()]
				if cn := prim.NewClient("app", "10.99.0.1"); cn != nil {
					wr = prim.ClientWrite(cn)
				}
			})
			r.sleep(130 * time.Second)
			ok := false
			r.locked(func() { ok = wr != nil && wr.Acked })
			if ok {
				break
			}
			if k == 2 {
				return dump(w, Snap{}, "the promoted cluster does not acknowledge a write")
			}
		}
		return nil
	})
	return c, berr
}

func TestC13(t *testing.T) { vt.Run(t, "C13", genSrc, runC13) }
