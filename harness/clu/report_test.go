package clu

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"pgregory.net/rapid"

	"verif/internal/vt"
	"verif/internal/world"
)

// ReportStep is something that happens to the cluster.
type ReportStep struct {
	Kind   string        `json:"kind"`
	I      int           `json:"i,omitempty"`
	Dur    int           `json:"dur,omitempty"` // seconds
	Fault  *Fault        `json:"fault,omitempty"`
	Backup *ReportBackup `json:"backup,omitempty"`
}

// ReportBackup is what a backup job recorded.
type ReportBackup struct {
	Unix, Dump, Binlog, WorkDir int64
	ElapsedMs                   int64
	Warnings                    int
}

// ReportPlan is a history whose metrics and events are judged.
type ReportPlan struct {
	N       int          `json:"n"`
	Primary int          `json:"primary"`
	Steps   []ReportStep `json:"steps"`
}

func genReport(t *rapid.T) ReportPlan {
	p := ReportPlan{N: rapid.SampledFrom([]int{3, 3, 5}).Draw(t, "n")}
	p.Primary = rapid.IntRange(0, p.N-1).Draw(t, "primary")
	n := rapid.IntRange(1, 6).Draw(t, "steps")
	w := Weights{"demote": 4, "delete": 3, "fail": 5, "replica": 2, "backup": 4, "quiet": 2, "outage": 2, "scale": 1}
	for k := 0; k < n; k++ {
		s := ReportStep{Kind: pick(t, w), I: rapid.IntRange(0, 6).Draw(t, "i"), Dur: rapid.SampledFrom([]int{60, 100, 200}).Draw(t, "dur")}
		switch s.Kind {
		case "demote", "delete", "fail":
			if f := genFault(t, 80); f != nil && !strings.HasPrefix(f.Kind, "ctl") {
				s.Fault = f
			}
		case "backup":
			s.Backup = &ReportBackup{Unix: rapid.Int64Range(1, 1<<32).Draw(t, "unix"), Dump: rapid.Int64Range(0, 1<<40).Draw(t, "dump"), Binlog: rapid.Int64Range(0, 1<<40).Draw(t, "binlog"),
				WorkDir: rapid.Int64Range(0, 1<<40).Draw(t, "workdir"), ElapsedMs: rapid.Int64Range(0, 1<<30).Draw(t, "elapsed"), Warnings: rapid.IntRange(0, 4).Draw(t, "warnings")}
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

var numRE = regexp.MustCompile(`\b\d+\b`)

type change struct {
	kind string // SwitchOver, FailOver or "" if it cannot be told
	to   int
}

func runC15(t *testing.T, p ReportPlan) (c vt.Case, err error) {
	berr := vt.Bubble(t, func() error {
		s := healthySnap(p.N, p.Primary, false)
		world.ResetMetrics()
		const interval = 20 * time.Second
		w := s.Build(interval)
		w.FreezeReady = false
		var changes []change
		requested := false
		lost := 0
		w.OnPromote = func(from, to int) { // Mu held
			ch := change{to: to}
			x := w.S[from]
			switch {
			case x.Up && requested:
				ch.kind = "SwitchOver"
			case !x.Up && !requested:
				ch.kind = "FailOver"
			}
			changes = append(changes, ch)
		}
		w.Start()
		defer w.Stop()
		w.StartController()
		m := func(name string) float64 { v, _ := w.Metric("moco_cluster_" + name); return v }
		settle := func() bool {
			ok := time.Time{}
			end := time.Now().Add(15 * time.Minute)
			for time.Now().Before(end) {
				time.Sleep(time.Second)
				if w.State() != "Healthy" || !w.Synced() || w.Moving() {
					ok = time.Time{}
					continue
				}
				if ok.IsZero() {
					ok = time.Now()
				}
				if time.Since(ok) > 3*interval {
					return true
				}
			}
			return false
		}
		if !settle() {
			if e := unsupported(w); e != nil {
				return e
			}
			return fmt.Errorf("%w: not healthy at the start", vt.ErrInconclusive)
		}
		var backup *ReportBackup
		judge := func(step string) error {
			if e := unsupported(w); e != nil {
				return e
			}
			time.Sleep(700 * time.Millisecond) // between two checks
			fail := func(f string, a ...any) error {
				return dump(w, s, "after %s (changes of the primary so far: %v): %s", step, changes, fmt.Sprintf(f, a...))
			}
			// counters of primary changes
			sw, fo, amb := 0, 0, 0
			for _, ch := range changes {
				switch ch.kind {
				case "SwitchOver":
					sw++
				case "FailOver":
					fo++
				default:
					amb++
				}
			}
			gs, gf := int(m("switchover_total")), int(m("failover_total"))
			if gs+gf > len(changes) || gs+gf < len(changes)-lost {
				return fail("switchover_total is %d and failover_total %d", gs, gf)
			}
			if gs < sw-lost || gs > sw+amb || gf < fo-lost || gf > fo+amb {
				return fail("switchover_total is %d and failover_total %d, but there were %d and %d (%d unclear)", gs, gf, sw, fo, amb)
			}
			// announced changes happened, in this order
			k, ann := 0, 0
			for _, e := range w.Events {
				reason, msg, _ := strings.Cut(e, ": ")
				if reason != "SwitchOver" && reason != "FailOver" {
					continue
				}
				nums := numRE.FindAllString(msg, -1)
				to := -1
				if len(nums) > 0 {
					to, _ = strconv.Atoi(nums[len(nums)-1])
				}
				for k < len(changes) && (changes[k].to != to || changes[k].kind != "" && changes[k].kind != reason) {
					k++
				}
				if k == len(changes) {
					return fail("event %q without such a change", e)
				}
				k++
				ann++
			}
			if ann < len(changes)-lost {
				return fail("only %d changes of the primary were announced by events", ann)
			}
			if d := m("checks_total") - m("processing_time_seconds"); d < 0 || d > 1 {
				return fail("checks_total is %v but processing_time_seconds counts %v", m("checks_total"), m("processing_time_seconds"))
			}
			if m("errors_total") > m("checks_total") {
				return fail("errors_total %v exceeds checks_total %v", m("errors_total"), m("checks_total"))
			}
			want := map[string]float64{}
			if backup != nil {
				want = map[string]float64{"timestamp": float64(backup.Unix), "elapsed_seconds": float64(backup.ElapsedMs) / 1000, "dump_bytes": float64(backup.Dump), "binlog_bytes": float64(backup.Binlog),
					"workdir_usage_bytes": float64(backup.WorkDir), "warnings": float64(backup.Warnings)}
			}
			for _, n := range []string{"timestamp", "elapsed_seconds", "dump_bytes", "binlog_bytes", "workdir_usage_bytes", "warnings"} {
				got, ok := w.Metric("moco_backup_" + n)
				d := got - want[n]
				if backup != nil && !ok || d > 1e-6 || d < -1e-6 {
					return fail("metric moco_backup_%s is %v (present: %v), expected %v", n, got, ok, want[n])
				}
			}
			for n, v := range map[string]float64{"available": 1, "healthy": 1, "ready_replicas": float64(w.N), "errant_replicas": 0, "replicas": float64(w.N)} {
				if got, ok := w.Metric("moco_cluster_" + n); !ok || got != v {
					return fail("metric %s is %v (present: %v) for a healthy cluster, expected %v", n, got, ok, v)
				}
			}
			return nil
		}
		if e := judge("the start"); e != nil {
			return e
		}
		for k, st := range p.Steps {
			prim := w.Primary()
			before := len(changes)
			requested = false
			faults := w.Notes["api-error"] + w.Notes["api-conflict"] + w.Notes["api-after"] + w.Notes["sql-after"] + w.Notes["sql-error"] + w.Notes["sql-drop"]
			if st.Fault != nil {
				st.Fault.arm(w)
			}
			c.Classes = append(c.Classes, st.Kind)
			switch st.Kind {
			case "demote":
				requested = true
				w.Demote(prim)
			case "delete":
				requested = true
				w.DeletePod(prim)
			case "fail":
				w.CrashServer(prim, time.Duration(st.Dur)*time.Second)
			case "replica":
				w.CrashServer((prim+1+st.I%(w.N-1))%w.N, time.Duration(st.Dur)*time.Second)
			case "backup":
				b := st.Backup
				backup = b
				w.UpdateStatus(func(cl *mocov1beta2.MySQLCluster) {
					cl.Status.Backup = mocov1beta2.BackupStatus{Time: metav1.NewTime(time.Unix(b.Unix, 0)), Elapsed: metav1.Duration{Duration: time.Duration(b.ElapsedMs) * time.Millisecond},
						DumpSize: b.Dump, BinlogSize: b.Binlog, WorkDirUsage: b.WorkDir, Warnings: make([]string, b.Warnings)}
				})
			case "scale":
				if w.N == 3 {
					w.Scale(5)
				}
			case "quiet", "outage":
				if st.Kind == "outage" {
					w.FailAPI = true
					time.Sleep(time.Second)
				}
				c0, e0 := m("checks_total"), m("errors_total")
				time.Sleep(time.Duration(st.Dur) * time.Second)
				c1, e1 := m("checks_total"), m("errors_total")
				w.FailAPI = false
				least := float64(st.Dur)/interval.Seconds() - 1
				if c1-c0 < least {
					return dump(w, s, "checks_total went from %v to %v in %d seconds with a check interval of %s", c0, c1, st.Dur, interval)
				}
				if st.Kind == "quiet" && e1 != e0 {
					return dump(w, s, "errors_total went from %v to %v while nothing went wrong", e0, e1)
				}
				if st.Kind == "outage" && e1-e0 < least {
					return dump(w, s, "errors_total went from %v to %v (checks_total from %v to %v) in %d seconds while every API call failed", e0, e1, c0, c1, st.Dur)
				}
			}
			if !settle() {
				c.Classes = append(c.Classes, "not-healthy")
				break
			}
			w.ClearFaults()
			if n := w.Notes["api-error"] + w.Notes["api-conflict"] + w.Notes["api-after"] + w.Notes["sql-after"] + w.Notes["sql-error"] + w.Notes["sql-drop"]; n != faults {
				c.Classes = append(c.Classes, "fault")
				lost += len(changes) - before // the bookkeeping after a change may have failed
			}
			if e := judge(fmt.Sprintf("step %d (%s)", k, st.Kind)); e != nil {
				return e
			}
		}
		c.Nontrivial = len(changes) > 0 || backup != nil
		if len(changes) > 0 {
			c.Classes = append(c.Classes, "changed")
		}
		return nil
	})
	return c, berr
}

func TestC15(t *testing.T) { vt.Run(t, "C15", genReport, runC15) }
