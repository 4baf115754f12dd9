package rec

import (
	"fmt"
	"strings"
	"testing"

	appsv1 "k8s.io/api/apps/v1"
	"pgregory.net/rapid"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"verif/internal/vt"
)

// R12Op is one step of a cluster whose reports are judged.
type R12Op struct {
	Kind  string `json:"kind"` // sts, drop, mutate, size, settle, conf, reconcile, restart
	How   string `json:"how,omitempty"`
	I     int    `json:"i,omitempty"`
	Avail int    `json:"avail,omitempty"` // relative to the replicas
	Rev   bool   `json:"rev,omitempty"`   // update revision differs
	Gen   int    `json:"gen,omitempty"`   // observed generation behind by
	Fault Fault  `json:"fault,omitempty"`
}

// R12Plan is a history.
type R12Plan struct {
	Spec obj     `json:"spec"`
	Ops  []R12Op `json:"ops"`
}

func genR12(t *rapid.T) R12Plan {
	p := R12Plan{Spec: genSpec(t)}
	vols := genVol(t, "mysql-data")
	vols["spec"].(obj)["storageClassName"] = one(t, "class", "grow", "grow", "grow", "fixed")
	vols["spec"].(obj)["resources"] = obj{"requests": obj{"storage": "10Gi"}}
	p.Spec["volumeClaimTemplates"] = []any{vols}
	if yes(t, "claims", 2) {
		p.Ops = append(p.Ops, R12Op{Kind: "reconcile"}, R12Op{Kind: "settle"}, R12Op{Kind: "reconcile"}, R12Op{Kind: "size", I: vt.Uni(t, "i", 20)}, R12Op{Kind: "reconcile", Fault: genFault(t, 60)})
	}
	n := 3 + vt.Uni(t, "ops", 10)
	for k := 0; k < n; k++ {
		o := R12Op{Kind: one(t, "kind", "sts", "sts", "sts", "drop", "mutate", "size", "settle", "conf", "conf", "restart"), I: vt.Uni(t, "i", 20)}
		switch o.Kind {
		case "sts":
			o.Avail, o.Rev, o.Gen = one(t, "avail", 0, 0, 0, 0, -1, -2, 1), yes(t, "rev", 3), one(t, "gen", 0, 0, 0, 1, 2)
		case "mutate":
			o.How = one(t, "how", "label", "replicas", "conf")
		}
		p.Ops = append(p.Ops, o)
		r := R12Op{Kind: "reconcile"}
		if yes(t, "fault?", 3) {
			r.Fault = genFault(t, 40)
		}
		p.Ops = append(p.Ops, r)
	}
	return p
}

func runR12(t *testing.T, p R12Plan) (c vt.Case, err error) {
	m := newMulti(MPlan{Clusters: []MCluster{{NS: "db", Name: "a", Spec: p.Spec}}, Limit: 3})
	e := m.e
	bad := func(f string, x ...any) error {
		return fmt.Errorf("%s\nhistory: %s", fmt.Sprintf(f, x...), strings.Join(m.hist, "; "))
	}
	sts := func() *appsv1.StatefulSet {
		s := &appsv1.StatefulSet{}
		if e.Raw.Get(bg, client.ObjectKey{Namespace: "db", Name: "moco-a"}, s) != nil {
			return nil
		}
		return s
	}
	val := func(n string) float64 { v, _ := Metric("moco_cluster_"+n, "db", "a"); return v }
	m.put(0)
	var gen int64 // generation of the last successful reconciliation
	notReady, failed := false, false
	for _, o := range p.Ops {
		switch o.Kind {
		case "sts":
			s := sts()
			if s == nil {
				continue
			}
			n := int32(1)
			if s.Spec.Replicas != nil {
				n = *s.Spec.Replicas
			}
			a := max(0, n+int32(o.Avail))
			if s.Generation < 3 {
				s.Generation = 3
				must(e.Raw.Update(bg, s))
				s = sts()
			}
			s.Status = appsv1.StatefulSetStatus{ObservedGeneration: s.Generation - int64(o.Gen), Replicas: n, ReadyReplicas: a, AvailableReplicas: a, UpdatedReplicas: n, CurrentReplicas: n, CurrentRevision: "r1", UpdateRevision: "r1"}
			if o.Rev {
				s.Status.UpdateRevision = "r2"
			}
			must(e.Raw.Status().Update(bg, s))
			m.note("StatefulSet status %+v", s.Status)
		case "drop":
			if s := sts(); s != nil {
				must(e.Raw.Delete(bg, s))
				m.note("StatefulSet removed")
			}
		case "conf":
			m.spec[0] = deep(m.spec[0]).(obj)
			if o.I%3 == 0 {
				m.spec[0]["mysqlConfigMapName"] = "nowhere"
			} else {
				m.spec[0]["mysqlConfigMapName"] = "conf1"
			}
			m.put(0)
			m.note("user configuration %v", m.spec[0]["mysqlConfigMapName"])
		case "mutate":
			m.step(MOp{Kind: "mutate", How: o.How, I: o.I})
		case "size":
			m.step(MOp{Kind: "mutate", How: "size", I: o.I})
		case "settle":
			m.settle(0)
			m.note("settled")
		case "restart":
			e.Operator()
			m.note("operator restarted")
		case "reconcile":
			x := e.Cluster("db", "a")
			r0, re0 := val("statefulset_recreate_total"), val("statefulset_recreate_errors_total")
			v0, ve0 := val("volume_resized_total"), val("volume_resized_errors_total")
			rerr := m.request(0, o.Fault)
			hit := e.Hit
			y := e.Cluster("db", "a")
			s := sts()
			if s == nil {
				m.note("no StatefulSet")
			}
			// counters
			del, dele, app, appe, grown := 0, 0, 0, 0, 0
			for _, w := range e.Writes {
				switch {
				case w.Kind == "StatefulSet" && w.Verb == "delete" && !w.Err:
					del++
				case w.Kind == "StatefulSet" && w.Verb == "delete":
					dele++
				case w.Kind == "StatefulSet" && w.Verb != "delete" && !w.Err:
					app++
				case w.Kind == "StatefulSet" && w.Verb != "delete":
					appe++
				case w.Kind == "PersistentVolumeClaim" && !w.Err:
					grown++
				}
			}
			_, _ = dele, appe
			struckSTS := strings.HasSuffix(hit, " StatefulSet")
			dr, dre := val("statefulset_recreate_total")-r0, val("statefulset_recreate_errors_total")-re0
			if dr > float64(min(del, app)) || dre > 0 && !struckSTS || !struckSTS && dr != float64(del) {
				return c, bad("statefulset_recreate_total grows by %v and statefulset_recreate_errors_total by %v; the StatefulSet was deleted %d times and applied %d times (fault at %q)", dr, dre, del, app, hit)
			}
			if hit == "delete StatefulSet" && o.Fault.Mode != "stale" && dre != 1 {
				return c, bad("statefulset_recreate_errors_total grows by %v although the StatefulSet could not be deleted", dre)
			}
			if del > 0 {
				c.Classes = append(c.Classes, "recreated")
			}
			dv, dve := val("volume_resized_total")-v0, val("volume_resized_errors_total")-ve0
			if dv > 1 || dve > 1 || dv > 0 && grown == 0 || dv > 0 && dve > 0 {
				return c, bad("volume_resized_total grows by %v and volume_resized_errors_total by %v, %d claims changed", dv, dve, grown)
			}
			if grown > 0 {
				c.Classes = append(c.Classes, "resized")
			}
			// conditions
			quiet := hit == "" || o.Fault.Mode == "stale" && hit[:3] != "get"
			dead := strings.HasPrefix(o.Fault.Mode, "crash") && hit != ""
			if dead || strings.HasSuffix(hit, " MySQLCluster") || strings.HasPrefix(hit, "get StatefulSet") {
				if rerr == nil {
					gen = y.Generation
				}
				// the report may not have been possible
				if y.Status.ReconcileInfo.Generation != gen && y.Status.ReconcileInfo.Generation != x.Status.ReconcileInfo.Generation && y.Status.ReconcileInfo.Generation != y.Generation {
					return c, bad("generation %d is recorded as reconciled", y.Status.ReconcileInfo.Generation)
				}
				gen = y.Status.ReconcileInfo.Generation
				c.Classes = append(c.Classes, "unreported")
				continue
			}
			if quiet && rerr == nil && hit != "" {
				c.Classes = append(c.Classes, "stale")
			}
			want := "True"
			if rerr != nil {
				want = "False"
				failed = true
				c.Classes = append(c.Classes, "failed")
			} else {
				gen = y.Generation
			}
			if got := cond(y, "ReconcileSuccess"); string(got) != want {
				return c, bad("condition ReconcileSuccess is %q after a reconciliation that ended with %v", got, rerr)
			}
			if got := cond(y, "ReconciliationActive"); got != "True" {
				return c, bad("condition ReconciliationActive is %q", got)
			}
			if y.Status.ReconcileInfo.Generation != gen {
				return c, bad("generation %d is recorded as reconciled, the last one reconciled completely is %d", y.Status.ReconcileInfo.Generation, gen)
			}
			want = "False"
			if s != nil && s.Spec.Replicas != nil && s.Status.AvailableReplicas == *s.Spec.Replicas && s.Status.CurrentRevision == s.Status.UpdateRevision && s.Status.ObservedGeneration == s.Generation {
				want = "True"
				c.Classes = append(c.Classes, "ready")
			} else {
				notReady = true
				c.Classes = append(c.Classes, "not-ready")
			}
			if got := cond(y, "StatefulSetReady"); string(got) != want {
				return c, bad("condition StatefulSetReady is %q, want %q; StatefulSet: %+v", got, want, s)
			}
		}
	}
	c.Nontrivial = notReady || failed
	return c, nil
}

func TestR12(t *testing.T) { vt.Run(t, "R12", genR12, runR12) }
