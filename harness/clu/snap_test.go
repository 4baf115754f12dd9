package clu

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/internal/vt"
	"verif/internal/world"
)

func unsupported(w *world.World) error {
	if w.Unsupported != "" {
		return fmt.Errorf("%w: unsupported SQL %s", vt.ErrInconclusive, w.Unsupported)
	}
	return nil
}

func dump(w *world.World, s Snap, f string, a ...any) error {
	return errors.New(fmt.Sprintf(f, a...) + "\n" + w.Dump(dumpN))
}

// mutations lists what the controller did to instances.
func mutations(w *world.World) []string {
	w.Net.Mu.Lock()
	defer w.Net.Mu.Unlock()
	var r []string
	for _, e := range w.Net.Trace {
		if e.Kind == "sql" && e.Server != nil {
			r = append(r, e.Server.Name+": "+e.Detail)
		}
	}
	return r
}

// C03: every change the controller attempts fails, so the snapshot stays as it is and the report can be compared at leisure.
func runC03(t *testing.T, s Snap) (c vt.Case, err error) {
	berr := vt.Bubble(t, func() error {
		w := s.Build(20 * time.Second)
		w.Start2()
		defer w.Stop()
		w.FailMut = true
		r := s.ref()
		w.StartController()
		time.Sleep(90 * time.Second)
		if e := unsupported(w); e != nil {
			return e
		}
		cl := w.Cluster()
		if r.Missing && !s.Offline {
			c.Classes = append(c.Classes, "missing-pod")
			if cl.Status.CurrentPrimaryIndex != s.Primary {
				return dump(w, s, "the primary changed while pods are missing")
			}
			return nil
		}
		c.Classes = append(c.Classes, r.State, fmt.Sprintf("size-%d", s.N))
		if len(r.Errants) > 0 {
			c.Classes = append(c.Classes, "errants")
		}
		c.Nontrivial = r.State != "Healthy" && r.State != "Offline"
		want := map[string]string{"Initialized": "True", "Available": "False", "Healthy": "False"}
		switch r.State {
		case "Cloning", "Restoring":
			want["Initialized"] = "False"
		case "Healthy":
			want["Available"], want["Healthy"] = "True", "True"
		case "Degraded":
			want["Available"] = "True"
		}
		for typ, val := range want {
			cond := w.Cond(typ)
			if cond == nil {
				return dump(w, s, "no condition %s, expected state %s", typ, r.State)
			}
			if cond.Reason != r.State || string(cond.Status) != val {
				return dump(w, s, "condition %s is %s with reason %s; the snapshot is %s, so it should be %s", typ, cond.Status, cond.Reason, r.State, val)
			}
		}
		if cl.Status.SyncedReplicas != r.Ready {
			return dump(w, s, "syncedReplicas is %d but %d pods are ready", cl.Status.SyncedReplicas, r.Ready)
		}
		if cl.Status.ErrantReplicas != len(r.Errants) || !sameInts(cl.Status.ErrantReplicaList, r.Errants) {
			return dump(w, s, "errantReplicas is %d %v but the errant instances are %v", cl.Status.ErrantReplicas, cl.Status.ErrantReplicaList, r.Errants)
		}
		b := func(x string) float64 {
			if x == "True" {
				return 1
			}
			return 0
		}
		for name, v := range map[string]float64{"available": b(want["Available"]), "healthy": b(want["Healthy"]), "ready_replicas": float64(r.Ready),
			"errant_replicas": float64(len(r.Errants)), "replicas": float64(s.N)} {
			got, ok := w.Metric("moco_cluster_" + name)
			if !ok || got != v {
				return dump(w, s, "metric %s is %v (present: %v), expected %v in state %s", name, got, ok, v, r.State)
			}
		}
		return nil
	})
	return c, berr
}

func sameInts(a, b []int) bool {
	m := map[int]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	for _, v := range m {
		if v != 0 {
			return false
		}
	}
	return true
}

func TestC03(t *testing.T) {
	vt.Run(t, "C03", func(t *rapid.T) Snap { return genSnap(t, snapAll, []int{1, 3, 3, 3, 3, 5, 5, 5, 7}, 1, 9) }, runC03)
}

var _ = reflect.DeepEqual
var _ = strings.Contains
