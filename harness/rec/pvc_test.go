package rec

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	storagev1 "k8s.io/api/storage/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"pgregory.net/rapid"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"verif/internal/vt"
)

// VVol is a volume claim template.
type VVol struct {
	Name  string            `json:"name"`
	Size  int               `json:"size"`
	Class string            `json:"class,omitempty"`
	L     map[string]string `json:"l,omitempty"`
	A     map[string]string `json:"a,omitempty"`
}

// VOp is one step.
type VOp struct {
	Kind  string `json:"kind"`
	I     int    `json:"i,omitempty"`
	J     int    `json:"j,omitempty"`
	Fault Fault  `json:"fault,omitempty"`
}

// R06Plan is a history of the volumes of a cluster.
type R06Plan struct {
	Replicas int    `json:"replicas"`
	Vols     []VVol `json:"vols"`
	Sync     bool   `json:"sync,omitempty"`
	Ops      []VOp  `json:"ops"`
}

var vsizes = []string{"1Gi", "2Gi", "3072Mi", "5Gi", "10Gi", "1500Mi"}

func vsize(i int) resource.Quantity { return resource.MustParse(vsizes[i]) }

func genR06(t *rapid.T) R06Plan {
	p := R06Plan{Replicas: one(t, "replicas", 1, 3, 3), Sync: vt.Uni(t, "sync", 3) > 0}
	for _, n := range []string{"mysql-data", "extra"}[:1+vt.Uni(t, "vols", 2)] {
		v := VVol{Name: n, Size: vt.Uni(t, "size", 3), Class: one(t, "class", "grow", "grow", "grow", "fixed", "")}
		if yes(t, "l", 2) {
			v.L = map[string]string{"vl": "0", "other": "0"}
		}
		if yes(t, "a", 2) {
			v.A = map[string]string{"va": "0", "other": "0"}
		}
		p.Vols = append(p.Vols, v)
	}
	p.Ops = append(p.Ops, VOp{Kind: "reconcile"}, VOp{Kind: "sts"})
	for k := 1 + vt.Uni(t, "ops", 16); k > 0; k-- {
		o := VOp{Kind: one(t, "op", "size", "size", "size", "reconcile", "reconcile", "reconcile", "fail", "fail", "sts", "sts", "busy", "meta", "image", "replicas", "offline", "autoresize", "bare", "addvol")}
		o.I, o.J = vt.Uni(t, "i", 60), vt.Uni(t, "j", 60)
		if o.Kind == "fail" {
			o.Fault = genFault(t, 50)
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

type vworld struct {
	e        *Env
	vols     []VVol
	replicas int
	offline  bool
	image    int
	hist     []string
}

func (w *vworld) note(f string, x ...any) { w.hist = append(w.hist, fmt.Sprintf(f, x...)) }

func cp(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (w *vworld) put() {
	s := obj{"replicas": w.replicas, "serverIDBase": 1, "podTemplate": obj{"spec": obj{"containers": []any{obj{"name": "mysqld", "image": fmt.Sprintf("mysql:%d", w.image)}}}}}
	if w.offline {
		s["offline"] = true
	}
	var vs []any
	for _, v := range w.vols {
		m := obj{"name": v.Name}
		if len(v.L) > 0 {
			m["labels"] = cp(v.L)
		}
		if len(v.A) > 0 {
			m["annotations"] = cp(v.A)
		}
		sp := obj{"accessModes": []any{"ReadWriteOnce"}, "resources": obj{"requests": obj{"storage": vsizes[v.Size]}}}
		if v.Class != "" {
			sp["storageClassName"] = v.Class
		}
		vs = append(vs, obj{"metadata": m, "spec": sp})
	}
	s["volumeClaimTemplates"] = vs
	must(w.e.PutCluster(tns, "a", "uid-a", deep(s).(obj), nil))
}

func (w *vworld) sts() *appsv1.StatefulSet {
	s := &appsv1.StatefulSet{}
	if w.e.Raw.Get(bg, client.ObjectKey{Namespace: tns, Name: "moco-a"}, s) != nil {
		return nil
	}
	return s
}

func (w *vworld) claims() map[string]*corev1.PersistentVolumeClaim {
	l := &corev1.PersistentVolumeClaimList{}
	must(w.e.Raw.List(bg, l))
	r := map[string]*corev1.PersistentVolumeClaim{}
	for i := range l.Items {
		r[l.Items[i].Namespace+"/"+l.Items[i].Name] = &l.Items[i]
	}
	return r
}

// settle plays the StatefulSet controller; busy leaves the update unfinished.
func (w *vworld) settle(busy int) {
	s := w.sts()
	if s == nil {
		return
	}
	n := *s.Spec.Replicas
	s.Status = appsv1.StatefulSetStatus{ObservedGeneration: max(s.Generation, 1), Replicas: n, ReadyReplicas: n, AvailableReplicas: n, UpdatedReplicas: n, CurrentReplicas: n, CurrentRevision: "r", UpdateRevision: "r"}
	switch busy {
	case 1:
		s.Status.ReadyReplicas = n - 1
	case 2:
		s.Status.UpdateRevision = "r2"
	case 3:
		s.Status.ObservedGeneration = 0
	}
	must(w.e.Raw.Status().Update(bg, s))
	for k := int32(0); k < n; k++ {
		x := &corev1.Pod{}
		x.Namespace, x.Name, x.Labels = tns, fmt.Sprintf("moco-a-%d", k), s.Spec.Selector.MatchLabels
		_ = w.e.Raw.Create(bg, x)
		for _, t := range s.Spec.VolumeClaimTemplates {
			c := &corev1.PersistentVolumeClaim{}
			c.Namespace, c.Name = tns, fmt.Sprintf("%s-moco-a-%d", t.Name, k)
			if w.e.Raw.Get(bg, client.ObjectKeyFromObject(c), c) == nil {
				continue
			}
			c.Labels = cp(t.Labels)
			for k, v := range s.Spec.Selector.MatchLabels {
				c.Labels[k] = v
			}
			c.Annotations = t.Annotations
			c.OwnerReferences = t.OwnerReferences
			c.Spec = *t.Spec.DeepCopy()
			must(w.e.Raw.Create(bg, c))
		}
	}
}

func templates(s *appsv1.StatefulSet) any {
	if s == nil {
		return nil
	}
	var r []any
	for _, t := range s.Spec.VolumeClaimTemplates {
		o := deep(t).(obj)
		delete(o, "status")
		r = append(r, norm(o))
	}
	return r
}

func runR06(t *testing.T, p R06Plan) (c vt.Case, err error) {
	w := &vworld{e: NewEnv(), vols: append([]VVol(nil), p.Vols...), replicas: p.Replicas}
	if p.Sync {
		w.e.R.PVCSyncLabelKeys = []string{"vl", "vl2"}
		w.e.R.PVCSyncAnnotationKeys = []string{"va", "va2"}
	}
	for _, n := range []string{"grow", "fixed"} {
		sc := &storagev1.StorageClass{}
		sc.Name = n
		b := n == "grow"
		sc.AllowVolumeExpansion = &b
		if n == "fixed" && p.Replicas == 1 {
			sc.AllowVolumeExpansion = nil
		}
		must(w.e.Raw.Create(bg, sc))
	}
	// claims of others
	for _, x := range [][3]string{{tns, "mysql-data-moco-b-0", "b"}, {tns, "mysql-data-moco-a-b-0", "a-b"}, {"other", "mysql-data-moco-a-0", "a"}, {tns, "backup-moco-a-0", "a"}} {
		q := &corev1.PersistentVolumeClaim{}
		q.Namespace, q.Name, q.Labels = x[0], x[1], pl(x[2])
		q.Labels["vl"] = "foreign"
		g := "grow"
		q.Spec.StorageClassName = &g
		q.Spec.Resources.Requests = corev1.ResourceList{corev1.ResourceStorage: resource.MustParse("100Mi")}
		must(w.e.Raw.Create(bg, q))
	}
	bad := func(f string, x ...any) error {
		return fmt.Errorf("%s\nhistory: %s", fmt.Sprintf(f, x...), strings.Join(w.hist, "; "))
	}
	w.put()
	grown, steps := 0, 0
	var deletedFrom any
	mine := func(name string) (VVol, bool) {
		for _, v := range w.vols {
			for i := 0; i < w.replicas; i++ {
				if name == fmt.Sprintf("%s/%s-moco-a-%d", tns, v.Name, i) {
					return v, true
				}
			}
		}
		return VVol{}, false
	}
	reconcile := func(f Fault) (error, error) {
		before, st0 := w.claims(), w.sts()
		pods0 := &corev1.PodList{}
		must(w.e.Raw.List(bg, pods0))
		w.e.DelPolicy = nil
		rerr := w.e.Reconcile(tns, "a", f)
		w.note("reconcile %+v: %v", f, rerr)
		steps++
		after, st1 := w.claims(), w.sts()
		pods1 := &corev1.PodList{}
		must(w.e.Raw.List(bg, pods1))
		if !reflect.DeepEqual(pods0.Items, pods1.Items) {
			return rerr, bad("pods are changed")
		}
		for id, x := range before {
			y := after[id]
			if y == nil {
				return rerr, bad("claim %s is deleted", id)
			}
			v, ok := mine(id)
			a, b := x.Spec.Resources.Requests[corev1.ResourceStorage], y.Spec.Resources.Requests[corev1.ResourceStorage]
			switch d := b.Cmp(a); {
			case d < 0:
				return rerr, bad("claim %s is shrunk from %s to %s", id, a.String(), b.String())
			case d > 0:
				want := vsize(v.Size)
				if !ok || b.Cmp(want) != 0 {
					return rerr, bad("claim %s is resized from %s to %s", id, a.String(), b.String())
				}
				if x.Spec.StorageClassName == nil || *x.Spec.StorageClassName != "grow" {
					return rerr, bad("claim %s is resized although its class does not support it", id)
				}
				grown++
			}
			for k, l := range y.Labels {
				if o, had := x.Labels[k]; o != l || !had {
					if !ok || !p.Sync || k != "vl" && k != "vl2" || v.L[k] != l {
						return rerr, bad("label %s of claim %s becomes %q", k, id, l)
					}
				}
			}
			for k, l := range y.Annotations {
				if o, had := x.Annotations[k]; o != l || !had {
					if !ok || !p.Sync || k != "va" && k != "va2" || v.A[k] != l {
						return rerr, bad("annotation %s of claim %s becomes %q", k, id, l)
					}
				}
			}
			if len(y.Labels) < len(x.Labels) || len(y.Annotations) < len(x.Annotations) {
				return rerr, bad("claim %s loses labels or annotations", id)
			}
		}
		for id := range after {
			if before[id] == nil {
				return rerr, bad("claim %s is created", id)
			}
		}
		for _, pol := range w.e.DelPolicy {
			if pol != "StatefulSet Orphan" && strings.HasPrefix(pol, "StatefulSet") {
				return rerr, bad("the StatefulSet is deleted together with its pods (%s)", pol)
			}
		}
		if len(w.e.DelPolicy) > 0 && st0 != nil {
			for _, x := range w.e.Writes {
				if x.Verb == "delete" && x.Kind == "StatefulSet" && !x.Err {
					deletedFrom = templates(st0)
					c.Classes = append(c.Classes, "recreate")
				}
			}
		}
		if st1 != nil && deletedFrom != nil {
			// compare what it had with what it has now
			if rerr == nil && reflect.DeepEqual(deletedFrom, templates(st1)) {
				return rerr, bad("the StatefulSet is recreated with the same volume templates")
			}
			deletedFrom = nil
		}
		if rerr == nil {
			if st1 == nil {
				return rerr, bad("there is no StatefulSet after a reconciliation without an error")
			}
			if len(st1.Spec.VolumeClaimTemplates) != len(w.vols) {
				return rerr, bad("the StatefulSet has %d volume templates", len(st1.Spec.VolumeClaimTemplates))
			}
			for i, v := range w.vols {
				g := st1.Spec.VolumeClaimTemplates[i]
				size, want := g.Spec.Resources.Requests[corev1.ResourceStorage], vsize(v.Size)
				cls := ""
				if g.Spec.StorageClassName != nil {
					cls = *g.Spec.StorageClassName
				}
				if g.Name != v.Name || size.Cmp(want) != 0 || cls != v.Class || !reflect.DeepEqual(cp(g.Labels), cp(v.L)) || !reflect.DeepEqual(cp(g.Annotations), cp(v.A)) {
					return rerr, bad("volume template %d of the StatefulSet is %s, want %+v", i, js(g), v)
				}
				if len(g.OwnerReferences) != 1 || g.OwnerReferences[0].UID != "uid-a" {
					return rerr, bad("volume template %s has owners %+v", v.Name, g.OwnerReferences)
				}
			}
		}
		return rerr, nil
	}
	for _, o := range p.Ops {
		switch o.Kind {
		case "size":
			i := o.I % len(w.vols)
			w.vols[i].Size = o.J % len(vsizes)
			w.put()
			w.note("size of %s: %s", w.vols[i].Name, vsizes[w.vols[i].Size])
			c.Classes = append(c.Classes, "size")
		case "meta":
			i := o.I % len(w.vols)
			w.vols[i].L = map[string]string{"vl": fmt.Sprint(o.J), "other": fmt.Sprint(o.J)}
			w.vols[i].A = map[string]string{"va2": fmt.Sprint(o.J), "other": fmt.Sprint(o.J)}
			w.put()
			w.note("metadata of %s", w.vols[i].Name)
			c.Classes = append(c.Classes, "meta")
		case "image":
			w.image++
			w.put()
			w.note("image")
		case "replicas":
			if w.replicas < 5 {
				w.replicas += 2
				w.put()
				w.note("%d replicas", w.replicas)
			}
		case "offline":
			w.offline = !w.offline
			w.put()
			w.note("offline %v", w.offline)
		case "addvol":
			if len(w.vols) == 1 {
				w.vols = append(w.vols, VVol{Name: "extra", Class: "grow"})
			} else {
				w.vols = w.vols[:1]
			}
			w.put()
			w.note("%d volumes", len(w.vols))
		case "sts":
			w.settle(0)
			w.note("the StatefulSet is complete")
		case "busy":
			w.settle(1 + o.I%3)
			w.note("the StatefulSet is being updated")
			c.Classes = append(c.Classes, "busy")
		case "autoresize", "bare":
			for _, v := range w.vols {
				x := &corev1.PersistentVolumeClaim{}
				if w.e.Raw.Get(bg, client.ObjectKey{Namespace: tns, Name: fmt.Sprintf("%s-moco-a-%d", v.Name, o.I%w.replicas)}, x) != nil {
					continue
				}
				if o.Kind == "bare" {
					x.Annotations = nil
				} else if s := x.Spec.Resources.Requests[corev1.ResourceStorage]; s.Cmp(resource.MustParse("4Gi")) < 0 && o.J%3 == 0 {
					x.Spec.Resources.Requests[corev1.ResourceStorage] = resource.MustParse("4Gi")
				}
				must(w.e.Raw.Update(bg, x))
				w.note("%s %s", o.Kind, x.Name)
			}
		case "reconcile", "fail":
			if _, err := reconcile(o.Fault); err != nil {
				return c, err
			}
		}
	}
	c.Nontrivial = grown > 0 || len(c.Classes) > 1
	// from now on all goes well
	for k := 0; k < 4; k++ {
		rerr, err := reconcile(Fault{})
		if err != nil {
			return c, err
		}
		if rerr != nil {
			for id, x := range w.claims() {
				if v, ok := mine(id); ok {
					if s := x.Spec.Resources.Requests[corev1.ResourceStorage]; s.Cmp(vsize(v.Size)) > 0 {
						c.Classes = append(c.Classes, "larger-claim")
						return c, nil // reported to the user, who has to act
					}
				}
			}
			return c, bad("reconciliation fails: %v", rerr)
		}
		w.settle(0)
	}
	for id, x := range w.claims() {
		v, ok := mine(id)
		if !ok {
			continue
		}
		s := x.Spec.Resources.Requests[corev1.ResourceStorage]
		if x.Spec.StorageClassName != nil && *x.Spec.StorageClassName == "grow" && s.Cmp(vsize(v.Size)) < 0 {
			return c, bad("claim %s stays at %s, requested %s", id, s.String(), vsizes[v.Size])
		}
		if p.Sync {
			for _, k := range []string{"vl", "vl2"} {
				if l, ok := v.L[k]; ok && x.Labels[k] != l {
					return c, bad("label %s of claim %s is %q, want %q", k, id, x.Labels[k], l)
				}
			}
			for _, k := range []string{"va", "va2"} {
				if l, ok := v.A[k]; ok && x.Annotations[k] != l {
					return c, bad("annotation %s of claim %s is %q, want %q", k, id, x.Annotations[k], l)
				}
			}
		}
	}
	return c, nil
}

func TestR06(t *testing.T) { vt.Run(t, "R06", genR06, runR06) }

var _ = metav1.Now
