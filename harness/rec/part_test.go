package rec

import (
	"context"
	"fmt"
	"strings"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/controllers"
	"golang.org/x/time/rate"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/tools/record"
	"pgregory.net/rapid"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"verif/internal/vt"
)

// PPod is the state of one pod.
type PPod struct {
	Gone  bool `json:"gone,omitempty"`
	Term  bool `json:"term,omitempty"`
	New   bool `json:"new,omitempty"`   // at the update revision
	Ready int  `json:"ready,omitempty"` // 0 ready for long, 1 ready just now, 2 not ready
	Cont  int  `json:"cont,omitempty"`  // 1: a container is not ready, 2: an init container is not ready
}

// POp is one step of a rollout.
type POp struct {
	Kind  string `json:"kind"`
	I     int    `json:"i,omitempty"`
	Pod   PPod   `json:"pod,omitempty"`
	Fault Fault  `json:"fault,omitempty"`
	Race  string `json:"race,omitempty"` // what happens just before the patch
	Deny  bool   `json:"deny,omitempty"` // the rate limiter refuses
}

// R01Plan is a history of rollouts.
type R01Plan struct {
	Replicas int    `json:"replicas"`
	Part     int    `json:"part"`
	Health   string `json:"health"`
	Pods     []PPod `json:"pods"`
	Force    string `json:"force,omitempty"`
	Owner    string `json:"owner,omitempty"` // "" the cluster, none, other
	Lag      int    `json:"lag,omitempty"`   // 1: the cluster is not reconciled, 2: the StatefulSet is not observed
	Ops      []POp  `json:"ops"`
}

func genPPod(t *rapid.T, calm bool) PPod {
	var p PPod
	n := 3
	if calm {
		n = 14
	}
	p.Gone = yes(t, "gone", 4*n)
	p.Term = yes(t, "term", 3*n)
	p.New = yes(t, "new", 2)
	if yes(t, "unready", n) {
		p.Ready = 1 + vt.Uni(t, "ready", 2)
	}
	if yes(t, "uncont", 2*n) {
		p.Cont = 1 + vt.Uni(t, "cont", 2)
	}
	return p
}

func genR01(t *rapid.T) R01Plan {
	p := R01Plan{Replicas: one(t, "replicas", 1, 3, 3, 5, 9), Health: one(t, "health", "True", "True", "True", "False", "Unknown", "")}
	p.Part = vt.Uni(t, "part", p.Replicas+1)
	calm := vt.Uni(t, "calm", 4) > 0
	if calm && !yes(t, "ill", 8) {
		p.Health = "True"
	}
	for i := 0; i < p.Replicas; i++ {
		q := genPPod(t, calm)
		if calm {
			q.New = i >= p.Part
		}
		p.Pods = append(p.Pods, q)
	}
	if yes(t, "forced", 12) {
		p.Force = one(t, "force", "true", "false")
	}
	if yes(t, "foreign", 16) {
		p.Owner = one(t, "owner", "none", "other")
	}
	if yes(t, "lagging", 12) {
		p.Lag = 1 + vt.Uni(t, "lag", 2)
	}
	for k := 1 + vt.Uni(t, "ops", 14); k > 0; k-- {
		o := POp{Kind: one(t, "op", "part", "part", "part", "part", "part", "part", "sts", "sts", "sts", "sts", "pod", "pod", "heal", "heal", "heal", "health", "template", "lag")}
		o.I = vt.Uni(t, "i", 100)
		switch o.Kind {
		case "pod":
			o.Pod = genPPod(t, false)
		case "part":
			if yes(t, "fault", 5) {
				o.Fault = genFault(t, 5)
			}
			if yes(t, "race", 5) {
				o.Race = one(t, "racekind", "template", "force", "lower", "label")
			}
			o.Deny = yes(t, "deny", 8)
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

type pworld struct {
	e      *Env
	p      R01Plan
	rev    int
	pods   []PPod
	health string
	lag    int
	force  string
	hist   []string
}

const (
	pns, pname = "db", "a"
)

func (w *pworld) note(f string, x ...any) { w.hist = append(w.hist, fmt.Sprintf(f, x...)) }

func (w *pworld) sts() *appsv1.StatefulSet {
	s := &appsv1.StatefulSet{}
	must(w.e.Raw.Get(bg, client.ObjectKey{Namespace: pns, Name: "moco-" + pname}, s))
	return s
}

func (w *pworld) revs() (cur, upd string) {
	return fmt.Sprintf("r%d", w.rev-1), fmt.Sprintf("r%d", w.rev)
}

func pl(instance string) map[string]string {
	return map[string]string{"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": instance, "app.kubernetes.io/created-by": "moco"}
}

// sync writes the state of pods, cluster and StatefulSet to the API server.
func (w *pworld) sync() {
	cur, upd := w.revs()
	n, ready := int32(0), int32(0)
	for i, q := range w.pods {
		x := &corev1.Pod{}
		x.Namespace, x.Name = pns, fmt.Sprintf("moco-%s-%d", pname, i)
		err := w.e.Raw.Get(bg, client.ObjectKeyFromObject(x), x)
		if err == nil {
			x.Finalizers = nil
			must(w.e.Raw.Update(bg, x))
			_ = w.e.Raw.Delete(bg, x)
		}
		if q.Gone {
			continue
		}
		x = &corev1.Pod{}
		x.Namespace, x.Name = pns, fmt.Sprintf("moco-%s-%d", pname, i)
		x.Labels = pl(pname)
		x.Labels["controller-revision-hash"] = cur
		if q.New {
			x.Labels["controller-revision-hash"] = upd
			if !q.Term {
				n++
			}
		}
		x.Finalizers = []string{"example.com/x"}
		since := metav1.NewTime(time.Now().Add(-time.Hour))
		st := corev1.ConditionTrue
		switch q.Ready {
		case 1:
			since = metav1.Now()
		case 2:
			st = corev1.ConditionFalse
		}
		if q.Ready != 2 {
			ready++
		}
		x.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: st, LastTransitionTime: since}}
		x.Status.ContainerStatuses = []corev1.ContainerStatus{{Name: "mysqld", Ready: true}, {Name: "agent", Ready: q.Cont != 1}}
		x.Status.InitContainerStatuses = []corev1.ContainerStatus{{Name: "moco-init", Ready: q.Cont != 2}}
		must(w.e.Raw.Create(bg, x))
		if q.Term {
			must(w.e.Raw.Delete(bg, x))
		}
	}
	s := w.sts()
	s.Status = appsv1.StatefulSetStatus{ObservedGeneration: s.Generation, CurrentRevision: cur, UpdateRevision: upd, UpdatedReplicas: n, ReadyReplicas: ready, Replicas: int32(len(w.pods)), CurrentReplicas: int32(len(w.pods)) - n}
	if w.lag == 2 {
		s.Status.ObservedGeneration = s.Generation - 1
	}
	must(w.e.Raw.Status().Update(bg, s))
	c := w.e.Cluster(pns, pname)
	c.Status.Conditions = nil
	if w.health != "" {
		meta.SetStatusCondition(&c.Status.Conditions, metav1.Condition{Type: "Healthy", Status: metav1.ConditionStatus(w.health), Reason: "x"})
	}
	c.Status.ReconcileInfo.Generation = c.Generation
	if w.lag == 1 {
		c.Status.ReconcileInfo.Generation = c.Generation - 1
	}
	must(w.e.Raw.Status().Update(bg, c))
}

func (w *pworld) part() int {
	s := w.sts()
	if s.Spec.UpdateStrategy.RollingUpdate == nil || s.Spec.UpdateStrategy.RollingUpdate.Partition == nil {
		return 0
	}
	return int(*s.Spec.UpdateStrategy.RollingUpdate.Partition)
}

func (w *pworld) setPart(n int) {
	s := w.sts()
	k := int32(n)
	s.Spec.UpdateStrategy.RollingUpdate = &appsv1.RollingUpdateStatefulSetStrategy{Partition: &k}
	s.Generation++
	must(w.e.Raw.Update(bg, s))
}

// template is a new pod template; the webhook holds all pods back.
func (w *pworld) template() {
	w.rev++
	for i := range w.pods {
		w.pods[i].New = false
	}
	w.setPart(w.p.Replicas)
}

// stsStep is one step of the StatefulSet controller: the highest outdated pod at or above the partition is replaced.
func (w *pworld) stsStep() bool {
	for i := range w.pods {
		if w.pods[i].Gone || w.pods[i].Term {
			w.pods[i] = PPod{New: i >= w.part() || w.pods[i].New}
			return true
		}
	}
	for i := len(w.pods) - 1; i >= w.part(); i-- {
		if w.pods[i].Ready == 2 && w.pods[i].New {
			return false
		}
		if !w.pods[i].New {
			w.pods[i] = PPod{New: true, Ready: 2}
			return true
		}
	}
	return false
}

func (w *pworld) updated() int {
	n := 0
	for _, q := range w.pods {
		if q.New && !q.Gone && !q.Term {
			n++
		}
	}
	return n
}

// judge tells whether lowering the partition is allowed and whether it is due.
func (w *pworld) judge(part int) (allowed, due bool, why string) {
	if w.p.Owner != "" {
		return false, false, "the StatefulSet belongs to no cluster"
	}
	if w.lag != 0 {
		return false, false, "not reconciled yet"
	}
	if w.force == "true" {
		return false, false, "forced rolling update"
	}
	if part == 0 {
		return false, false, "nothing to lower"
	}
	if w.updated() == w.p.Replicas {
		return true, true, ""
	}
	for i, q := range w.pods {
		if q.Gone {
			return false, false, fmt.Sprintf("pod %d is absent", i)
		}
	}
	t := w.pods[part-1]
	if t.New {
		return true, true, ""
	}
	if t.Ready != 2 && w.health != "True" {
		return false, false, "the cluster is not healthy"
	}
	due = true
	for i, q := range w.pods {
		if i == part-1 {
			continue
		}
		switch {
		case q.Term:
			return false, false, fmt.Sprintf("pod %d is terminating", i)
		case q.Ready == 2:
			return false, false, fmt.Sprintf("pod %d is not ready", i)
		case q.Cont != 0:
			return false, false, fmt.Sprintf("a container of pod %d is not ready", i)
		case i >= part && !q.New:
			return false, false, fmt.Sprintf("pod %d is not updated", i)
		}
		if q.Ready == 1 {
			due = false
		}
	}
	return true, due, ""
}

func (w *pworld) reconcile(o POp) error {
	lim := rate.NewLimiter(rate.Inf, 1)
	if o.Deny {
		lim = rate.NewLimiter(0, 0)
	}
	r := &controllers.StatefulSetPartitionReconciler{Client: w.e.C, Recorder: &record.FakeRecorder{}, MaxConcurrentReconciles: 1, UpdateInterval: time.Second, RateLimiter: lim}
	w.sync()
	before := w.e.Dump()
	part := w.part()
	raced := false
	w.e.OnCall = func(verb, kind string, key client.ObjectKey) {
		if raced || o.Race == "" || verb == "get" || verb == "list" {
			return
		}
		raced = true
		// someone else is faster
		switch o.Race {
		case "template":
			w.template()
		case "force", "label":
			s := w.sts()
			s.Annotations = map[string]string{"note": "x"}
			must(w.e.Raw.Update(bg, s))
		case "lower":
			if p := w.part(); p > 0 {
				w.setPart(p - 1)
			}
		}
		before = w.e.Dump()
		part = w.part()
	}
	w.e.calls, w.e.dead, w.e.fault, w.e.Writes = 0, false, o.Fault, nil
	res, err := r.Reconcile(context.Background(), ctrl.Request{NamespacedName: types.NamespacedName{Namespace: pns, Name: "moco-" + pname}})
	hit := o.Fault.At != 0 && w.e.calls >= o.Fault.At
	w.e.fault, w.e.dead, w.e.OnCall = Fault{}, false, nil
	now := w.part()
	w.note("partition %d -> %d (race %q %v, fault %+v, deny %v, err %v)", part, now, o.Race, raced, o.Fault, o.Deny, err != nil)
	allowed, due, why := w.judge(part)
	d := diffDumps(before, w.e.Dump(), nil)
	var other []string
	for _, x := range d {
		if strings.HasPrefix(x, "StatefulSet "+pns+"/moco-"+pname+".spec.updateStrategy.rollingUpdate") && strings.Contains(x, "artition") || strings.Contains(x, ".metadata.generation") {
			continue
		}
		other = append(other, x)
	}
	if len(other) > 0 {
		return fmt.Errorf("the partition controller changes more than the partition:\n%s\nhistory: %s", strings.Join(other, "\n"), strings.Join(w.hist, "; "))
	}
	if now != part && now != part-1 {
		return fmt.Errorf("the partition goes from %d to %d\nhistory: %s", part, now, strings.Join(w.hist, "; "))
	}
	if now == part-1 {
		if o.Deny {
			return fmt.Errorf("the partition is lowered against the rate limit\nhistory: %s", strings.Join(w.hist, "; "))
		}
		if !allowed {
			return fmt.Errorf("the partition is lowered from %d to %d although %s; pods %+v, health %q\nhistory: %s", part, now, why, w.pods, w.health, strings.Join(w.hist, "; "))
		}
		s := w.sts()
		s.Generation++
		must(w.e.Raw.Update(bg, s))
		return nil
	}
	if hit || raced {
		return nil
	}
	if w.p.Owner == "" && err != nil {
		return fmt.Errorf("error without a failing call: %v\nhistory: %s", err, strings.Join(w.hist, "; "))
	}
	if due && !o.Deny {
		return fmt.Errorf("the partition stays at %d although the next pod may be updated; pods %+v, health %q\nhistory: %s", part, w.pods, w.health, strings.Join(w.hist, "; "))
	}
	if w.p.Owner == "" && part > 0 && w.force != "true" && err == nil && res.RequeueAfter == 0 {
		return fmt.Errorf("the rollout at %d is not looked at again\nhistory: %s", part, strings.Join(w.hist, "; "))
	}
	return nil
}

func runR01(t *testing.T, p R01Plan) (c vt.Case, err error) {
	w := &pworld{e: NewEnv(), p: p, rev: 1, pods: append([]PPod(nil), p.Pods...), health: p.Health, lag: p.Lag, force: p.Force}
	cl := &mocov1beta2.MySQLCluster{}
	cl.Namespace, cl.Name, cl.UID, cl.Generation = pns, pname, "uid-a", 3
	must(w.e.Raw.Create(bg, cl))
	s := &appsv1.StatefulSet{}
	s.Namespace, s.Name, s.Generation, s.Labels = pns, "moco-"+pname, 7, pl(pname)
	n, pt, yes := int32(p.Replicas), int32(p.Part), true
	s.Spec.Replicas = &n
	s.Spec.Selector = &metav1.LabelSelector{MatchLabels: pl(pname)}
	s.Spec.UpdateStrategy = appsv1.StatefulSetUpdateStrategy{Type: appsv1.RollingUpdateStatefulSetStrategyType, RollingUpdate: &appsv1.RollingUpdateStatefulSetStrategy{Partition: &pt}}
	switch p.Owner {
	case "":
		s.OwnerReferences = []metav1.OwnerReference{{APIVersion: "moco.cybozu.com/v1beta2", Kind: "MySQLCluster", Name: pname, UID: "uid-a", Controller: &yes}}
	case "other":
		s.OwnerReferences = []metav1.OwnerReference{{APIVersion: "other.example.com/v1", Kind: "Database", Name: pname, UID: "uid-b", Controller: &yes}}
	}
	if p.Force != "" {
		s.Annotations = map[string]string{"moco.cybozu.com/force-rolling-update": p.Force}
	}
	must(w.e.Raw.Create(bg, s))
	// pods of others
	for _, x := range [][2]string{{pns, "moco-b-0"}, {"db2", "moco-a-0"}, {pns, "a-0"}} {
		q := &corev1.Pod{}
		q.Namespace, q.Name = x[0], x[1]
		q.Labels = pl(map[string]string{"moco-b-0": "b", "moco-a-0": "a", "a-0": "x"}[x[1]])
		must(w.e.Raw.Create(bg, q))
	}
	unsafe, lowered := 0, 0
	for _, o := range p.Ops {
		switch o.Kind {
		case "part":
			part := w.part()
			if ok, _, _ := w.judge(part); !ok && part > 0 {
				unsafe++
			}
			if err := w.reconcile(o); err != nil {
				return c, err
			}
			if w.part() < part {
				lowered++
				c.Classes = append(c.Classes, "lowered")
			} else if part > 0 {
				c.Classes = append(c.Classes, "held")
			}
		case "sts":
			w.stsStep()
		case "pod":
			w.pods[o.I%len(w.pods)] = o.Pod
		case "heal":
			for i := range w.pods {
				w.pods[i] = PPod{New: w.pods[i].New}
			}
		case "health":
			w.health = []string{"True", "False", "True", "Unknown", "True"}[o.I%5]
		case "template":
			w.template()
			w.note("new template")
		case "lag":
			w.lag = []int{0, 0, 0, 0, 1, 2}[o.I%6]
		}
	}
	c.Nontrivial = unsafe > 0 && lowered > 0 || lowered > 1
	if p.Owner != "" || p.Force == "true" {
		return c, nil
	}
	// if all is well from now on, the rollout completes
	w.lag, w.health = 0, "True"
	for k := 0; ; k++ {
		for i := range w.pods {
			w.pods[i] = PPod{New: w.pods[i].New}
		}
		if w.part() == 0 && w.updated() == p.Replicas {
			break
		}
		if k > 4*p.Replicas+5 {
			return c, fmt.Errorf("the rollout does not complete: partition %d, pods %+v\nhistory: %s", w.part(), w.pods, strings.Join(w.hist, "; "))
		}
		if !w.stsStep() {
			if err := w.reconcile(POp{}); err != nil {
				return c, err
			}
		}
	}
	return c, nil
}

func TestR01(t *testing.T) { vt.Run(t, "R01", genR01, runR01) }
