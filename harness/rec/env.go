// Package rec runs the reconcilers of the controllers package against an in-memory API server.
package rec

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/controllers"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/go-logr/logr"
	"github.com/prometheus/client_golang/prometheus"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1 "k8s.io/api/policy/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	storagev1 "k8s.io/api/storage/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/tools/record"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/apiutil"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/client/interceptor"
)

// SysNS is the namespace of the operator.
const SysNS = "moco-system"

var (
	scheme   = runtime.NewScheme()
	registry = prometheus.NewRegistry()
	certGVK  = schema.GroupVersionKind{Group: "cert-manager.io", Version: "v1", Kind: "Certificate"}
)

func init() {
	// few groups: the fake client walks the whole scheme for every write
	for _, f := range []func(*runtime.Scheme) error{corev1.AddToScheme, appsv1.AddToScheme, batchv1.AddToScheme, policyv1.AddToScheme, rbacv1.AddToScheme, storagev1.AddToScheme} {
		_ = f(scheme)
	}
	_ = mocov1beta2.AddToScheme(scheme)
	metrics.Register(registry)
	ctrl.SetLogger(logr.Discard())
}

// obj is a JSON object.
type obj = map[string]any

// Fault makes one API call of a reconciliation fail.
type Fault struct {
	At   int    `json:"at"`             // 1-based call number, 0: none
	Mode string `json:"mode,omitempty"` // before, after, crash (this and all later calls fail), crashafter, conflict
}

// Mgr records what the reconcilers ask the cluster manager.
type Mgr struct {
	mu    sync.Mutex
	Calls []string
	State map[types.NamespacedName]string // run, pause; absent: stopped
	Kicks map[types.NamespacedName]int    // UpdateNoStart
}

func (m *Mgr) rec(op string, n types.NamespacedName) {
	m.Calls = append(m.Calls, op+" "+n.String())
}
func (m *Mgr) Update(n types.NamespacedName, _ string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.rec("update", n)
	m.State[n] = "run"
}
func (m *Mgr) UpdateNoStart(n types.NamespacedName, _ string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.rec("kick", n)
	m.Kicks[n]++
}
func (m *Mgr) Stop(n types.NamespacedName) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.rec("stop", n)
	delete(m.State, n)
}
func (m *Mgr) StopAll() {}
func (m *Mgr) Pause(n types.NamespacedName) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.rec("pause", n)
	if m.State[n] == "run" {
		m.State[n] = "pause"
	}
}

// Write is one effective write of a reconciler.
type Write struct {
	Verb, Kind, NS, Name string
	Err                  bool
	MgrCalls             int // calls of the manager before it
}

func (w Write) String() string { return w.Verb + " " + w.Kind + " " + w.NS + "/" + w.Name }

// Env is a simulated API server with the reconcilers.
type Env struct {
	Raw    client.WithWatch
	C      client.WithWatch // with faults, used by the reconcilers
	R      *controllers.MySQLClusterReconciler
	M      *Mgr
	fault  Fault
	calls  int
	dead   bool
	Writes []Write
	// DelPolicy records kind and propagation policy of deletions.
	DelPolicy []string
	OnCall    func(verb, kind string, key client.ObjectKey)
	Hit       string // call the injected fault struck ("" if none)
}

var errInjected = apierrors.NewInternalError(fmt.Errorf("injected"))

func newFake() client.WithWatch {
	return fake.NewClientBuilder().WithScheme(scheme).
		WithStatusSubresource(&mocov1beta2.MySQLCluster{}, &appsv1.StatefulSet{}, &batchv1.CronJob{}, &batchv1.Job{}, &corev1.Pod{}, &corev1.PersistentVolumeClaim{}, &policyv1.PodDisruptionBudget{}, &corev1.Service{}).
		WithReturnManagedFields().Build()
}

// NewEnv makes an empty world.
func NewEnv() *Env {
	e := &Env{M: &Mgr{State: map[types.NamespacedName]string{}, Kicks: map[types.NamespacedName]int{}}}
	e.Raw = newFake()
	e.C = interceptor.NewClient(e.Raw, interceptor.Funcs{
		Get: func(ctx context.Context, c client.WithWatch, key client.ObjectKey, o client.Object, opts ...client.GetOption) error {
			return e.call("get", kindOf(o), key, func() error { return c.Get(ctx, key, o, opts...) })
		},
		List: func(ctx context.Context, c client.WithWatch, l client.ObjectList, opts ...client.ListOption) error {
			return e.call("list", kindOf(l), client.ObjectKey{}, func() error { return c.List(ctx, l, opts...) })
		},
		Create: func(ctx context.Context, c client.WithWatch, o client.Object, opts ...client.CreateOption) error {
			return e.call("create", kindOf(o), client.ObjectKeyFromObject(o), func() error {
				if ts := o.GetCreationTimestamp(); ts.IsZero() {
					o.SetCreationTimestamp(metav1.Now())
				}
				return c.Create(ctx, o, opts...)
			})
		},
		Delete: func(ctx context.Context, c client.WithWatch, o client.Object, opts ...client.DeleteOption) error {
			do := (&client.DeleteOptions{}).ApplyOptions(opts)
			pol := "Background"
			if do.PropagationPolicy != nil {
				pol = string(*do.PropagationPolicy)
			}
			e.DelPolicy = append(e.DelPolicy, kindOf(o)+" "+pol)
			return e.call("delete", kindOf(o), client.ObjectKeyFromObject(o), func() error { return c.Delete(ctx, o, opts...) })
		},
		DeleteAllOf: func(ctx context.Context, c client.WithWatch, o client.Object, opts ...client.DeleteAllOfOption) error {
			return e.call("deleteallof", kindOf(o), client.ObjectKey{}, func() error { return c.DeleteAllOf(ctx, o, opts...) })
		},
		Update: func(ctx context.Context, c client.WithWatch, o client.Object, opts ...client.UpdateOption) error {
			return e.call("update", kindOf(o), client.ObjectKeyFromObject(o), func() error { return c.Update(ctx, o, opts...) })
		},
		Patch: func(ctx context.Context, c client.WithWatch, o client.Object, p client.Patch, opts ...client.PatchOption) error {
			return e.call("patch", kindOf(o), client.ObjectKeyFromObject(o), func() error { return c.Patch(ctx, o, p, opts...) })
		},
		Apply: func(ctx context.Context, c client.WithWatch, o runtime.ApplyConfiguration, opts ...client.ApplyOption) error {
			kind, key := acID(o)
			return e.call("apply", kind, key, func() error {
				if err := c.Apply(ctx, o, opts...); err != nil {
					return err
				}
				return e.stamp(kind, key)
			})
		},
		SubResourceUpdate: func(ctx context.Context, c client.Client, sub string, o client.Object, opts ...client.SubResourceUpdateOption) error {
			return e.call("update-"+sub, kindOf(o), client.ObjectKeyFromObject(o), func() error { return c.SubResource(sub).Update(ctx, o, opts...) })
		},
		SubResourcePatch: func(ctx context.Context, c client.Client, sub string, o client.Object, p client.Patch, opts ...client.SubResourcePatchOption) error {
			return e.call("patch-"+sub, kindOf(o), client.ObjectKeyFromObject(o), func() error { return c.SubResource(sub).Patch(ctx, o, p, opts...) })
		},
	})
	e.Operator()
	return e
}

// Operator starts a new operator process (empty memory).
func (e *Env) Operator() {
	e.M = &Mgr{State: map[types.NamespacedName]string{}, Kicks: map[types.NamespacedName]int{}}
	old := e.R
	metrics.ClusteringStoppedVec.Reset()
	metrics.ReconciliationStoppedVec.Reset()
	e.R = &controllers.MySQLClusterReconciler{
		Client: e.C, Scheme: scheme, Recorder: &record.FakeRecorder{},
		AgentImage: "agent:1", BackupImage: "backup:1", FluentBitImage: "fluent:1", ExporterImage: "exporter:1",
		SystemNamespace: SysNS, ClusterManager: e.M, MaxConcurrentReconciles: 1, MySQLConfigMapHistoryLimit: 10,
	}
	if old != nil {
		m := e.R.ClusterManager
		*e.R = *old
		e.R.ClusterManager = m
	}
}

// stamp gives freshly applied objects a creation time.
func (e *Env) stamp(kind string, key client.ObjectKey) error { return nil }

func kindOf(o runtime.Object) string {
	gvk, err := apiutil.GVKForObject(o, scheme)
	if err != nil {
		return reflect.TypeOf(o).String()
	}
	return gvk.Kind
}

func acID(o runtime.ApplyConfiguration) (string, client.ObjectKey) {
	data, _ := json.Marshal(o)
	var m struct {
		Kind     string
		Metadata struct{ Name, Namespace string }
	}
	_ = json.Unmarshal(data, &m)
	return m.Kind, client.ObjectKey{Namespace: m.Metadata.Namespace, Name: m.Metadata.Name}
}

func (e *Env) call(verb, kind string, key client.ObjectKey, f func() error) error {
	e.calls++
	if e.OnCall != nil {
		e.OnCall(verb, kind, key)
	}
	write := verb != "get" && verb != "list"
	do := func() error {
		err := f()
		if write {
			e.Writes = append(e.Writes, Write{Verb: verb, Kind: kind, NS: key.Namespace, Name: key.Name, Err: err != nil, MgrCalls: len(e.M.Calls)})
		}
		return err
	}
	if e.dead {
		return errInjected
	}
	if e.fault.At != 0 && e.calls == e.fault.At {
		e.Hit = verb + " " + kind
		switch e.fault.Mode {
		case "after":
			_ = do()
			return errInjected
		case "crash":
			e.dead = true
			return errInjected
		case "crashafter":
			_ = do()
			e.dead = true
			return errInjected
		case "stale": // the cache does not know the object yet
			if verb == "get" {
				return apierrors.NewNotFound(schema.GroupResource{Resource: strings.ToLower(kind)}, key.Name)
			}
			return do()
		case "conflict":
			if write {
				return apierrors.NewConflict(schema.GroupResource{Resource: strings.ToLower(kind)}, key.Name, fmt.Errorf("injected"))
			}
			return errInjected
		}
		return errInjected
	}
	return do()
}

// Reconcile runs one reconciliation.
func (e *Env) Reconcile(ns, name string, f Fault) error {
	e.calls, e.dead, e.fault = 0, false, f
	e.Writes, e.Hit = nil, ""
	_, err := e.R.Reconcile(context.Background(), ctrl.Request{NamespacedName: types.NamespacedName{Namespace: ns, Name: name}})
	e.fault, e.dead = Fault{}, false
	return err
}

var bg = context.Background()

// kinds the reconciler manages.
func kinds() []client.ObjectList {
	cert := &unstructured.UnstructuredList{}
	cert.SetGroupVersionKind(schema.GroupVersionKind{Group: certGVK.Group, Version: certGVK.Version, Kind: "CertificateList"})
	return []client.ObjectList{&corev1.SecretList{}, &corev1.ConfigMapList{}, &corev1.ServiceList{}, &corev1.ServiceAccountList{}, &appsv1.StatefulSetList{},
		&policyv1.PodDisruptionBudgetList{}, &batchv1.CronJobList{}, &batchv1.JobList{}, &rbacv1.RoleList{}, &rbacv1.RoleBindingList{}, &corev1.PersistentVolumeClaimList{},
		&corev1.PodList{}, &mocov1beta2.MySQLClusterList{}, &mocov1beta2.BackupPolicyList{}, cert}
}

// Dump returns all objects as JSON trees without bookkeeping, by "Kind ns/name".
func (e *Env) Dump() map[string]obj {
	r := map[string]obj{}
	for _, l := range kinds() {
		if err := e.Raw.List(bg, l); err != nil {
			if apierrors.IsNotFound(err) || strings.Contains(err.Error(), "no matches") || strings.Contains(err.Error(), "no kind") {
				continue
			}
			panic(err)
		}
		data, err := json.Marshal(l)
		if err != nil {
			panic(err)
		}
		var t struct{ Items []obj }
		if err := json.Unmarshal(data, &t); err != nil {
			panic(err)
		}
		kind := strings.TrimSuffix(kindOf(l), "List")
		for _, o := range t.Items {
			m := o["metadata"].(obj)
			ns, _ := m["namespace"].(string)
			delete(o, "apiVersion")
			delete(o, "kind")
			for _, k := range []string{"resourceVersion", "managedFields", "creationTimestamp"} {
				delete(m, k)
			}
			r[fmt.Sprintf("%s %s/%s", kind, ns, m["name"])] = norm(o).(obj)
		}
	}
	return r
}

// norm drops empty values.
func norm(v any) any {
	switch x := v.(type) {
	case obj:
		for k, c := range x {
			c = norm(c)
			if c == nil || c == "" {
				delete(x, k)
				continue
			}
			if m, ok := c.(obj); ok && len(m) == 0 && k != "emptyDir" {
				delete(x, k)
				continue
			}
			if l, ok := c.([]any); ok && len(l) == 0 {
				delete(x, k)
				continue
			}
			x[k] = c
		}
		return x
	case []any:
		for i := range x {
			x[i] = norm(x[i])
		}
		return x
	}
	return v
}

// diff compares two trees; lists whose members have a unique key are compared as maps except initContainers and env.
func diff(path string, a, b any, out *[]string) {
	if len(*out) > 12 {
		return
	}
	switch x := a.(type) {
	case obj:
		y, ok := b.(obj)
		if !ok {
			*out = append(*out, fmt.Sprintf("%s: %s vs %s", path, js(a), js(b)))
			return
		}
		ks := map[string]bool{}
		for k := range x {
			ks[k] = true
		}
		for k := range y {
			ks[k] = true
		}
		var l []string
		for k := range ks {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			diff(path+"."+k, x[k], y[k], out)
		}
	case []any:
		y, ok := b.([]any)
		if !ok {
			*out = append(*out, fmt.Sprintf("%s: %s vs %s", path, js(a), js(b)))
			return
		}
		if mx, my := byKey(path, x), byKey(path, y); mx != nil && my != nil {
			diff(path, mx, my, out)
			return
		}
		if len(x) != len(y) {
			*out = append(*out, fmt.Sprintf("%s: %s vs %s", path, js(a), js(b)))
			return
		}
		for i := range x {
			diff(fmt.Sprintf("%s[%d]", path, i), x[i], y[i], out)
		}
	default:
		if !reflect.DeepEqual(a, b) {
			*out = append(*out, fmt.Sprintf("%s: %s vs %s", path, js(a), js(b)))
		}
	}
}

func byKey(path string, l []any) obj {
	if strings.HasSuffix(path, ".initContainers") || strings.HasSuffix(path, ".env") {
		return nil
	}
	r := obj{}
	for _, e := range l {
		m, ok := e.(obj)
		if !ok {
			return nil
		}
		key := ""
		for _, k := range []string{"containerPort", "port", "mountPath", "name"} {
			if v, ok := m[k]; ok {
				key += "/" + js(v)
				if k != "containerPort" {
					break
				}
			}
		}
		if p, ok := m["protocol"]; ok {
			key += "/" + js(p)
		}
		if key == "" || r[key] != nil {
			return nil
		}
		r[key] = m
	}
	return r
}

func js(v any) string {
	b, _ := json.Marshal(v)
	if len(b) > 300 {
		b = append(b[:300], "..."...)
	}
	return string(b)
}

// diffDumps compares two dumps; skip tells which objects to leave out.
func diffDumps(a, b map[string]obj, skip func(id string, o obj) bool) []string {
	var out []string
	ks := map[string]bool{}
	for k := range a {
		ks[k] = true
	}
	for k := range b {
		ks[k] = true
	}
	var l []string
	for k := range ks {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		x, y := a[k], b[k]
		if skip != nil && (x != nil && skip(k, x) || y != nil && skip(k, y)) {
			continue
		}
		switch {
		case x == nil:
			out = append(out, k+": missing on the left")
		case y == nil:
			out = append(out, k+": missing on the right")
		default:
			diff(k, x, y, &out)
		}
	}
	return out
}

// sub walks a tree.
func sub(v any, path ...any) any {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			m, ok := v.(obj)
			if !ok {
				return nil
			}
			v = m[k]
		case int:
			l, ok := v.([]any)
			if !ok || k >= len(l) {
				return nil
			}
			v = l[k]
		}
	}
	return v
}

// named finds the member of a list by name.
func named(v any, name string) obj {
	l, _ := v.([]any)
	for _, e := range l {
		if m, ok := e.(obj); ok && m["name"] == name {
			return m
		}
	}
	return nil
}

func deep(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var r any
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	return r
}

// Cluster reads a cluster (nil if absent).
func (e *Env) Cluster(ns, name string) *mocov1beta2.MySQLCluster {
	c := &mocov1beta2.MySQLCluster{}
	if err := e.Raw.Get(bg, client.ObjectKey{Namespace: ns, Name: name}, c); err != nil {
		if apierrors.IsNotFound(err) {
			return nil
		}
		panic(err)
	}
	return c
}

// PutCluster creates or updates a cluster from a spec tree as a user would (the generation follows the spec).
func (e *Env) PutCluster(ns, name, uid string, spec obj, ann map[string]string) error {
	data, err := json.Marshal(spec)
	if err != nil {
		return err
	}
	var s mocov1beta2.MySQLClusterSpec
	if err := json.Unmarshal(data, &s); err != nil {
		return fmt.Errorf("spec: %w", err)
	}
	c := e.Cluster(ns, name)
	if c == nil {
		c = &mocov1beta2.MySQLCluster{}
		c.Namespace, c.Name, c.UID, c.Generation = ns, name, types.UID(uid), 1
		c.CreationTimestamp = metav1.Now()
		c.Finalizers = []string{"moco.cybozu.com/mysqlcluster"}
		c.Spec, c.Annotations = s, ann
		return e.Raw.Create(bg, c)
	}
	old, _ := json.Marshal(c.Spec)
	now, _ := json.Marshal(s)
	if string(old) != string(now) {
		c.Generation++
	}
	c.Spec, c.Annotations = s, ann
	return e.Raw.Update(bg, c)
}

// Metric reads one metric of a cluster.
func Metric(name, ns, cluster string) (float64, bool) {
	fs, err := registry.Gather()
	if err != nil {
		return 0, false
	}
	for _, f := range fs {
		if f.GetName() != name {
			continue
		}
		for _, m := range f.GetMetric() {
			l := map[string]string{}
			for _, p := range m.GetLabel() {
				l[p.GetName()] = p.GetValue()
			}
			if l["name"] == cluster && l["namespace"] == ns {
				if m.Counter != nil {
					return m.GetCounter().GetValue(), true
				}
				return m.GetGauge().GetValue(), true
			}
		}
	}
	return 0, false
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var _ = time.Now
