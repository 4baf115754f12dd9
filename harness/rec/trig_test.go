package rec

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/controllers"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/go-logr/logr"
	"golang.org/x/time/rate"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1 "k8s.io/api/policy/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	toolscache "k8s.io/client-go/tools/cache"
	"k8s.io/client-go/tools/events"
	"k8s.io/client-go/tools/record"
	"k8s.io/utils/ptr"
	"pgregory.net/rapid"
	"sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/cache/informertest"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/apiutil"
	"sigs.k8s.io/controller-runtime/pkg/client/interceptor"
	"sigs.k8s.io/controller-runtime/pkg/config"
	"sigs.k8s.io/controller-runtime/pkg/controller"
	"sigs.k8s.io/controller-runtime/pkg/controller/controllertest"
	crlog "sigs.k8s.io/controller-runtime/pkg/log"
	"sigs.k8s.io/controller-runtime/pkg/manager"

	"verif/internal/vt"
)

// ---- a manager whose informers are driven by the test ----

type trigInformer struct {
	*controllertest.FakeInformer
	mu sync.Mutex
	hs []toolscache.ResourceEventHandler
}

type trigReg struct{}

func (trigReg) HasSynced() bool { return true }

func (i *trigInformer) AddEventHandler(h toolscache.ResourceEventHandler) (toolscache.ResourceEventHandlerRegistration, error) {
	i.mu.Lock()
	defer i.mu.Unlock()
	i.hs = append(i.hs, h)
	return trigReg{}, nil
}
func (i *trigInformer) AddEventHandlerWithOptions(h toolscache.ResourceEventHandler, _ toolscache.HandlerOptions) (toolscache.ResourceEventHandlerRegistration, error) {
	return i.AddEventHandler(h)
}

type trigCache struct {
	informertest.FakeInformers
	mu  sync.Mutex
	inf map[schema.GroupVersionKind]*trigInformer
}

func (c *trigCache) get(o client.Object) (*trigInformer, error) {
	gvk, err := apiutil.GVKForObject(o, scheme)
	if err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.inf[gvk] == nil {
		c.inf[gvk] = &trigInformer{FakeInformer: &controllertest.FakeInformer{Synced: true}}
	}
	return c.inf[gvk], nil
}

func (c *trigCache) GetInformer(_ context.Context, o client.Object, _ ...cache.InformerGetOption) (cache.Informer, error) {
	return c.get(o)
}

type trigMgr struct {
	manager.Manager // anything not overridden is not needed to set up a controller
	c               client.Client
	cache           *trigCache
	log             logr.Logger
	idx             trigIndexer
	runs            []manager.Runnable
}

type trigIndexer map[string]client.IndexerFunc

func (x trigIndexer) IndexField(_ context.Context, o client.Object, field string, f client.IndexerFunc) error {
	gvk, err := apiutil.GVKForObject(o, scheme)
	if err != nil {
		return err
	}
	x[gvk.Kind+" "+field] = f
	return nil
}

func (m *trigMgr) GetClient() client.Client             { return m.c }
func (m *trigMgr) GetAPIReader() client.Reader          { return m.c }
func (m *trigMgr) GetCache() cache.Cache                { return m.cache }
func (m *trigMgr) GetScheme() *runtime.Scheme           { return scheme }
func (m *trigMgr) GetFieldIndexer() client.FieldIndexer { return m.idx }
func (m *trigMgr) GetRESTMapper() meta.RESTMapper       { return trigMapper() }
func (m *trigMgr) GetLogger() logr.Logger               { return m.log }
func (m *trigMgr) Add(r manager.Runnable) error         { m.runs = append(m.runs, r); return nil }
func (m *trigMgr) Elected() <-chan struct{}             { c := make(chan struct{}); close(c); return c }
func (m *trigMgr) GetEventRecorderFor(string) record.EventRecorder {
	return record.NewFakeRecorder(100)
}
func (m *trigMgr) GetEventRecorder(string) events.EventRecorder { return events.NewFakeRecorder(100) }
func (m *trigMgr) GetControllerOptions() config.Controller {
	return config.Controller{SkipNameValidation: ptr.To(true)}
}

var trigMapper = sync.OnceValue(func() meta.RESTMapper {
	m := meta.NewDefaultRESTMapper(nil)
	for gvk := range scheme.AllKnownTypes() {
		m.Add(gvk, meta.RESTScopeNamespace)
	}
	m.Add(certGVK, meta.RESTScopeNamespace)
	return m
})

// trigSink carries the request of the running reconciliation in the context's logger.
type trigSink struct{ ns, name string }

func (s *trigSink) Init(logr.RuntimeInfo)        {}
func (s *trigSink) Enabled(int) bool             { return false }
func (s *trigSink) Info(int, string, ...any)     {}
func (s *trigSink) Error(error, string, ...any)  {}
func (s *trigSink) WithName(string) logr.LogSink { return s }
func (s *trigSink) WithValues(kv ...any) logr.LogSink {
	n := *s
	for i := 0; i+1 < len(kv); i += 2 {
		switch kv[i] {
		case "namespace":
			n.ns = fmt.Sprint(kv[i+1])
		case "name":
			n.name = fmt.Sprint(kv[i+1])
		}
	}
	return &n
}

// ---- plan ----

type trigCluster struct {
	NS, Name, CM, BP string
}

type trigOwner struct {
	API, Kind, Name string
	Ctrl            bool
}

type trigEvent struct {
	Kind   string      `json:"kind"`
	Verb   string      `json:"verb"`
	NS     string      `json:"ns"`
	Name   string      `json:"name"`
	Owners []trigOwner `json:"owners,omitempty"`
	Old    []trigOwner `json:"old,omitempty"` // owners before an update
	Gen    int         `json:"gen,omitempty"` // an update changes the generation
	Labels int         `json:"labels"`        // 0: none, 1: both, 2: only name, 3: only created-by, 4: other values
	// MySQLCluster events set the references of the cluster from then on.
	CM string `json:"cm,omitempty"`
	BP string `json:"bp,omitempty"`
}

type trigPlan struct {
	Clusters []trigCluster `json:"clusters"`
	Events   []trigEvent   `json:"events"`
}

var (
	trigNS     = []string{"a", "b", "a-b", SysNS}
	trigNames  = []string{"x", "y", "x.y", "x-y", "moco-x"}
	trigRefs   = []string{"", "c1", "c2", "c1-x"}
	trigOwned  = []string{"StatefulSet", "Service", "Secret", "ServiceAccount", "ConfigMap", "PodDisruptionBudget", "CronJob", "Role", "RoleBinding", "Job"}
	trigKinds  = append([]string{"MySQLCluster", "MySQLCluster", "Certificate", "Certificate", "ConfigMap", "ConfigMap", "BackupPolicy", "BackupPolicy", "Pod", "Pod", "StatefulSet"}, trigOwned...)
	trigAPIs   = []string{"moco.cybozu.com/v1beta2", "apps/v1", "v1", "example.com/v1beta2"}
	trigOKinds = []string{"MySQLCluster", "StatefulSet", "BackupPolicy"}
)

func genTrigOwners(t *rapid.T, n string) []trigOwner {
	var out []trigOwner
	for i := 0; i < rapid.IntRange(0, 2).Draw(t, n+"n"); i++ {
		o := trigOwner{API: trigAPIs[0], Kind: "MySQLCluster", Name: rapid.SampledFrom(trigNames).Draw(t, n+"name"), Ctrl: true}
		if vt.Uni(t, n+"odd", 3) == 0 {
			o.API = rapid.SampledFrom(trigAPIs).Draw(t, n+"api")
			o.Kind = rapid.SampledFrom(trigOKinds).Draw(t, n+"kind")
		}
		if len(out) > 0 || vt.Uni(t, n+"ctrl", 4) == 0 {
			o.Ctrl = false
		}
		out = append(out, o)
	}
	return out
}

func genTrig(t *rapid.T) trigPlan {
	var p trigPlan
	for i := 0; i < rapid.IntRange(0, 5).Draw(t, "nc"); i++ {
		p.Clusters = append(p.Clusters, trigCluster{
			NS: rapid.SampledFrom(trigNS).Draw(t, "cns"), Name: rapid.SampledFrom(trigNames).Draw(t, "cname"),
			CM: rapid.SampledFrom(trigRefs).Draw(t, "ccm"), BP: rapid.SampledFrom(trigRefs).Draw(t, "cbp")})
	}
	for i := 0; i < rapid.IntRange(1, 12).Draw(t, "ne"); i++ {
		e := trigEvent{Kind: trigKinds[vt.Uni(t, "kind", len(trigKinds))], Verb: rapid.SampledFrom([]string{"add", "update", "delete"}).Draw(t, "verb"),
			NS: rapid.SampledFrom(trigNS).Draw(t, "ns"), Name: rapid.SampledFrom(trigNames).Draw(t, "name")}
		if len(p.Clusters) > 0 && vt.Uni(t, "near", 2) == 0 {
			c := p.Clusters[rapid.IntRange(0, len(p.Clusters)-1).Draw(t, "cl")]
			e.NS, e.Name = c.NS, c.Name
			if e.Kind == "ConfigMap" && c.CM != "" {
				e.Name = c.CM
			}
			if e.Kind == "BackupPolicy" && c.BP != "" {
				e.Name = c.BP
			}
		}
		e.Gen = rapid.IntRange(0, 1).Draw(t, "gen")
		switch e.Kind {
		case "MySQLCluster":
			e.CM = rapid.SampledFrom(trigRefs).Draw(t, "cm")
			e.BP = rapid.SampledFrom(trigRefs).Draw(t, "bp")
		case "Certificate":
			switch vt.Uni(t, "cert", 6) {
			case 0:
			case 1:
				e.Name = "moco-agent-" + e.Name
			case 2:
				e.Name = "x-moco-agent-" + e.NS + "." + e.Name
			default:
				e.Name = "moco-agent-" + e.NS + "." + e.Name
				if vt.Uni(t, "sys", 4) > 0 {
					e.NS = SysNS
				}
			}
		case "BackupPolicy":
		case "Pod":
			e.Labels = rapid.SampledFrom([]int{1, 1, 1, 0, 2, 3, 4}).Draw(t, "labels")
			if vt.Uni(t, "pown", 4) > 0 {
				e.Owners = []trigOwner{{API: "apps/v1", Kind: "StatefulSet", Name: rapid.SampledFrom(trigNames).Draw(t, "psts"), Ctrl: true}}
				e.Old = e.Owners
			} else {
				e.Owners = genTrigOwners(t, "po")
				e.Old = e.Owners
			}
		default:
			e.Labels = rapid.SampledFrom([]int{1, 1, 0, 2, 3, 4}).Draw(t, "labels")
			e.Owners = genTrigOwners(t, "o")
			e.Old = e.Owners
			if vt.Uni(t, "diff", 3) == 0 {
				e.Old = genTrigOwners(t, "old")
			}
		}
		p.Events = append(p.Events, e)
	}
	return p
}

// ---- objects ----

func trigLabels(n int) map[string]string {
	switch n {
	case 1:
		return map[string]string{constants.LabelAppName: constants.AppNameMySQL, constants.LabelAppCreatedBy: constants.AppCreator}
	case 2:
		return map[string]string{constants.LabelAppName: constants.AppNameMySQL}
	case 3:
		return map[string]string{constants.LabelAppCreatedBy: constants.AppCreator}
	case 4:
		return map[string]string{constants.LabelAppName: "nginx", constants.LabelAppCreatedBy: constants.AppCreator}
	}
	return nil
}

func trigNew(kind string) client.Object {
	switch kind {
	case "MySQLCluster":
		return &mocov1beta2.MySQLCluster{}
	case "BackupPolicy":
		return &mocov1beta2.BackupPolicy{}
	case "StatefulSet":
		return &appsv1.StatefulSet{}
	case "Service":
		return &corev1.Service{}
	case "Secret":
		return &corev1.Secret{}
	case "ServiceAccount":
		return &corev1.ServiceAccount{}
	case "ConfigMap":
		return &corev1.ConfigMap{}
	case "PodDisruptionBudget":
		return &policyv1.PodDisruptionBudget{}
	case "CronJob":
		return &batchv1.CronJob{}
	case "Job":
		return &batchv1.Job{}
	case "Role":
		return &rbacv1.Role{}
	case "RoleBinding":
		return &rbacv1.RoleBinding{}
	case "Pod":
		return &corev1.Pod{}
	case "Certificate":
		u := &unstructured.Unstructured{}
		u.SetGroupVersionKind(certGVK)
		return u
	}
	panic(kind)
}

func (e trigEvent) object(owners []trigOwner) client.Object {
	o := trigNew(e.Kind)
	o.SetNamespace(e.NS)
	o.SetName(e.Name)
	o.SetUID(types.UID(e.Kind + e.NS + e.Name))
	if l := trigLabels(e.Labels); l != nil {
		o.SetLabels(l)
	}
	var refs []metav1.OwnerReference
	for _, w := range owners {
		r := metav1.OwnerReference{APIVersion: w.API, Kind: w.Kind, Name: w.Name, UID: types.UID(w.Name)}
		if w.Ctrl {
			r.Controller = ptr.To(true)
		}
		refs = append(refs, r)
	}
	if refs != nil {
		o.SetOwnerReferences(refs)
	}
	if c, ok := o.(*mocov1beta2.MySQLCluster); ok {
		if e.CM != "" {
			c.Spec.MySQLConfigMapName = ptr.To(e.CM)
		}
		if e.BP != "" {
			c.Spec.BackupPolicyName = ptr.To(e.BP)
		}
	}
	return o
}

func trigCtrlOwner(owners []trigOwner, group, kind string) string {
	for _, w := range owners {
		if w.Ctrl {
			g, _, ok := strings.Cut(w.API, "/")
			if ok && g == group && w.Kind == kind {
				return w.Name
			}
			return ""
		}
	}
	return ""
}

type trigSet map[string]bool

func (s trigSet) String() string {
	var l []string
	for k := range s {
		l = append(l, k)
	}
	sort.Strings(l)
	return "{" + strings.Join(l, ", ") + "}"
}

// trigExpect tells which reconciliations an event must cause.
func trigExpect(e trigEvent, clusters []trigCluster) trigSet {
	want := trigSet{}
	states := [][]trigOwner{e.Owners}
	if e.Verb == "update" {
		states = append(states, e.Old)
	}
	switch e.Kind {
	case "MySQLCluster":
		want["cluster "+e.NS+"/"+e.Name] = true
	case "Certificate":
		if rest, ok := strings.CutPrefix(e.Name, "moco-agent-"); ok && e.NS == SysNS {
			if ns, name, ok := strings.Cut(rest, "."); ok {
				want["cluster "+ns+"/"+name] = true
			}
		}
	case "BackupPolicy":
		for _, c := range clusters {
			if c.NS == e.NS && c.BP == e.Name {
				want["cluster "+c.NS+"/"+c.Name] = true
			}
		}
	case "Pod":
	default:
		for _, s := range states {
			if n := trigCtrlOwner(s, "moco.cybozu.com", "MySQLCluster"); n != "" {
				want["cluster "+e.NS+"/"+n] = true
			}
		}
	}
	if e.Kind == "ConfigMap" {
		for _, c := range clusters {
			if c.NS == e.NS && c.CM == e.Name {
				want["cluster "+c.NS+"/"+c.Name] = true
			}
		}
	}
	if e.Labels == 1 {
		switch e.Kind {
		case "StatefulSet":
			want["partition "+e.NS+"/"+e.Name] = true
		case "Pod":
			want["pod "+e.NS+"/"+e.Name] = true
			for _, s := range states {
				if n := trigCtrlOwner(s, "apps", "StatefulSet"); n != "" {
					want["partition "+e.NS+"/"+n] = true
				}
			}
		}
	}
	return want
}

func runTrig(t *testing.T, p trigPlan) (vt.Case, error) {
	c := vt.Case{}
	cls := map[string]bool{}
	err := vt.Bubble(t, func() error {
		var mu sync.Mutex
		got := trigSet{}
		clusters := []trigCluster{}
		put := func(n trigCluster) {
			for i := range clusters {
				if clusters[i].NS == n.NS && clusters[i].Name == n.Name {
					clusters[i] = n
					return
				}
			}
			clusters = append(clusters, n)
		}
		del := func(ns, name string) {
			for i := range clusters {
				if clusters[i].NS == ns && clusters[i].Name == name {
					clusters = append(clusters[:i:i], clusters[i+1:]...)
					return
				}
			}
		}
		for _, k := range p.Clusters {
			put(k)
		}
		idx := trigIndexer{}
		raw := newFake()
		mk := func(who string) client.Client {
			note := func(ctx context.Context) bool {
				if controller.ReconcileIDFromContext(ctx) == "" {
					return false
				}
				if s, ok := crlog.FromContext(ctx).GetSink().(*trigSink); ok && s.name != "" {
					mu.Lock()
					got[who+" "+s.ns+"/"+s.name] = true
					mu.Unlock()
				}
				return true
			}
			return interceptor.NewClient(raw, interceptor.Funcs{
				Get: func(ctx context.Context, w client.WithWatch, key client.ObjectKey, o client.Object, _ ...client.GetOption) error {
					gvk, _ := apiutil.GVKForObject(o, scheme)
					nf := apierrors.NewNotFound(schema.GroupResource{Group: gvk.Group, Resource: gvk.Kind}, key.Name)
					if note(ctx) {
						return nf // the object is gone: nothing to do
					}
					if out, ok := o.(*mocov1beta2.MySQLCluster); ok {
						mu.Lock()
						defer mu.Unlock()
						for _, k := range clusters {
							if k.NS == key.Namespace && k.Name == key.Name {
								(trigEvent{Kind: "MySQLCluster", NS: k.NS, Name: k.Name, CM: k.CM, BP: k.BP}).object(nil).(*mocov1beta2.MySQLCluster).DeepCopyInto(out)
								return nil
							}
						}
					}
					return nf
				},
				List: func(ctx context.Context, w client.WithWatch, l client.ObjectList, opts ...client.ListOption) error {
					note(ctx)
					out, ok := l.(*mocov1beta2.MySQLClusterList)
					if !ok {
						return w.List(ctx, l, opts...)
					}
					lo := client.ListOptions{}
					lo.ApplyOptions(opts)
					mu.Lock()
					defer mu.Unlock()
					for _, k := range clusters {
						if lo.Namespace != "" && lo.Namespace != k.NS {
							continue
						}
						o := (trigEvent{Kind: "MySQLCluster", NS: k.NS, Name: k.Name, CM: k.CM, BP: k.BP}).object(nil).(*mocov1beta2.MySQLCluster)
						match := true
						if lo.FieldSelector != nil {
							for _, q := range lo.FieldSelector.Requirements() {
								f := idx["MySQLCluster "+q.Field]
								if f == nil {
									return fmt.Errorf("Index with name field:%s does not exist", q.Field)
								}
								hit := false
								for _, v := range f(o) {
									hit = hit || v == q.Value
								}
								match = match && hit
							}
						}
						if lo.LabelSelector != nil && !lo.LabelSelector.Empty() {
							match = false
						}
						if match {
							out.Items = append(out.Items, *o)
						}
					}
					return nil
				},
			})
		}

		ch := &trigCache{inf: map[schema.GroupVersionKind]*trigInformer{}}
		m := &trigMgr{cache: ch, log: logr.New(&trigSink{}), idx: idx}
		ctx, cancel := context.WithCancel(crlog.IntoContext(context.Background(), m.log))
		defer cancel()
		cm := &Mgr{State: map[types.NamespacedName]string{}, Kicks: map[types.NamespacedName]int{}}
		m.c = mk("cluster")
		if err := (&controllers.MySQLClusterReconciler{Client: m.c, Scheme: scheme, Recorder: record.NewFakeRecorder(100), SystemNamespace: SysNS, ClusterManager: cm, MaxConcurrentReconciles: 2}).SetupWithManager(ctx, m); err != nil {
			return fmt.Errorf("SetupWithManager of the cluster reconciler failed: %v", err)
		}
		m.c = mk("partition")
		if err := (&controllers.StatefulSetPartitionReconciler{Client: m.c, Recorder: record.NewFakeRecorder(100), MaxConcurrentReconciles: 1, RateLimiter: rate.NewLimiter(rate.Inf, 1)}).SetupWithManager(m); err != nil {
			return fmt.Errorf("SetupWithManager of the partition reconciler failed: %v", err)
		}
		m.c = mk("pod")
		if err := (&controllers.PodWatcher{Client: m.c, ClusterManager: cm, MaxConcurrentReconciles: 1}).SetupWithManager(m); err != nil {
			return fmt.Errorf("SetupWithManager of the pod watcher failed: %v", err)
		}
		var wg sync.WaitGroup
		defer wg.Wait()
		defer cancel()
		for _, r := range m.runs {
			wg.Add(1)
			go func() { defer wg.Done(); _ = r.Start(ctx) }()
		}
		synctest.Wait()

		for i, e := range p.Events {
			mu.Lock()
			got = trigSet{}
			if e.Kind == "MySQLCluster" {
				if e.Verb == "delete" {
					del(e.NS, e.Name)
				} else {
					put(trigCluster{NS: e.NS, Name: e.Name, CM: e.CM, BP: e.BP})
				}
			}
			want := trigExpect(e, clusters)
			mu.Unlock()
			inf, err := ch.get(trigNew(e.Kind))
			if err != nil {
				return err
			}
			o, before := e.object(e.Owners), e.object(e.Old)
			before.SetResourceVersion(fmt.Sprint(2*i + 1))
			o.SetResourceVersion(fmt.Sprint(2*i + 2))
			before.SetGeneration(1)
			o.SetGeneration(1 + int64(e.Gen))
			inf.mu.Lock()
			hs := append([]toolscache.ResourceEventHandler(nil), inf.hs...)
			inf.mu.Unlock()
			for _, h := range hs {
				switch e.Verb {
				case "add":
					h.OnAdd(o, false)
				case "update":
					h.OnUpdate(before, o)
				case "delete":
					h.OnDelete(o)
				}
			}
			synctest.Wait()
			mu.Lock()
			g := trigSet{}
			for k := range got {
				g[k] = true
			}
			mu.Unlock()
			if g.String() != want.String() {
				return fmt.Errorf("event %d (%s of %s %s/%s, owners %v, before %v) triggered %v, want %v", i, e.Verb, e.Kind, e.NS, e.Name, e.Owners, e.Old, g, want)
			}
			if len(want) > 0 {
				c.Nontrivial = true
				cls[e.Kind+"."+e.Verb] = true
			} else {
				cls["no-trigger"] = true
			}
			if len(want) > 1 {
				cls["many"] = true
			}
		}
		return nil
	})
	for k := range cls {
		c.Classes = append(c.Classes, k)
	}
	sort.Strings(c.Classes)
	return c, err
}

func TestR13(t *testing.T) {
	vt.Run(t, "R13", genTrig, runTrig)
}
