// Package world runs the real clustering manager against simulated mysqld
// instances (mysim) and a fake Kubernetes API, with a little kubelet,
// StatefulSet controller, user and client workload.
package world

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	agent "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/clustering"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/dbop"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/cybozu-go/moco/pkg/password"
	"github.com/go-logr/logr"
	"github.com/prometheus/client_golang/prometheus"
	"google.golang.org/grpc"
	corev1 "k8s.io/api/core/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/runtime/serializer"
	"k8s.io/apimachinery/pkg/types"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	clienttesting "k8s.io/client-go/testing"
	"k8s.io/client-go/tools/record"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/client/interceptor"
	"sigs.k8s.io/controller-runtime/pkg/manager"

	"verif/internal/mysim"
	"verif/internal/wire"
)

// Scheme is the scheme with core and moco types.
var Scheme = func() *runtime.Scheme {
	s := runtime.NewScheme()
	if err := clientgoscheme.AddToScheme(s); err != nil {
		panic(err)
	}
	if err := mocov1beta2.AddToScheme(s); err != nil {
		panic(err)
	}
	return s
}()

var decoder = serializer.NewCodecFactory(Scheme).UniversalDecoder()

// Pw is the fixed password set of all simulated clusters.
var Pw = func() *password.MySQLPassword {
	p, err := password.NewMySQLPassword()
	if err != nil {
		panic(err)
	}
	return p
}()

// Registry holds the controller metrics.
var Registry = newRegistry()

func newRegistry() *prometheus.Registry {
	r := prometheus.NewRegistry()
	metrics.Register(r)
	return r
}

// ResetMetrics forgets all metrics.
func ResetMetrics() { Registry = newRegistry() }

const (
	RoleLabel  = "moco.cybozu.com/role"
	AnnDemote  = "moco.cybozu.com/demote"
	AnnPrevent = "moco.cybozu.com/prevent-delete"
	SrcSecret  = "source-secret"
)

// Config of a world.
type Config struct {
	NS, Name      string
	N             int
	Interval      time.Duration
	Ver           string
	MaxDelayDel   int64
	ServerIDBase  int32
	WithSource    bool // replica cluster
	CloneDur      time.Duration
	BootDur       time.Duration
	CloneFailures int // the first k clones fail
	NoPods        []int
	Offline       bool
	Restore       bool
	APILatency    time.Duration
	StmtLatency   time.Duration
}

// APIRecord is one API write done by the controller.
type APIRecord struct {
	At   time.Time
	Verb string
	Obj  string
	Err  bool
}

// World is a running scenario.
type World struct {
	crashWG sync.WaitGroup
	Cfg     Config
	Net     *mysim.Net
	C       client.WithWatch
	Key     types.NamespacedName
	S       []*mysim.Server
	Source  *mysim.Server
	Mgr     clustering.ClusterManager
	Gen     int
	Events  []string
	Writes  []*mysim.Write
	Clients []*Client
	Clones  []CloneCall
	API     []APIRecord

	started time.Time
	stopCh  chan struct{}
	doneCh  chan struct{}

	term       map[int]time.Time // pod index -> time the server stops
	gone       map[int]time.Time // pod index -> time the pod is recreated
	bootAt     map[int]time.Time
	readyState map[int]bool
	wipeOnBoot map[int]bool

	noRoleSince  map[int]time.Time
	lastPrimary  int
	primarySince time.Time
	ackSince     bool // current recorded primary acked something

	apiSeq    int
	apiFaults map[int]string // ordinal -> kind
	sqlFaults map[int]string
	crashAPI  int // crash controller before API call number (0: off)
	crashSQL  int
	ctlDown   bool
	NoClients bool

	FreezeReady bool                                 // pod readiness is set by the scenario
	FailAPI     bool                                 // every API call of the controller fails
	FailMut     bool                                 // every change the controller attempts (other than the cluster status) fails
	OnWrite     func(verb string, obj client.Object) // after every successful API write of the controller
	Viol        map[string]string                    // property -> first violation
	Notes       map[string]int
	Unsupported string
	OnPromote   func(from, to int)
	OnWritable  func(s *mysim.Server) // Mu held
	Hung        int

	primaryIdx int // cached recorded primary
	N          int
	Err        error
}

// CloneCall records a clone request sent to an agent.
type CloneCall struct {
	At       time.Time
	Index    int
	Req      *agent.CloneRequest
	Executed string
	SrcNil   bool
	Primary  int
	Failed   bool
	Listed   bool // recorded as errant
	Running  bool // another clone was running
}

// Client is a simulated application client.
type Client struct {
	W      *World
	User   string
	Every  time.Duration
	Sticky bool // keeps its connection even if the role changes
	conn   *mysim.Conn
	next   time.Time
	cur    *mysim.Write
	Long   time.Duration // duration of the next long statement
	longW  bool
	Stop   bool
	opened time.Time
}

type stubManager struct {
	manager.Manager
	c   client.Client
	r   client.Reader
	rec record.EventRecorder
}

func (m stubManager) GetClient() client.Client    { return m.c }
func (m stubManager) GetAPIReader() client.Reader { return m.r }
func (m stubManager) GetEventRecorderFor(string) record.EventRecorder {
	return m.rec
}

type recorder struct{ w *World }

func (r recorder) Event(o runtime.Object, t, reason, msg string) { r.w.addEvent(reason + ": " + msg) }
func (r recorder) Eventf(o runtime.Object, t, reason, f string, a ...any) {
	r.w.addEvent(reason + ": " + fmt.Sprintf(f, a...))
}
func (r recorder) AnnotatedEventf(o runtime.Object, _ map[string]string, t, reason, f string, a ...any) {
	r.w.addEvent(reason + ": " + fmt.Sprintf(f, a...))
}

func (w *World) addEvent(s string) {
	w.Net.Mu.Lock()
	w.Events = append(w.Events, s)
	w.Net.Mu.Unlock()
}

// Violate records the first violation of a property (Net.Mu need not be held).
func (w *World) violate(prop, format string, a ...any) {
	if _, ok := w.Viol[prop]; !ok {
		w.Viol[prop] = fmt.Sprintf("t=%s: ", time.Since(w.started).Round(time.Millisecond)) + fmt.Sprintf(format, a...)
	}
}

// Host is the host name of instance i.
func (w *World) Host(i int) string {
	return fmt.Sprintf("moco-%s-%d.moco-%s.%s.svc", w.Cfg.Name, i, w.Cfg.Name, w.Cfg.NS)
}

// PodName is the pod name of instance i.
func (w *World) PodName(i int) string { return fmt.Sprintf("moco-%s-%d", w.Cfg.Name, i) }

func (w *World) newServer(i int) *mysim.Server {
	return w.Net.Add(&mysim.Server{
		Name: fmt.Sprintf("%s/%d", w.Cfg.Name, i), Index: i, Host: w.Host(i), IP: fmt.Sprintf("10.0.7.%d", i+10),
		ServerID: w.Cfg.ServerIDBase + int32(i), Ver: w.Cfg.Ver,
		Users: map[string]string{
			"moco-admin": Pw.Admin(), "moco-repl": Pw.Replicator(), "moco-clone-donor": Pw.Donor(), "moco-agent": Pw.Agent(),
		},
	})
}

// New creates a world; the pods are running and the instances are fresh.
func New(cfg Config) *World {
	if cfg.NS == "" {
		cfg.NS, cfg.Name = "ns", "test"
	}
	if cfg.ServerIDBase == 0 {
		cfg.ServerIDBase = 100
	}
	if cfg.Interval == 0 {
		cfg.Interval = 30 * time.Second
	}
	if cfg.BootDur == 0 {
		cfg.BootDur = 5 * time.Second
	}
	if cfg.CloneDur == 0 {
		cfg.CloneDur = 3 * time.Second
	}
	w := &World{Cfg: cfg, Net: mysim.New(), Key: types.NamespacedName{Namespace: cfg.NS, Name: cfg.Name},
		started: time.Now(), stopCh: make(chan struct{}), doneCh: make(chan struct{}),
		term: map[int]time.Time{}, gone: map[int]time.Time{}, bootAt: map[int]time.Time{}, readyState: map[int]bool{}, wipeOnBoot: map[int]bool{},
		noRoleSince: map[int]time.Time{}, apiFaults: map[int]string{}, sqlFaults: map[int]string{},
		Viol: map[string]string{}, Notes: map[string]int{}, N: cfg.N}
	w.Net.StmtLatency = cfg.StmtLatency
	w.Net.OnEvent = w.onEvent
	w.Net.Fault = w.sqlFault
	cl := &mocov1beta2.MySQLCluster{}
	cl.Namespace, cl.Name, cl.UID = cfg.NS, cfg.Name, "cluster-uid"
	cl.Spec.Replicas = int32(cfg.N)
	cl.Spec.ServerIDBase = cfg.ServerIDBase
	cl.Spec.MaxDelaySecondsForPodDeletion = cfg.MaxDelayDel
	cl.Spec.StartupWaitSeconds = 3600
	cl.Spec.Offline = cfg.Offline
	objs := []client.Object{cl}
	if cfg.WithSource {
		n := SrcSecret
		cl.Spec.ReplicationSourceSecretName = &n
		w.Source = w.Net.Add(&mysim.Server{Name: "source", Index: -1, Host: "source.example.com", IP: "10.0.99.1", ServerID: 9000, Ver: cfg.Ver,
			Users: map[string]string{"donor": "donorpw"}})
		w.Source.ReadOnly, w.Source.SuperRO = false, false
		objs = append(objs, &corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: cfg.NS, Name: SrcSecret}, Data: map[string][]byte{
			"HOST": []byte("source.example.com"), "PORT": []byte("3306"), "USER": []byte("donor"), "PASSWORD": []byte("donorpw"),
			"INIT_USER": []byte("init"), "INIT_PASSWORD": []byte("initpw")}})
	}
	sec := Pw.ToSecret()
	sec.Namespace, sec.Name = cfg.NS, "moco-"+cfg.Name
	objs = append(objs, sec)
	w.C = fake.NewClientBuilder().WithScheme(Scheme).WithObjectTracker(clienttesting.NewObjectTracker(Scheme, decoder)).WithStatusSubresource(&mocov1beta2.MySQLCluster{}, &corev1.Pod{}).WithObjects(objs...).Build()
	for i := 0; i < cfg.N; i++ {
		w.S = append(w.S, w.newServer(i))
	}
	skip := map[int]bool{}
	for _, i := range cfg.NoPods {
		skip[i] = true
	}
	for i := 0; i < cfg.N; i++ {
		if !skip[i] {
			w.createPod(i)
		} else {
			w.S[i].Crash()
		}
	}
	return w
}

// again repeats f while it conflicts with a concurrent change; an object that is gone is left alone.
func again(f func() error) {
	var err error
	for k := 0; k < 50; k++ {
		if err = f(); err == nil || apierrors.IsNotFound(err) {
			return
		}
		if !apierrors.IsConflict(err) {
			break
		}
	}
	must(err)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (w *World) createPod(i int) {
	p := &corev1.Pod{}
	p.Namespace, p.Name = w.Cfg.NS, w.PodName(i)
	p.Labels = map[string]string{"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": w.Cfg.Name, "app.kubernetes.io/created-by": "moco"}
	p.Finalizers = []string{"verif/kubelet"}
	p.Spec.Containers = []corev1.Container{{Name: "mysqld", Image: "mysql"}}
	must(w.C.Create(context.Background(), p))
	p.Status.PodIP = w.S[i].IP
	p.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodScheduled, Status: corev1.ConditionTrue}, {Type: corev1.PodReady, Status: corev1.ConditionFalse}}
	must(w.C.Status().Update(context.Background(), p))
	w.noRoleSince[i] = time.Now()
	w.readyState[i] = false
}

// Pod returns the pod object (nil if missing).
func (w *World) Pod(i int) *corev1.Pod {
	p := &corev1.Pod{}
	err := w.C.Get(context.Background(), types.NamespacedName{Namespace: w.Cfg.NS, Name: w.PodName(i)}, p)
	if err != nil {
		if apierrors.IsNotFound(err) {
			return nil
		}
		panic(err)
	}
	return p
}

// Cluster returns the MySQLCluster.
func (w *World) Cluster() *mocov1beta2.MySQLCluster {
	c := &mocov1beta2.MySQLCluster{}
	must(w.C.Get(context.Background(), w.Key, c))
	return c
}

// Primary is the recorded primary.
func (w *World) Primary() int { return w.Cluster().Status.CurrentPrimaryIndex }

// State is the reason of the Healthy condition ("" if none).
func (w *World) State() string {
	for _, c := range w.Cluster().Status.Conditions {
		if c.Type == "Healthy" {
			return c.Reason
		}
	}
	return ""
}

// Cond returns the condition.
func (w *World) Cond(typ string) *metav1.Condition {
	for _, c := range w.Cluster().Status.Conditions {
		if c.Type == typ {
			return &c
		}
	}
	return nil
}

// UpdateSpec changes the cluster spec.
func (w *World) UpdateSpec(f func(*mocov1beta2.MySQLCluster)) {
	again(func() error {
		c := w.Cluster()
		f(c)
		return w.C.Update(context.Background(), c)
	})
}

// UpdateStatus changes the cluster status.
func (w *World) UpdateStatus(f func(*mocov1beta2.MySQLCluster)) {
	again(func() error {
		c := w.Cluster()
		f(c)
		return w.C.Status().Update(context.Background(), c)
	})
}

// EditPod changes pod metadata.
func (w *World) EditPod(i int, f func(*corev1.Pod)) {
	again(func() error {
		p := w.Pod(i)
		if p == nil {
			return nil
		}
		f(p)
		return w.C.Update(context.Background(), p)
	})
	w.afterPodWrite(w.PodName(i), false)
}

// ---- controller ----

type resolver struct {
	w   *World
	gen int
	c   client.Client
}

func (r resolver) Resolve(ctx context.Context, cl *mocov1beta2.MySQLCluster, i int) (string, error) {
	// the real resolver reads the informer cache, which does not fail
	r.w.Net.Mu.Lock()
	fenced := r.w.Net.Fenced[r.gen]
	r.w.Net.Mu.Unlock()
	if fenced {
		return "", errFenced
	}
	p := &corev1.Pod{}
	if err := r.w.C.Get(ctx, types.NamespacedName{Namespace: cl.Namespace, Name: r.w.PodName(i)}, p); err != nil {
		return "", err
	}
	if p.Status.PodIP == "" {
		return "", errors.New("no IP")
	}
	return r.w.S[i].CtlIP(r.gen), nil
}

// StartController starts a (new) controller process.
func (w *World) StartController() {
	w.Gen++
	w.ctlDown = false
	gen := w.Gen
	c := w.wrap(gen)
	w.Mgr = clustering.NewClusterManager(w.Cfg.Interval, stubManager{c: c, r: c, rec: recorder{w}},
		dbop.NewFactory(resolver{w, gen, c}), agentFactory{w, gen}, logr.Discard())
	w.Mgr.Update(w.Key, "start")
}

// NewFake returns a fake API with the given objects.
func NewFake(objs ...client.Object) client.WithWatch {
	return fake.NewClientBuilder().WithScheme(Scheme).WithObjectTracker(clienttesting.NewObjectTracker(Scheme, decoder)).
		WithStatusSubresource(&mocov1beta2.MySQLCluster{}, &corev1.Pod{}).WithObjects(objs...).Build()
}

// ManagerFor returns a cluster manager on an API client; it cannot reach any instance.
func ManagerFor(c client.Client, interval time.Duration) clustering.ClusterManager {
	w := &World{Net: mysim.New()}
	return clustering.NewClusterManager(interval, stubManager{c: c, r: c, rec: recorder{w}}, dbop.NewFactory(nowhere{}), agentFactory{w, 1}, logr.Discard())
}

type nowhere struct{}

func (nowhere) Resolve(context.Context, *mocov1beta2.MySQLCluster, int) (string, error) {
	return "", errors.New("no such pod")
}

// NewManager returns a manager on the world's API without starting anything.
func (w *World) NewManager(opf dbop.OperatorFactory) clustering.ClusterManager {
	w.Gen++
	gen := w.Gen
	c := w.wrap(gen)
	if opf == nil {
		opf = dbop.NewFactory(resolver{w, gen, c})
	}
	return clustering.NewClusterManager(w.Cfg.Interval, stubManager{c: c, r: c, rec: recorder{w}}, opf, agentFactory{w, gen}, logr.Discard())
}

// CrashController kills the controller process: nothing it does from now on has an effect.
func (w *World) CrashController() {
	w.Net.Mu.Lock()
	if w.ctlDown {
		w.Net.Mu.Unlock()
		return
	}
	w.ctlDown = true
	w.Net.Fence(w.Gen)
	mgr := w.Mgr
	w.Net.Mu.Unlock()
	w.Notes["controller-crash"]++
	w.stopCrashed(mgr)
}

func (w *World) stopCrashed(mgr clustering.ClusterManager) {
	w.crashWG.Add(1)
	go func() {
		defer w.crashWG.Done()
		mgr.StopAll()
	}()
}

var errFenced = errors.New("controller is dead")

func (w *World) apiCall(gen int, write bool, verb string) (func(), error, error) {
	if w.Cfg.APILatency > 0 {
		time.Sleep(w.Cfg.APILatency)
	}
	w.Net.Mu.Lock()
	if w.Net.Fenced[gen] {
		w.Net.Mu.Unlock()
		return nil, errFenced, nil
	}
	w.apiSeq++
	n := w.apiSeq
	crash := w.crashAPI != 0 && n >= w.crashAPI
	if crash {
		w.crashAPI = 0
	}
	kind := w.apiFaults[n]
	if w.FailMut && write && verb != "update-status" && verb != "patch-status" {
		kind = "error"
	}
	if w.FailAPI {
		kind = "error"
	}
	w.Net.Mu.Unlock()
	if crash {
		w.CrashController()
		return nil, errFenced, nil
	}
	switch kind {
	case "error":
		w.Notes["api-error"]++
		return nil, apierrors.NewInternalError(errors.New("injected")), nil
	case "conflict":
		if write {
			w.Notes["api-conflict"]++
			return nil, apierrors.NewConflict(schema.GroupResource{Resource: "x"}, "x", errors.New("injected")), nil
		}
	case "after":
		w.Notes["api-after"]++
		return nil, nil, apierrors.NewTimeoutError("injected", 1)
	}
	return nil, nil, nil
}

func (w *World) wrap(gen int) client.Client {
	rec := func(verb string, obj client.Object, err error) {
		w.Net.Mu.Lock()
		w.API = append(w.API, APIRecord{time.Now(), verb, fmt.Sprintf("%T/%s", obj, obj.GetName()), err != nil})
		w.Net.Mu.Unlock()
		if err == nil {
			if w.OnWrite != nil {
				w.OnWrite(verb, obj)
			}
			switch obj.(type) {
			case *corev1.Pod:
				w.afterPodWrite(obj.GetName(), true)
			case *mocov1beta2.MySQLCluster:
				w.afterClusterWrite()
			}
		}
	}
	return interceptor.NewClient(w.C, interceptor.Funcs{
		Get: func(ctx context.Context, c client.WithWatch, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			if _, err, _ := w.apiCall(gen, false, "get"); err != nil {
				return err
			}
			return c.Get(ctx, key, obj, opts...)
		},
		List: func(ctx context.Context, c client.WithWatch, list client.ObjectList, opts ...client.ListOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			if _, err, _ := w.apiCall(gen, false, "list"); err != nil {
				return err
			}
			return c.List(ctx, list, opts...)
		},
		Create: func(ctx context.Context, c client.WithWatch, obj client.Object, opts ...client.CreateOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			_, err, after := w.apiCall(gen, true, "create")
			if err != nil {
				return err
			}
			err = c.Create(ctx, obj, opts...)
			rec("create", obj, err)
			if err == nil {
				err = after
			}
			return err
		},
		Update: func(ctx context.Context, c client.WithWatch, obj client.Object, opts ...client.UpdateOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			_, err, after := w.apiCall(gen, true, "update")
			if err != nil {
				return err
			}
			err = c.Update(ctx, obj, opts...)
			rec("update", obj, err)
			if err == nil {
				err = after
			}
			return err
		},
		Patch: func(ctx context.Context, c client.WithWatch, obj client.Object, p client.Patch, opts ...client.PatchOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			_, err, after := w.apiCall(gen, true, "patch")
			if err != nil {
				return err
			}
			err = c.Patch(ctx, obj, p, opts...)
			rec("patch", obj, err)
			if err == nil {
				err = after
			}
			return err
		},
		Delete: func(ctx context.Context, c client.WithWatch, obj client.Object, opts ...client.DeleteOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			_, err, after := w.apiCall(gen, true, "delete")
			if err != nil {
				return err
			}
			err = c.Delete(ctx, obj, opts...)
			rec("delete", obj, err)
			if err == nil {
				err = after
			}
			return err
		},
		SubResourceUpdate: func(ctx context.Context, c client.Client, sub string, obj client.Object, opts ...client.SubResourceUpdateOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			_, err, after := w.apiCall(gen, true, "update-"+sub)
			if err != nil {
				return err
			}
			err = c.SubResource(sub).Update(ctx, obj, opts...)
			rec("update-"+sub, obj, err)
			if err == nil {
				err = after
			}
			return err
		},
		SubResourcePatch: func(ctx context.Context, c client.Client, sub string, obj client.Object, p client.Patch, opts ...client.SubResourcePatchOption) error {
			if err := ctx.Err(); err != nil {
				return err
			}
			_, err, after := w.apiCall(gen, true, "patch-"+sub)
			if err != nil {
				return err
			}
			err = c.SubResource(sub).Patch(ctx, obj, p, opts...)
			rec("patch-"+sub, obj, err)
			if err == nil {
				err = after
			}
			return err
		},
	})
}

// FaultAPI makes the k-th API call from now fail.
func (w *World) FaultAPI(k int, kind string) {
	w.Net.Mu.Lock()
	w.apiFaults[w.apiSeq+k] = kind
	w.Net.Mu.Unlock()
}

// FaultSQL makes the k-th statement from now fail.
func (w *World) FaultSQL(k int, kind string) {
	w.Net.Mu.Lock()
	w.sqlFaults[w.Net.Stmts+k] = kind
	w.Net.Mu.Unlock()
}

// CrashAtAPI kills the controller instead of its k-th API call from now.
func (w *World) CrashAtAPI(k int) {
	w.Net.Mu.Lock()
	w.crashAPI = w.apiSeq + k
	w.Net.Mu.Unlock()
}

// CrashAtSQL kills the controller before its k-th statement from now.
func (w *World) CrashAtSQL(k int) {
	w.Net.Mu.Lock()
	w.crashSQL = w.Net.Stmts + k
	w.Net.Mu.Unlock()
}

// ClearFaults removes pending injected faults.
func (w *World) ClearFaults() {
	w.Net.Mu.Lock()
	w.apiFaults, w.sqlFaults = map[int]string{}, map[int]string{}
	w.crashAPI, w.crashSQL = 0, 0
	w.Net.Mu.Unlock()
}

// called with Mu held
func (w *World) sqlFault(c *mysim.Conn, stmt string) (before, after error) {
	if w.crashSQL != 0 && w.Net.Stmts >= w.crashSQL && !w.ctlDown {
		w.crashSQL = 0
		w.ctlDown = true
		w.Notes["controller-crash"]++
		w.Net.Fence(w.Gen)
		w.stopCrashed(w.Mgr)
		return wire.ErrDrop, nil
	}
	if w.FailMut && mysim.Mutating(stmt) {
		return &wire.SQLError{Code: 1105, Msg: "injected"}, nil
	}
	switch w.sqlFaults[w.Net.Stmts] {
	case "error":
		w.Notes["sql-error"]++
		return &wire.SQLError{Code: 1105, Msg: "injected"}, nil
	case "drop":
		w.Notes["sql-drop"]++
		return wire.ErrDrop, nil
	case "after":
		w.Notes["sql-after"]++
		return nil, wire.ErrDrop
	}
	return nil, nil
}

// ---- agent ----

type agentFactory struct {
	w   *World
	gen int
}

type agentConn struct {
	w   *World
	gen int
	i   int
}

func (f agentFactory) New(ctx context.Context, cl *mocov1beta2.MySQLCluster, index int) (clustering.AgentConn, error) {
	if f.w.Cfg.Name != cl.Name {
		return nil, errors.New("wrong cluster")
	}
	return &agentConn{f.w, f.gen, index}, nil
}

func (a *agentConn) Close() error { return nil }

func (a *agentConn) Clone(ctx context.Context, req *agent.CloneRequest, _ ...grpc.CallOption) (*agent.CloneResponse, error) {
	w := a.w
	w.Net.Mu.Lock()
	s := w.S[a.i]
	if w.Net.Fenced[a.gen] || w.Net.CtrlCut[s.Name] || !s.Up || w.FailMut {
		w.Net.Mu.Unlock()
		return nil, errors.New("agent unavailable")
	}
	call := CloneCall{At: time.Now(), Index: a.i, Req: req, Executed: s.Executed.String(), SrcNil: s.Src == nil, Primary: w.primaryIdx, Running: s.Clone == "In Progress"}
	for _, e := range w.Cluster().Status.ErrantReplicaList {
		if e == a.i {
			call.Listed = true
		}
	}
	if w.Cfg.CloneFailures > 0 {
		w.Cfg.CloneFailures--
		call.Failed = true
		w.Clones = append(w.Clones, call)
		s.Clone = "Failed"
		w.Net.Mu.Unlock()
		time.Sleep(time.Second)
		return nil, errors.New("clone failed")
	}
	w.Clones = append(w.Clones, call)
	w.onClone(call)
	s.Clone = "In Progress"
	gen := s.Gen
	w.Net.Mu.Unlock()
	time.Sleep(w.Cfg.CloneDur)
	w.Net.Mu.Lock()
	defer w.Net.Mu.Unlock()
	if s.Gen != gen || !s.Up {
		s.Clone = "Failed"
		return nil, errors.New("agent died")
	}
	var donor *mysim.Server
	for _, d := range w.Net.List {
		if d.IP == req.Host || d.Host == req.Host {
			donor = d
		}
	}
	if donor == nil || !donor.Up || donor == s {
		s.Clone = "Failed"
		return nil, fmt.Errorf("cannot reach donor %s", req.Host)
	}
	if pw, ok := donor.Users[req.User]; !ok || pw != req.Password {
		s.Clone = "Failed"
		return nil, errors.New("access denied on donor")
	}
	s.CloneFrom(donor)
	s.Clone = "Completed"
	w.Notes["clone"]++
	// mysqld restarts after a clone
	s.Crash()
	w.bootAt[a.i] = time.Now().Add(2 * time.Second)
	return &agent.CloneResponse{}, nil
}

// ---- background ----

// Start runs the background processes.
func (w *World) Start() {
	go func() {
		defer close(w.doneCh)
		n := 0
		for {
			select {
			case <-w.stopCh:
				return
			case <-time.After(50 * time.Millisecond):
			}
			w.Net.Mu.Lock()
			w.Net.Step()
			w.stepClients()
			w.Net.Mu.Unlock()
			if n%10 == 0 {
				w.stepKube()
			}
			n++
		}
	}()
}

// Start2 runs nothing in the background (static scenarios).
func (w *World) Start2() { close(w.doneCh) }

// Stop ends everything.
func (w *World) Stop() {
	close(w.stopCh)
	<-w.doneCh
	if w.Mgr != nil && !w.ctlDown {
		w.Mgr.StopAll()
	}
	w.Net.Close()
	w.crashWG.Wait()
}

func (w *World) stepKube() {
	now := time.Now()
	for i := 0; i < w.N; i++ {
		s := w.S[i]
		if t, ok := w.bootAt[i]; ok && !now.Before(t) {
			delete(w.bootAt, i)
			w.Net.Mu.Lock()
			if w.wipeOnBoot[i] {
				s.Wipe()
				delete(w.wipeOnBoot, i)
			}
			s.Boot()
			w.Net.Mu.Unlock()
		}
		if t, ok := w.term[i]; ok && !now.Before(t) {
			delete(w.term, i)
			delete(w.bootAt, i)
			w.Net.Mu.Lock()
			s.Crash()
			w.Net.Mu.Unlock()
			again(func() error {
				p := w.Pod(i)
				if p == nil {
					return nil
				}
				p.Finalizers = nil
				return w.C.Update(context.Background(), p)
			})
			if q := w.Pod(i); q != nil {
				must(client.IgnoreNotFound(w.C.Delete(context.Background(), q)))
			}
			w.gone[i] = now.Add(time.Second)
			continue
		}
		if t, ok := w.gone[i]; ok {
			if now.Before(t) {
				continue
			}
			delete(w.gone, i)
			w.createPod(i)
			w.bootAt[i] = now.Add(w.Cfg.BootDur)
			continue
		}
		if w.FreezeReady {
			continue
		}
		w.Net.Mu.Lock()
		ready := w.podReady(s)
		w.Net.Mu.Unlock()
		if ready != w.readyState[i] {
			w.readyState[i] = ready
			w.setReady(i, ready)
		}
	}
}

// PrimaryIdx is the recorded primary (Mu held or not).
func (w *World) PrimaryIdx() int { return w.primaryIdx }

// SetPrimary tells the oracles which primary the scenario recorded.
func (w *World) SetPrimary(i int) { w.primaryIdx = i }

// MarkDeleted makes the pod terminating without any further effect.
func (w *World) MarkDeleted(i int) {
	if p := w.Pod(i); p != nil && p.DeletionTimestamp == nil {
		must(client.IgnoreNotFound(w.C.Delete(context.Background(), p)))
	}
}

// Metric returns the value of a controller metric of this cluster.
func (w *World) Metric(name string) (float64, bool) {
	mfs, err := Registry.Gather()
	must(err)
	for _, mf := range mfs {
		if mf.GetName() != name {
			continue
		}
		for _, m := range mf.GetMetric() {
			l := map[string]string{}
			for _, x := range m.GetLabel() {
				l[x.GetName()] = x.GetValue()
			}
			if l["name"] != w.Cfg.Name || l["namespace"] != w.Cfg.NS {
				continue
			}
			switch {
			case m.Gauge != nil:
				return m.GetGauge().GetValue(), true
			case m.Counter != nil:
				return m.GetCounter().GetValue(), true
			case m.Histogram != nil:
				return float64(m.GetHistogram().GetSampleCount()), true
			}
		}
	}
	return 0, false
}

// SetReady sets the readiness of a pod (with FreezeReady).
func (w *World) SetReady(i int, ready bool) {
	w.readyState[i] = ready
	w.setReady(i, ready)
}

func (w *World) setReady(i int, ready bool) {
	again(func() error {
		p := w.Pod(i)
		if p == nil {
			return nil
		}
		for j := range p.Status.Conditions {
			if p.Status.Conditions[j].Type == corev1.PodReady {
				p.Status.Conditions[j].Status = corev1.ConditionFalse
				if ready {
					p.Status.Conditions[j].Status = corev1.ConditionTrue
				}
			}
		}
		return w.C.Status().Update(context.Background(), p)
	})
}

func (w *World) podReady(s *mysim.Server) bool {
	if !s.Up || s.Clone == "In Progress" {
		return false
	}
	if !s.ReadOnly {
		return true
	}
	if s.Src == nil || s.IOState() != "Yes" || !s.SQLRun {
		return false
	}
	if d, ok := s.SecondsBehind().(int64); ok && d > 60 {
		return false
	}
	return true
}

// CrashServer stops instance i and starts it again after d.
func (w *World) CrashServer(i int, d time.Duration) {
	w.Net.Mu.Lock()
	w.S[i].Crash()
	w.Net.Mu.Unlock()
	if _, ok := w.term[i]; ok {
		return
	}
	if _, ok := w.gone[i]; ok {
		return
	}
	w.bootAt[i] = time.Now().Add(d)
}

// DeletePod deletes the pod the way a user (or drain) does. It is refused while annotated.
func (w *World) DeletePod(i int) bool {
	p := w.Pod(i)
	if p == nil || p.DeletionTimestamp != nil {
		return false
	}
	if _, ok := p.Annotations[AnnPrevent]; ok {
		return false
	}
	must(client.IgnoreNotFound(w.C.Delete(context.Background(), p)))
	w.term[i] = time.Now().Add(20 * time.Second)
	w.wake()
	return true
}

// WipePod deletes pod and volume.
func (w *World) WipePod(i int) {
	p := w.Pod(i)
	if p == nil {
		return
	}
	if p.DeletionTimestamp == nil {
		must(client.IgnoreNotFound(w.C.Delete(context.Background(), p)))
	}
	w.term[i] = time.Now()
	w.wipeOnBoot[i] = true
	w.Notes["wipe"]++
	w.wake()
}

// KillPod removes the pod at once (node failure).
func (w *World) KillPod(i int) {
	p := w.Pod(i)
	if p == nil {
		return
	}
	if p.DeletionTimestamp == nil {
		must(client.IgnoreNotFound(w.C.Delete(context.Background(), p)))
	}
	w.term[i] = time.Now()
}

// Demote annotates the pod.
func (w *World) Demote(i int) {
	w.EditPod(i, func(p *corev1.Pod) {
		if p.Annotations == nil {
			p.Annotations = map[string]string{}
		}
		p.Annotations[AnnDemote] = "true"
	})
	w.wake()
}

// Wake triggers the controller.
func (w *World) Wake() { w.wake() }

// Note counts something for the evidence.
func (w *World) Note(s string) {
	w.Net.Mu.Lock()
	w.Notes[s]++
	w.Net.Mu.Unlock()
}

// ControllerDown tells whether the controller process is dead.
func (w *World) ControllerDown() bool {
	w.Net.Mu.Lock()
	defer w.Net.Mu.Unlock()
	return w.ctlDown
}

// Busy tells whether pods or instances are on their way down or up.
func (w *World) Busy() bool {
	w.Net.Mu.Lock()
	defer w.Net.Mu.Unlock()
	if len(w.term) > 0 || len(w.gone) > 0 || len(w.bootAt) > 0 {
		return true
	}
	for _, s := range w.S {
		if !s.Up || s.Clone == "In Progress" {
			return true
		}
	}
	return false
}

// Moving tells whether a pod is being replaced or an instance is about to start.
func (w *World) Moving() bool {
	if len(w.term) > 0 || len(w.gone) > 0 {
		return true
	}
	for _, t := range w.bootAt {
		if time.Until(t) < 5*time.Minute {
			return true
		}
	}
	return false
}

// Synced tells whether every instance has executed everything acknowledged.
func (w *World) Synced() bool {
	w.Net.Mu.Lock()
	defer w.Net.Mu.Unlock()
	for _, s := range w.S {
		if !s.Up || len(w.Missing(s)) > 0 {
			return false
		}
	}
	return true
}

// wake is what the pod watcher does.
func (w *World) wake() {
	if w.Mgr != nil && !w.ctlDown {
		w.Mgr.UpdateNoStart(w.Key, "watch")
	}
}

// Scale grows the cluster.
func (w *World) Scale(n int) {
	w.UpdateSpec(func(c *mocov1beta2.MySQLCluster) { c.Spec.Replicas = int32(n) })
	for i := w.N; i < n; i++ {
		w.Net.Mu.Lock()
		s := w.newServer(i)
		s.Crash()
		w.S = append(w.S, s)
		w.Net.Mu.Unlock()
		w.createPod(i)
		w.bootAt[i] = time.Now().Add(w.Cfg.BootDur)
	}
	w.N = n
	w.wake()
}

// ---- clients ----

// AddClient adds an application client.
func (w *World) AddClient(every time.Duration, sticky bool) *Client {
	c := &Client{W: w, User: "app", Every: every, Sticky: sticky, next: time.Now().Add(every)}
	w.Clients = append(w.Clients, c)
	return c
}

// endpoint is the instance behind the primary service (-1: none).  Mu held.
func (w *World) endpoint() int {
	for i := 0; i < w.N; i++ {
		p := w.Pod(i)
		if p == nil || p.Labels[RoleLabel] != "primary" || p.DeletionTimestamp != nil && !w.readyState[i] {
			continue
		}
		if w.readyState[i] {
			return i
		}
	}
	return -1
}

// Mu held
func (w *World) stepClients() {
	if w.NoClients {
		return
	}
	now := time.Now()
	for _, c := range w.Clients {
		if c.Stop {
			continue
		}
		if c.cur != nil {
			if !c.cur.Done && (c.conn == nil || !c.conn.Closed) && now.Sub(c.cur.Started) < 30*time.Second {
				continue
			}
			if !c.cur.Done && now.Sub(c.cur.Started) >= 30*time.Second && !c.Sticky && c.conn != nil {
				// the client gives up and reconnects
				c.close()
			}
			if !c.cur.Done && c.Sticky && c.conn != nil && !c.conn.Closed {
				continue
			}
			c.cur = nil
		}
		if c.longW {
			if c.conn == nil || c.conn.Closed {
				c.longW = false
			} else if now.Before(c.conn.BusyUntil) {
				continue
			} else {
				c.longW = false
				c.write()
				continue
			}
		}
		if now.Before(c.next) {
			continue
		}
		c.next = now.Add(c.Every)
		if c.conn == nil || c.conn.Closed || !c.conn.S.Up {
			c.conn = nil
			i := w.endpoint()
			if i < 0 {
				continue
			}
			c.conn = w.S[i].NewClient(c.User, "10.9.9.9:555")
			c.opened = now
			if c.conn == nil {
				continue
			}
		}
		if c.Long > 0 && !c.conn.S.ReadOnly {
			c.conn.BusyUntil = now.Add(c.Long)
			c.Long = 0
			c.longW = true
			continue
		}
		c.write()
	}
}

// OpenOn tells whether the client has an open connection to s, and since when (Mu held).
func (c *Client) OpenOn(s *mysim.Server) (time.Time, bool) {
	if c.conn == nil || c.conn.Closed || c.conn.S != s {
		return time.Time{}, false
	}
	return c.opened, true
}

func (c *Client) close() {
	if c.conn != nil {
		delete(c.conn.S.Conns, c.conn.ID)
		c.conn.Closed = true
		c.conn = nil
	}
}

func (c *Client) write() {
	wr := c.conn.S.ClientWrite(c.conn)
	c.W.Writes = append(c.W.Writes, wr)
	c.cur = wr
	if wr.Err != "" {
		c.W.Notes["write-refused"]++
		if !c.Sticky {
			c.close()
		}
	}
}

// Acked returns the rows acknowledged so far.
func (w *World) Acked() []int64 {
	var r []int64
	for _, x := range w.Writes {
		if x.Acked {
			r = append(r, x.Txn.Row)
		}
	}
	return r
}

// Missing returns the acknowledged rows a server lacks (Mu held).
func (w *World) Missing(s *mysim.Server) []int64 {
	var r []int64
	for _, x := range w.Writes {
		if x.Acked && !s.Rows[x.Txn.Row] {
			r = append(r, x.Txn.Row)
		}
	}
	return r
}

// ---- oracles ----

// Mu held
func (w *World) onEvent(e mysim.Event) {
	s := e.Server
	switch e.Kind {
	case "unknown-sql":
		if w.Unsupported == "" {
			w.Unsupported = e.Detail
		}
	case "writable":
		if s.Index < 0 {
			return
		}
		w.Notes["writable"]++
		w.onWritable(s)
		if w.OnWritable != nil {
			w.OnWritable(s)
		}
	case "ack":
		if s.Index < 0 {
			return
		}
		w.Notes["ack"]++
		if s.Index == w.primaryIdx {
			w.ackSince = true
		} else if w.ackSince {
			w.violate("C02", "instance %d acknowledged a client write although instance %d is the recorded primary and has acknowledged writes already", s.Index, w.primaryIdx)
		}
	}
}

func (w *World) onWritable(s *mysim.Server) {
	if s.Index != w.primaryIdx {
		w.violate("C02", "instance %d was made writable while instance %d is the recorded primary", s.Index, w.primaryIdx)
	}
	if w.Cfg.WithSource {
		cl := w.Cluster()
		if cl.Spec.ReplicationSourceSecretName != nil {
			w.violate("C02", "instance %d of a cluster that replicates from an external server was made writable", s.Index)
		}
	}
	if m := w.Missing(s); len(m) > 0 {
		w.violate("C01", "instance %d was made writable without acknowledged writes %v", s.Index, m)
	}
	// a restart within the same second cannot be noticed before SET read_only=0
	if w.N >= 3 && w.stableSince(s, time.Second) {
		if !s.SSMaster || s.SSWait != w.N/2 || s.SSTimeout < 3600*1000 {
			w.violate("C07", "instance %d was made writable with semi-sync enabled=%v wait=%d timeout=%dms (size %d)", s.Index, s.SSMaster, s.SSWait, s.SSTimeout, w.N)
		}
	}
	if s.IORunning {
		w.violate("C02", "instance %d was made writable while it is still receiving from %v", s.Index, s.Src)
	}
	// other reachable instances must be read-only
	errant := map[int]bool{}
	for _, i := range w.Cluster().Status.ErrantReplicaList {
		errant[i] = true
	}
	for _, o := range w.S {
		if o == s || !o.Up || o.SuperRO || errant[o.Index] || w.Net.CtrlCut[o.Name] || o.WaitSessions() > 0 {
			continue
		}
		if !w.stableSince(o, 180*time.Second) {
			continue
		}
		w.violate("C02", "instance %d was made writable while instance %d is writable, too", s.Index, o.Index)
	}
	// labels
	for i := range w.S {
		p := w.Pod(i)
		if p == nil {
			continue
		}
		if i != s.Index && p.Labels[RoleLabel] == "primary" {
			w.violate("C09", "instance %d was made writable while pod %d carries the primary label", s.Index, i)
		}
		if i == s.Index && p.Labels[RoleLabel] != "primary" && w.stableSince(s, 180*time.Second) {
			w.violate("C09", "instance %d was made writable before its pod carries the primary label", s.Index)
		}
	}
}

// stableSince: no crash/boot/cut of the server for d.
func (w *World) stableSince(s *mysim.Server, d time.Duration) bool {
	t, ok := w.lastDisturb(s)
	return !ok || time.Since(t) > d
}

func (w *World) lastDisturb(s *mysim.Server) (time.Time, bool) {
	for i := len(w.Net.Trace) - 1; i >= 0; i-- {
		e := w.Net.Trace[i]
		if e.Server == s && (e.Kind == "crash" || e.Kind == "boot" || e.Kind == "cut") {
			return e.At, true
		}
	}
	return time.Time{}, false
}

// NoteCut records a connectivity change of a server (Mu held).
func (w *World) NoteCut(s *mysim.Server) {
	w.Net.Trace = append(w.Net.Trace, mysim.Event{At: time.Now(), Kind: "cut", Server: s})
}

func (w *World) afterClusterWrite() {
	w.Net.Mu.Lock()
	defer w.Net.Mu.Unlock()
	cl := w.Cluster()
	if cl.Status.CurrentPrimaryIndex != w.primaryIdx {
		from, to := w.primaryIdx, cl.Status.CurrentPrimaryIndex
		w.primaryIdx = to
		w.primarySince = time.Now()
		w.ackSince = false
		w.Notes["primary-change"]++
		w.Net.Trace = append(w.Net.Trace, mysim.Event{At: time.Now(), Kind: "primary", Server: w.S[to], Detail: fmt.Sprintf("%d->%d", from, to)})
		if w.OnPromote != nil {
			w.OnPromote(from, to)
		}
	}
}

func (w *World) afterPodWrite(name string, byCtl bool) {
	w.Net.Mu.Lock()
	defer w.Net.Mu.Unlock()
	prim := 0
	for i := range w.S {
		p := w.Pod(i)
		if p == nil {
			continue
		}
		role := p.Labels[RoleLabel]
		if role == "primary" {
			prim++
		}
		if role == "" {
			if _, ok := w.noRoleSince[i]; !ok {
				w.noRoleSince[i] = time.Now()
			}
			continue
		}
		if p.Name != name {
			continue
		}
		if byCtl {
			if since, ok := w.noRoleSince[i]; ok {
				// the label was just added
				w.labelAdded(i, role, since)
			}
		}
		delete(w.noRoleSince, i)
	}
	if prim > 1 && byCtl {
		w.violate("C09", "%d pods carry the primary label", prim)
	}
}

func (w *World) labelAdded(i int, role string, since time.Time) {
	w.Notes["label-added"]++
	cl := w.Cluster()
	if role == "primary" && i != cl.Status.CurrentPrimaryIndex {
		w.violate("C09", "pod %d got the primary label but instance %d is the recorded primary", i, cl.Status.CurrentPrimaryIndex)
	}
	if role == "replica" && i == cl.Status.CurrentPrimaryIndex {
		w.violate("C09", "the pod of the recorded primary %d got the replica label", i)
	}
	for _, e := range cl.Status.ErrantReplicaList {
		if e == i {
			w.violate("C09", "pod %d got the %s label although it is recorded as errant", i, role)
			w.violate("C06", "pod %d got the %s label although it is recorded as errant", i, role)
		}
	}
	if !w.S[i].Up && w.downFor(w.S[i]) > 180*time.Second {
		w.violate("C09", "pod %d got the %s label although its instance is not running", i, role)
	}
	for _, c := range w.Clients {
		if c.conn != nil && !c.conn.Closed && c.conn.S == w.S[i] && c.opened.Before(since) {
			w.violate("C09", "pod %d got the %s label while a client connection from before its role change is still open", i, role)
		}
	}
}

func (w *World) downFor(s *mysim.Server) time.Duration {
	t, ok := w.lastDisturb(s)
	if !ok {
		return time.Since(w.started)
	}
	return time.Since(t)
}

func (w *World) onClone(c CloneCall) {
	if c.Executed != "" {
		w.violate("C08", "instance %d was told to clone although it has data %s", c.Index, c.Executed)
	}
}

// Dump formats the trace for failure messages.
func (w *World) Dump(max int) string {
	w.Net.Mu.Lock()
	defer w.Net.Mu.Unlock()
	var b strings.Builder
	tr := w.Net.Trace
	if len(tr) > max {
		tr = tr[len(tr)-max:]
	}
	for _, e := range tr {
		n := "?"
		if e.Server != nil {
			n = e.Server.Name
		}
		fmt.Fprintf(&b, "%8.2fs %-10s %-14s %s\n", e.At.Sub(w.started).Seconds(), n, e.Kind, strings.ReplaceAll(e.Detail, "\n", ""))
	}
	ev := w.Events
	if len(ev) > 10 {
		ev = ev[len(ev)-10:]
	}
	fmt.Fprintf(&b, "events: %q\n", ev)
	for _, s := range w.S {
		fmt.Fprintf(&b, "instance %d up=%v ro=%v/%v exec=%s retr=%s src=%v io=%s sql=%v ss=%v/%d slave=%v pend=%d clone=%s\n", s.Index, s.Up, s.ReadOnly, s.SuperRO,
			strings.ReplaceAll(s.Executed.String(), "\n", ""), strings.ReplaceAll(s.Retrieved.String(), "\n", ""), s.Src, s.IOState(), s.SQLRun, s.SSMaster, s.SSWait, s.SSSlave, len(s.Pending), s.Clone)
	}
	return b.String()
}

// SortedNotes lists the notes.
func (w *World) SortedNotes() []string {
	var r []string
	for k := range w.Notes {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = rand.Int
var _ = constants.RolePrimary
