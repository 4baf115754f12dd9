// Package adm checks the admission webhooks through their HTTP handlers.
package adm

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	jsonpatch "github.com/evanphx/json-patch/v5"
	"github.com/go-logr/logr"
	admissionv1 "k8s.io/api/admission/v1"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	storagev1 "k8s.io/api/storage/v1"
	"k8s.io/apimachinery/pkg/api/equality"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/types"
	corev1ac "k8s.io/client-go/applyconfigurations/core/v1"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"k8s.io/client-go/rest"
	"pgregory.net/rapid"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/manager"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"
	"sigs.k8s.io/controller-runtime/pkg/webhook"

	"verif/internal/vt"
)

// mgr is a manager that never starts; its API reader is replaced per case.
type mgr struct {
	manager.Manager
	c client.Client
}

// reader forwards to the client of the current case.
type reader struct{ m *mgr }

func (r reader) Get(ctx context.Context, k client.ObjectKey, o client.Object, opts ...client.GetOption) error {
	return r.m.c.Get(ctx, k, o, opts...)
}
func (r reader) List(ctx context.Context, l client.ObjectList, opts ...client.ListOption) error {
	return r.m.c.List(ctx, l, opts...)
}

type delegating struct {
	client.Client // of the first case; reads are forwarded
	m             *mgr
}

func (d delegating) Get(ctx context.Context, k client.ObjectKey, o client.Object, opts ...client.GetOption) error {
	return d.m.c.Get(ctx, k, o, opts...)
}
func (d delegating) List(ctx context.Context, l client.ObjectList, opts ...client.ListOption) error {
	return d.m.c.List(ctx, l, opts...)
}

func (m *mgr) GetAPIReader() client.Reader { return reader{m} }
func (m *mgr) GetClient() client.Client    { return delegating{m.c, m} }

var (
	once    sync.Once
	scheme  = runtime.NewScheme()
	theMgr  *mgr
	handler http.Handler
)

func setup(t *testing.T) {
	once.Do(func() {
		ctrl.SetLogger(logr.Discard())
		if err := clientgoscheme.AddToScheme(scheme); err != nil {
			t.Fatal(err)
		}
		if err := mocov1beta2.AddToScheme(scheme); err != nil {
			t.Fatal(err)
		}
		srv := webhook.NewServer(webhook.Options{})
		real, err := manager.New(&rest.Config{Host: "http://127.0.0.1:1"}, manager.Options{Scheme: scheme, WebhookServer: srv, Metrics: metricsserver.Options{BindAddress: "0"}, HealthProbeBindAddress: "0"})
		if err != nil {
			t.Fatal(err)
		}
		theMgr = &mgr{Manager: real, c: fake.NewClientBuilder().WithScheme(scheme).Build()}
		if err := (&mocov1beta2.MySQLCluster{}).SetupWebhookWithManager(theMgr); err != nil {
			t.Fatal(err)
		}
		if err := (&mocov1beta2.BackupPolicy{}).SetupWebhookWithManager(theMgr); err != nil {
			t.Fatal(err)
		}
		if err := mocov1beta2.SetupStatefulSetWebhookWithManager(theMgr); err != nil {
			t.Fatal(err)
		}
		handler = srv.WebhookMux()
	})
}

func raw(o any) runtime.RawExtension {
	if o == nil || reflect.ValueOf(o).IsNil() {
		return runtime.RawExtension{}
	}
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	return runtime.RawExtension{Raw: b}
}

func review(path string, op admissionv1.Operation, gvk metav1.GroupVersionKind, res string, ns, name string, obj, old any) (*admissionv1.AdmissionResponse, error) {
	ar := admissionv1.AdmissionReview{TypeMeta: metav1.TypeMeta{APIVersion: "admission.k8s.io/v1", Kind: "AdmissionReview"}, Request: &admissionv1.AdmissionRequest{
		UID: types.UID("u1"), Kind: gvk, Resource: metav1.GroupVersionResource{Group: gvk.Group, Version: gvk.Version, Resource: res}, Namespace: ns, Name: name, Operation: op,
		Object: raw(obj), OldObject: raw(old)}}
	body, err := json.Marshal(ar)
	if err != nil {
		return nil, err
	}
	req := httptest.NewRequest("POST", path, bytes.NewReader(body))
	req.Header.Set("Content-Type", "application/json")
	rec := httptest.NewRecorder()
	handler.ServeHTTP(rec, req)
	var out admissionv1.AdmissionReview
	if rec.Code != 200 {
		return nil, fmt.Errorf("%w: webhook %s answers %d", vt.ErrInconclusive, path, rec.Code)
	}
	if err := json.Unmarshal(rec.Body.Bytes(), &out); err != nil {
		return nil, err
	}
	if out.Response == nil {
		return nil, fmt.Errorf("no response from %s", path)
	}
	return out.Response, nil
}

// ---- W01 ----

// VCT is a volume claim template.
type VCT struct {
	Name  string  `json:"name"`
	Size  string  `json:"size"` // "" = no storage request, "-" = no resources, "0"
	Class *string `json:"class,omitempty"`
}

// Cont is a container of the pod template.
type Cont struct {
	Name  *string `json:"name,omitempty"`
	Ports []Port  `json:"ports,omitempty"`
}

// Port is a container port.
type Port struct {
	Name *string `json:"name,omitempty"`
	Num  *int32  `json:"num,omitempty"`
}

// Spec is the generated part of a MySQLCluster.
type Spec struct {
	Name       string    `json:"name"`
	Replicas   int32     `json:"replicas"`
	Base       int32     `json:"base"`
	VCTs       []VCT     `json:"vcts"`
	Containers []Cont    `json:"containers"`
	Inits      []Cont    `json:"inits"`
	Volumes    []*string `json:"volumes"`
	Schedule   string    `json:"schedule"`
	Size       int       `json:"size"`
	NoSlow     bool      `json:"noSlow"`
	Collectors []string  `json:"collectors"`
	Source     *string   `json:"source,omitempty"`
	Restore    *int      `json:"restore,omitempty"` // variant
	Finalizers []string  `json:"finalizers,omitempty"`
	Offline    bool      `json:"offline,omitempty"`
}

// Class is a StorageClass.
type Class struct {
	Name    string `json:"name"`
	Allow   *bool  `json:"allow,omitempty"`
	Default string `json:"default,omitempty"` // annotation key suffix: "ga", "beta", "false"
}

// ClusterPlan is a request about a MySQLCluster.
type ClusterPlan struct {
	Op      string  `json:"op"` // create, update, delete, default
	New     Spec    `json:"new"`
	Old     *Spec   `json:"old,omitempty"`
	Classes []Class `json:"classes"`
}

func sp(s string) *string { return &s }

var schedules = map[string]bool{"": true, "*/5 * * * *": true, "@daily": true, "@every 30s": true, "0 0 1 1 *": true, "TZ=Asia/Tokyo 0 3 * * *": true, "1-5 */2 * JAN-MAR MON": true,
	"hoge": false, "* * * *": false, "* * * * * *": false, "61 * * * *": false, "0 24 * * *": false, "@every": false, "0 0 0 1 *": false, "5-1 * * * *": false}
var scheduleList []string

func init() {
	for _, s := range []string{"", "*/5 * * * *", "@daily", "@every 30s", "0 0 1 1 *", "TZ=Asia/Tokyo 0 3 * * *", "1-5 */2 * JAN-MAR MON", "hoge", "* * * *", "* * * * * *", "61 * * * *", "0 24 * * *", "@every", "0 0 0 1 *", "5-1 * * * *"} {
		scheduleList = append(scheduleList, s)
	}
}

var sizes = []string{"1Gi", "2Gi", "1024Mi", "10Gi", "1073741824", "500M"}

func rare(t *rapid.T, label string, n int) bool { return rapid.IntRange(0, n).Draw(t, label) == n }

func genSpec(t *rapid.T, bad int) Spec {
	s := Spec{Name: "test", Replicas: rapid.SampledFrom([]int32{1, 3, 3, 5, 7}).Draw(t, "replicas"), Base: rapid.SampledFrom([]int32{1, 100, 2147483000}).Draw(t, "base")}
	if rare(t, "longname", 4*bad) {
		s.Name = strings.Repeat("a", rapid.SampledFrom([]int{39, 40, 41, 42, 60}).Draw(t, "namelen"))
	}
	if rare(t, "badrep", 3*bad) {
		s.Replicas = rapid.SampledFrom([]int32{0, 2, 4, -1, -3, -2, 100}).Draw(t, "br")
	}
	if rare(t, "badbase", 4*bad) {
		s.Base = rapid.SampledFrom([]int32{0, -1, -100}).Draw(t, "bb")
	}
	vct := func(name string) VCT {
		v := VCT{Name: name, Size: rapid.SampledFrom(sizes).Draw(t, "size")}
		if rare(t, "nosize", 6*bad) {
			v.Size = rapid.SampledFrom([]string{"", "-", "other"}).Draw(t, "ns")
		}
		if rapid.Bool().Draw(t, "hasClass") {
			v.Class = sp(rapid.SampledFrom([]string{"fast", "slow", "nil", "none"}).Draw(t, "class"))
		}
		return v
	}
	if !rare(t, "nodata", 4*bad) {
		s.VCTs = append(s.VCTs, vct("mysql-data"))
	}
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "nvct"); i < n; i++ {
		s.VCTs = append(s.VCTs, vct([]string{"extra", "mysql-data2"}[i]))
	}
	port := func() Port {
		var p Port
		if rare(t, "resport", 3*bad) {
			p.Num = ptr(rapid.SampledFrom([]int32{3306, 33060, 33062, 9081}).Draw(t, "rp"))
		} else if rapid.Bool().Draw(t, "num") {
			p.Num = ptr(rapid.SampledFrom([]int32{80, 9080, 8080, 33061, 3307, 9104}).Draw(t, "p"))
		}
		if rare(t, "respn", 3*bad) {
			p.Name = sp(rapid.SampledFrom([]string{"mysql", "mysqlx", "mysql-admin", "health"}).Draw(t, "rn"))
		} else if rapid.Bool().Draw(t, "hasName") {
			p.Name = sp(rapid.SampledFrom([]string{"http", "mysql-x", "agent", "healthz"}).Draw(t, "pn"))
		}
		return p
	}
	ports := func() (r []Port) {
		for i := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "np"); i > 0; i-- {
			r = append(r, port())
		}
		return
	}
	var names []string
	if !rare(t, "nomysqld", 4*bad) {
		names = append(names, "mysqld")
	}
	for _, n := range []string{"sidecar", "agent2", "mysql", "copy-moco-init", "moco-init"} {
		if rare(t, "c-"+n, 5) {
			names = append(names, n)
		}
	}
	for _, n := range []string{"agent", "slow-log", "mysqld-exporter"} {
		if rare(t, "r-"+n, 3*bad) {
			names = append(names, n)
		}
	}
	if len(names) > 1 {
		names = rapid.Permutation(names).Draw(t, "order")
	}
	for _, n := range names {
		s.Containers = append(s.Containers, Cont{Name: sp(n), Ports: ports()})
	}
	if rare(t, "noname", 6*bad) {
		s.Containers = append(s.Containers, Cont{Ports: ports()})
	}
	for _, n := range []string{"init1", "agent", "mysqld"} {
		if rare(t, "i-"+n, 5) {
			s.Inits = append(s.Inits, Cont{Name: sp(n)})
		}
	}
	if rare(t, "resinit", 3*bad) {
		s.Inits = append(s.Inits, Cont{Name: sp(rapid.SampledFrom([]string{"moco-init", "copy-moco-init"}).Draw(t, "ri"))})
	}
	if rare(t, "noiname", 6*bad) {
		s.Inits = append(s.Inits, Cont{})
	}
	for _, n := range []string{"myvol", "tmp2", "my-conf"} {
		if rare(t, "v-"+n, 4) {
			s.Volumes = append(s.Volumes, sp(n))
		}
	}
	if rare(t, "resvol", 2*bad) {
		s.Volumes = append(s.Volumes, sp(rapid.SampledFrom([]string{"tmp", "run", "var-log", "mysql-conf", "mysql-conf-d", "my-cnf-secret", "slow-fluent-bit-config", "grpc-cert", "shared"}).Draw(t, "rv")))
	}
	if rare(t, "nilvol", 8) {
		s.Volumes = append(s.Volumes, nil)
	}
	if rare(t, "sched", 2) {
		s.Schedule = rapid.SampledFrom(scheduleList).Draw(t, "schedule")
	}
	s.Size = rapid.SampledFrom([]int{0, 0, 0, 1, 1 << 20}).Draw(t, "lsize")
	if rare(t, "negsize", 5*bad) {
		s.Size = -rapid.IntRange(1, 5).Draw(t, "neg")
	}
	s.NoSlow = rapid.Bool().Draw(t, "noslow")
	if rapid.Bool().Draw(t, "coll") {
		s.Collectors = []string{"engine_innodb_status"}
	}
	if rapid.IntRange(0, 2).Draw(t, "src") == 0 {
		s.Source = sp(rapid.SampledFrom([]string{"s1", "s2"}).Draw(t, "source"))
	}
	if rapid.IntRange(0, 2).Draw(t, "hasRestore") == 0 {
		s.Restore = ptr(rapid.IntRange(0, 2).Draw(t, "restore"))
	}
	if rapid.IntRange(0, 3).Draw(t, "fin") == 0 {
		s.Finalizers = rapid.SampledFrom([][]string{{"x/y"}, {"moco.cybozu.com/mysqlcluster"}, {"x/y", "moco.cybozu.com/mysqlcluster"}}).Draw(t, "finalizers")
	}
	s.Offline = rapid.Bool().Draw(t, "offline")
	return s
}

func ptr[T any](v T) *T { return &v }

func genCluster(t *rapid.T) ClusterPlan {
	var p ClusterPlan
	p.Op = rapid.SampledFrom([]string{"create", "create", "update", "update", "update", "default", "delete"}).Draw(t, "op")
	bad := rapid.SampledFrom([]int{2, 8, 8, 1000}).Draw(t, "bad")
	p.New = genSpec(t, bad)
	if p.Op == "default" && rapid.Bool().Draw(t, "zero") {
		p.New.Base = 0
	}
	if p.Op == "update" {
		// the old object was admitted before; the new one is a mutation of it
		var old Spec
		if rapid.IntRange(0, 3).Draw(t, "indep") == 0 {
			old = genSpec(t, 1000)
		} else {
			b, _ := json.Marshal(p.New)
			_ = json.Unmarshal(b, &old)
			if rapid.IntRange(0, 2).Draw(t, "mrep") == 0 {
				old.Replicas = rapid.SampledFrom([]int32{1, 3, 5, 7}).Draw(t, "orep")
			}
			if rapid.IntRange(0, 1).Draw(t, "msize") == 0 {
				for i := range old.VCTs {
					old.VCTs[i].Size = rapid.SampledFrom(sizes).Draw(t, "osize")
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "mclass") == 0 && len(old.VCTs) > 0 {
				old.VCTs[0].Class = sp("slow")
			}
			if rapid.IntRange(0, 2).Draw(t, "msrc") == 0 {
				old.Source = rapid.SampledFrom([]*string{nil, sp("s1"), sp("s2")}).Draw(t, "osrc")
			}
			if rapid.IntRange(0, 2).Draw(t, "mrest") == 0 {
				old.Restore = rapid.SampledFrom([]*int{nil, ptr(0), ptr(1)}).Draw(t, "orest")
			}
			if rapid.IntRange(0, 3).Draw(t, "mvct") == 0 && len(old.VCTs) > 1 {
				old.VCTs = old.VCTs[1:]
			}
		}
		p.Old = &old
	}
	for _, n := range []string{"fast", "slow", "nil"} {
		if rare(t, "missing", 7) {
			continue
		}
		c := Class{Name: n}
		switch n {
		case "fast":
			c.Allow = ptr(true)
		case "slow":
			c.Allow = ptr(false)
		}
		p.Classes = append(p.Classes, c)
	}
	if d := rapid.IntRange(0, 4).Draw(t, "defClass"); d < len(p.Classes) {
		p.Classes[d].Default = rapid.SampledFrom([]string{"ga", "beta", "false"}).Draw(t, "def")
	}
	return p
}

func (s Spec) build() *mocov1beta2.MySQLCluster {
	c := &mocov1beta2.MySQLCluster{TypeMeta: metav1.TypeMeta{APIVersion: mocov1beta2.GroupVersion.String(), Kind: "MySQLCluster"}, ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: s.Name, Finalizers: s.Finalizers}}
	sp := &c.Spec
	sp.Replicas, sp.ServerIDBase, sp.LogRotationSchedule, sp.LogRotationSize = s.Replicas, s.Base, s.Schedule, s.Size
	sp.DisableSlowQueryLogContainer, sp.Collectors, sp.ReplicationSourceSecretName, sp.Offline = s.NoSlow, s.Collectors, s.Source, s.Offline
	for _, v := range s.VCTs {
		pvc := mocov1beta2.PersistentVolumeClaim{ObjectMeta: mocov1beta2.ObjectMeta{Name: v.Name}}
		switch v.Size {
		case "-":
		case "":
			pvc.Spec.Resources = corev1ac.VolumeResourceRequirements()
		case "other":
			pvc.Spec.Resources = corev1ac.VolumeResourceRequirements().WithRequests(corev1.ResourceList{"example.com/x": resource.MustParse("1")})
		default:
			pvc.Spec.Resources = corev1ac.VolumeResourceRequirements().WithRequests(corev1.ResourceList{corev1.ResourceStorage: resource.MustParse(v.Size)})
		}
		pvc.Spec.StorageClassName = v.Class
		sp.VolumeClaimTemplates = append(sp.VolumeClaimTemplates, pvc)
	}
	conts := func(cs []Cont) (r []corev1ac.ContainerApplyConfiguration) {
		for _, x := range cs {
			a := corev1ac.ContainerApplyConfiguration{Name: x.Name, Image: ptr("img")}
			for _, p := range x.Ports {
				a.Ports = append(a.Ports, corev1ac.ContainerPortApplyConfiguration{Name: p.Name, ContainerPort: p.Num})
			}
			r = append(r, a)
		}
		return
	}
	sp.PodTemplate.Spec.Containers = conts(s.Containers)
	sp.PodTemplate.Spec.InitContainers = conts(s.Inits)
	for _, v := range s.Volumes {
		sp.PodTemplate.Spec.Volumes = append(sp.PodTemplate.Spec.Volumes, corev1ac.VolumeApplyConfiguration{Name: v})
	}
	if s.Restore != nil {
		r := &mocov1beta2.RestoreSpec{SourceName: "src", SourceNamespace: "ns", RestorePoint: metav1.Unix(1700000000+int64(*s.Restore), 0)}
		if *s.Restore == 2 {
			r.RestorePoint = metav1.Unix(1700000000, 0)
			r.Schema = "db"
		}
		sp.Restore = r
	}
	return c
}

var (
	resVolumes = map[string]bool{"tmp": true, "run": true, "var-log": true, "mysql-conf": true, "mysql-conf-d": true, "my-cnf-secret": true, "slow-fluent-bit-config": true, "grpc-cert": true, "shared": true}
	resPorts   = map[int32]bool{3306: true, 33060: true, 33062: true, 9081: true}
	resPortN   = map[string]bool{"mysql": true, "mysqlx": true, "mysql-admin": true, "health": true}
)

// faults lists the rules an object violates.
func (s Spec) faults() (r []string) {
	add := func(f string, a ...any) { r = append(r, fmt.Sprintf(f, a...)) }
	data := false
	for _, v := range s.VCTs {
		if v.Name == "mysql-data" {
			data = true
		}
		if v.Size == "" || v.Size == "-" || v.Size == "other" {
			add("claim template %s has no storage request", v.Name)
		}
	}
	if !data {
		add("no mysql-data claim template")
	}
	if s.Base <= 0 {
		add("server id base %d", s.Base)
	}
	if ok, known := schedules[s.Schedule]; known && !ok {
		add("schedule %q", s.Schedule)
	}
	if s.Size < 0 {
		add("log rotation size")
	}
	if s.Replicas <= 0 || s.Replicas%2 == 0 {
		add("replicas %d", s.Replicas)
	}
	mysqld := false
	for _, c := range s.Containers {
		if c.Name == nil {
			add("container without name")
			continue
		}
		switch *c.Name {
		case "mysqld":
			mysqld = true
			for _, p := range c.Ports {
				if p.Num != nil && resPorts[*p.Num] {
					add("reserved port %d", *p.Num)
				}
				if p.Name != nil && resPortN[*p.Name] {
					add("reserved port name %s", *p.Name)
				}
			}
		case "agent":
			add("container agent")
		case "slow-log":
			if !s.NoSlow {
				add("container slow-log")
			}
		case "mysqld-exporter":
			if len(s.Collectors) > 0 {
				add("container mysqld-exporter")
			}
		}
	}
	if !mysqld {
		add("no mysqld container")
	}
	for _, c := range s.Inits {
		if c.Name == nil {
			add("init container without name")
		} else if *c.Name == "moco-init" || *c.Name == "copy-moco-init" {
			add("init container %s", *c.Name)
		}
	}
	for _, v := range s.Volumes {
		if v != nil && resVolumes[*v] {
			add("volume %s", *v)
		}
	}
	return r
}

func (p ClusterPlan) updateFaults() (r []string) {
	add := func(f string, a ...any) { r = append(r, fmt.Sprintf(f, a...)) }
	n, o := p.New, *p.Old
	if n.Replicas < o.Replicas {
		add("replicas decreased")
	}
	if n.Source != nil && (o.Source == nil || *o.Source != *n.Source) {
		add("replication source changed")
	}
	if (n.Restore == nil) != (o.Restore == nil) || n.Restore != nil && *n.Restore != *o.Restore {
		add("restore changed")
	}
	size := func(v VCT) resource.Quantity {
		if v.Size == "" || v.Size == "-" || v.Size == "other" {
			return resource.Quantity{}
		}
		return resource.MustParse(v.Size)
	}
	for _, v := range n.VCTs {
		for _, w := range o.VCTs {
			if v.Name != w.Name {
				continue
			}
			a, b := size(v), size(w)
			if a.Cmp(b) <= 0 {
				continue
			}
			allowed := false
			for _, c := range p.Classes {
				if v.Class != nil && c.Name == *v.Class || v.Class == nil && (c.Default == "ga" || c.Default == "beta") {
					allowed = c.Allow != nil && *c.Allow
				}
			}
			if !allowed {
				add("volume %s grows without expandable storage class", v.Name)
			}
		}
	}
	return r
}

var clusterGVK = metav1.GroupVersionKind{Group: "moco.cybozu.com", Version: "v1beta2", Kind: "MySQLCluster"}

const (
	clusterValidate = "/validate-moco-cybozu-com-v1beta2-mysqlcluster"
	clusterMutate   = "/mutate-moco-cybozu-com-v1beta2-mysqlcluster"
	policyValidate  = "/validate-moco-cybozu-com-v1beta2-backuppolicy"
	stsMutate       = "/mutate-apps-v1-statefulset"
)

func runCluster(t *testing.T, p ClusterPlan) (c vt.Case, err error) {
	setup(t)
	var objs []client.Object
	for _, sc := range p.Classes {
		x := &storagev1.StorageClass{ObjectMeta: metav1.ObjectMeta{Name: sc.Name}, AllowVolumeExpansion: sc.Allow}
		switch sc.Default {
		case "ga":
			x.Annotations = map[string]string{"storageclass.kubernetes.io/is-default-class": "true"}
		case "beta":
			x.Annotations = map[string]string{"storageclass.beta.kubernetes.io/is-default-class": "true"}
		case "false":
			x.Annotations = map[string]string{"storageclass.kubernetes.io/is-default-class": "false"}
		}
		objs = append(objs, x)
	}
	theMgr.c = fake.NewClientBuilder().WithScheme(scheme).WithObjects(objs...).Build()
	obj := p.New.build()
	c.Classes = []string{p.Op}
	switch p.Op {
	case "default":
		resp, err := review(clusterMutate, admissionv1.Create, clusterGVK, "mysqlclusters", "ns", obj.Name, obj, (*mocov1beta2.MySQLCluster)(nil))
		if err != nil {
			return c, err
		}
		if !resp.Allowed {
			return c, fmt.Errorf("defaulting refused: %v", resp.Result)
		}
		got := obj.DeepCopy()
		if err := applyPatch(obj, got, resp.Patch); err != nil {
			return c, err
		}
		c.Nontrivial = true
		has := false
		for _, f := range got.Finalizers {
			has = has || f == "moco.cybozu.com/mysqlcluster"
		}
		if !has {
			return c, fmt.Errorf("defaulting does not add the finalizer: %v", got.Finalizers)
		}
		var rest []string
		for _, f := range got.Finalizers {
			if f != "moco.cybozu.com/mysqlcluster" {
				rest = append(rest, f)
			}
		}
		var want []string
		for _, f := range p.New.Finalizers {
			if f != "moco.cybozu.com/mysqlcluster" {
				want = append(want, f)
			}
		}
		if fmt.Sprint(rest) != fmt.Sprint(want) || len(got.Finalizers) != len(want)+1 {
			return c, fmt.Errorf("defaulting changes finalizers %v to %v", p.New.Finalizers, got.Finalizers)
		}
		if p.New.Base == 0 {
			if got.Spec.ServerIDBase <= 0 || got.Spec.ServerIDBase > 2147483647-1000 {
				return c, fmt.Errorf("generated server id base %d", got.Spec.ServerIDBase)
			}
			got.Spec.ServerIDBase = 0
		}
		got.Finalizers = obj.Finalizers
		if !equality.Semantic.DeepEqual(got, obj) {
			return c, fmt.Errorf("defaulting changes more than the server id base and the finalizer: %s", resp.Patch)
		}
		return c, nil
	case "delete":
		resp, err := review(clusterValidate, admissionv1.Delete, clusterGVK, "mysqlclusters", "ns", obj.Name, (*mocov1beta2.MySQLCluster)(nil), obj)
		if err != nil {
			return c, err
		}
		if !resp.Allowed {
			return c, fmt.Errorf("deletion refused: %v", resp.Result)
		}
		return c, nil
	}
	faults := p.New.faults()
	op := admissionv1.Create
	var old *mocov1beta2.MySQLCluster
	if p.Op == "create" {
		if len(p.New.Name) > 40 {
			faults = append(faults, "name too long")
		}
	} else {
		op = admissionv1.Update
		old = p.Old.build()
		faults = append(faults, p.updateFaults()...)
	}
	resp, err := review(clusterValidate, op, clusterGVK, "mysqlclusters", "ns", obj.Name, obj, old)
	if err != nil {
		return c, err
	}
	c.Nontrivial = true
	c.Classes = append(c.Classes, fmt.Sprintf("faults-%d", min(len(faults), 3)))
	if resp.Allowed && len(faults) > 0 {
		return c, fmt.Errorf("%s admitted although: %s", p.Op, strings.Join(faults, "; "))
	}
	if !resp.Allowed && len(faults) == 0 {
		return c, fmt.Errorf("valid %s refused: %v", p.Op, resp.Result)
	}
	return c, nil
}

// applyPatch applies the patch of a response to the JSON form of obj.
func applyPatch(obj, into any, patch []byte) error {
	b, err := json.Marshal(obj)
	if err != nil {
		return err
	}
	if len(patch) > 0 {
		pt, err := jsonpatch.DecodePatch(patch)
		if err != nil {
			return fmt.Errorf("bad patch: %w", err)
		}
		if b, err = pt.Apply(b); err != nil {
			return fmt.Errorf("patch does not apply: %w", err)
		}
	}
	v := reflect.New(reflect.TypeOf(into).Elem())
	if err := json.Unmarshal(b, v.Interface()); err != nil {
		return err
	}
	reflect.ValueOf(into).Elem().Set(v.Elem())
	return nil
}

func TestW01(t *testing.T) { vt.Run(t, "W01", genCluster, runCluster) }

// ---- W02 ----

// Ref is a cluster and the policy it refers to.
type Ref struct {
	NS     string  `json:"ns"`
	Name   string  `json:"name"`
	Policy *string `json:"policy,omitempty"`
}

// PolicyPlan is a request about a BackupPolicy.
type PolicyPlan struct {
	Op       string  `json:"op"`
	NS       string  `json:"ns"`
	Name     string  `json:"name"`
	Schedule string  `json:"schedule"`
	OldSched string  `json:"oldSched"`
	TZ       *string `json:"tz,omitempty"`
	Threads  int     `json:"threads"`
	Refs     []Ref   `json:"refs"`
}

func genPolicy(t *rapid.T) PolicyPlan {
	nss := []string{"a", "b", "ab"}
	names := []string{"daily", "dail", "daily2", "a"}
	p := PolicyPlan{Op: rapid.SampledFrom([]string{"create", "update", "delete", "delete"}).Draw(t, "op"), NS: rapid.SampledFrom(nss).Draw(t, "ns"), Name: rapid.SampledFrom(names).Draw(t, "name"),
		Schedule: rapid.SampledFrom(scheduleList).Draw(t, "schedule"), OldSched: rapid.SampledFrom(scheduleList).Draw(t, "oldSched"), Threads: rapid.IntRange(1, 5).Draw(t, "threads")}
	if rapid.Bool().Draw(t, "hasTZ") {
		p.TZ = sp("Etc/UTC")
	}
	for i := rapid.IntRange(0, 6).Draw(t, "nrefs"); i > 0; i-- {
		r := Ref{NS: rapid.SampledFrom(nss).Draw(t, "rns"), Name: fmt.Sprintf("c%d", i)}
		if rapid.IntRange(0, 3).Draw(t, "ref") > 0 {
			r.Policy = sp(rapid.SampledFrom(names).Draw(t, "rp"))
		}
		p.Refs = append(p.Refs, r)
	}
	return p
}

func (p PolicyPlan) build(sched string) *mocov1beta2.BackupPolicy {
	b := &mocov1beta2.BackupPolicy{TypeMeta: metav1.TypeMeta{APIVersion: mocov1beta2.GroupVersion.String(), Kind: "BackupPolicy"}, ObjectMeta: metav1.ObjectMeta{Namespace: p.NS, Name: p.Name}}
	b.Spec.Schedule, b.Spec.TimeZone = sched, p.TZ
	b.Spec.ConcurrencyPolicy = batchv1.ForbidConcurrent
	b.Spec.JobConfig = mocov1beta2.JobConfig{ServiceAccountName: "sa", Threads: p.Threads, BucketConfig: mocov1beta2.BucketConfig{BucketName: "b"}}
	b.Spec.JobConfig.WorkVolume.EmptyDir = corev1ac.EmptyDirVolumeSource()
	return b
}

func runPolicy(t *testing.T, p PolicyPlan) (c vt.Case, err error) {
	setup(t)
	var objs []client.Object
	want := true
	for _, r := range p.Refs {
		x := Spec{Name: r.Name, Replicas: 1}.build()
		x.Namespace = r.NS
		x.Spec.BackupPolicyName = r.Policy
		objs = append(objs, x)
		if p.Op == "delete" && r.NS == p.NS && r.Policy != nil && *r.Policy == p.Name {
			want = false
		}
	}
	theMgr.c = fake.NewClientBuilder().WithScheme(scheme).WithObjects(objs...).Build()
	gvk := metav1.GroupVersionKind{Group: "moco.cybozu.com", Version: "v1beta2", Kind: "BackupPolicy"}
	n, o := p.build(p.Schedule), p.build(p.OldSched)
	var none *mocov1beta2.BackupPolicy
	var resp *admissionv1.AdmissionResponse
	valid := schedules[p.Schedule] && p.Schedule != ""
	switch p.Op {
	case "create":
		resp, err = review(policyValidate, admissionv1.Create, gvk, "backuppolicies", p.NS, p.Name, n, none)
		want = valid
	case "update":
		resp, err = review(policyValidate, admissionv1.Update, gvk, "backuppolicies", p.NS, p.Name, n, o)
		want = valid
	case "delete":
		resp, err = review(policyValidate, admissionv1.Delete, gvk, "backuppolicies", p.NS, p.Name, none, o)
	}
	if err != nil {
		return c, err
	}
	c.Classes = []string{fmt.Sprintf("%s-%v", p.Op, want)}
	c.Nontrivial = p.Op != "delete" || len(p.Refs) > 0
	if resp.Allowed != want {
		return c, fmt.Errorf("%s of policy %s/%s with schedule %q: allowed=%v, expected %v (%v)", p.Op, p.NS, p.Name, p.Schedule, resp.Allowed, want, resp.Result)
	}
	return c, nil
}

func TestW02(t *testing.T) { vt.Run(t, "W02", genPolicy, runPolicy) }

// ---- W03 ----

// STS is the generated part of a StatefulSet.
type STS struct {
	Replicas  int32             `json:"replicas"`
	Partition *int32            `json:"partition,omitempty"`
	NoRU      bool              `json:"noRU,omitempty"` // rollingUpdate absent
	Image     string            `json:"image"`
	Grace     int64             `json:"grace"`
	Labels    map[string]string `json:"labels,omitempty"`
	Anns      map[string]string `json:"anns,omitempty"`
	TAnns     map[string]string `json:"tanns,omitempty"` // pod template annotations
	Min       int32             `json:"min,omitempty"`
	Retention bool              `json:"retention,omitempty"`
}

// STSPlan is an admission request about a StatefulSet.
type STSPlan struct {
	Op     string   `json:"op"`
	Owners []string `json:"owners"` // apiVersion|kind
	New    STS      `json:"new"`
	Old    *STS     `json:"old,omitempty"`
}

const moco = "moco.cybozu.com/v1beta2|MySQLCluster"

func genSTSObj(t *rapid.T) STS {
	s := STS{Replicas: rapid.SampledFrom([]int32{1, 3, 5, 0}).Draw(t, "replicas"), Image: rapid.SampledFrom([]string{"mysql:8.0", "mysql:8.4"}).Draw(t, "image"), Grace: rapid.SampledFrom([]int64{30, 300}).Draw(t, "grace")}
	switch rapid.IntRange(0, 5).Draw(t, "part") {
	case 0:
		s.NoRU = true
	case 1:
		// rollingUpdate without partition
	default:
		s.Partition = ptr(rapid.Int32Range(0, 5).Draw(t, "partition"))
	}
	if rapid.IntRange(0, 4).Draw(t, "force") == 0 {
		s.Anns = map[string]string{"moco.cybozu.com/force-rolling-update": rapid.SampledFrom([]string{"true", "false", "True", ""}).Draw(t, "forceval")}
	} else if rapid.Bool().Draw(t, "ann") {
		s.Anns = map[string]string{"a": "b"}
	}
	if rapid.Bool().Draw(t, "lab") {
		s.Labels = map[string]string{"l": rapid.SampledFrom([]string{"1", "2"}).Draw(t, "l")}
	}
	return s
}

func genSTS(t *rapid.T) STSPlan {
	p := STSPlan{Op: rapid.SampledFrom([]string{"create", "update", "update", "update", "update"}).Draw(t, "op"), New: genSTSObj(t)}
	switch rapid.IntRange(0, 9).Draw(t, "owner") {
	case 0:
	case 1:
		p.Owners = []string{rapid.SampledFrom([]string{"apps/v1|Deployment", "mysql.example.com/v1|MySQLCluster", "moco.cybozu.com/v1beta2|BackupPolicy", "moco.cybozu.com.example/v1beta2|MySQLCluster", "v1|MySQLCluster"}).Draw(t, "o")}
	default:
		p.Owners = []string{moco}
	}
	if p.Op == "update" {
		old := p.New
		b, _ := json.Marshal(p.New)
		_ = json.Unmarshal(b, &old)
		for i := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2}).Draw(t, "nmut"); i > 0; i-- {
			switch rapid.SampledFrom([]string{"partition", "partition", "image", "grace", "replicas", "labels", "anns", "tanns", "min", "retention", "noru"}).Draw(t, "mut") {
			case "partition":
				old.Partition, old.NoRU = ptr(rapid.Int32Range(0, 5).Draw(t, "op")), false
			case "image":
				old.Image = "mysql:old"
			case "grace":
				old.Grace = 77
			case "replicas":
				old.Replicas = rapid.SampledFrom([]int32{1, 3, 5, 0}).Draw(t, "orep")
			case "labels":
				old.Labels = map[string]string{"l": "0"}
			case "anns":
				old.Anns = map[string]string{"moco.cybozu.com/force-rolling-update": "true"}
			case "tanns":
				old.TAnns = map[string]string{"x": "y"}
			case "min":
				old.Min = 3
			case "retention":
				old.Retention = true
			case "noru":
				old.Partition, old.NoRU = nil, true
			}
		}
		p.Old = &old
	}
	return p
}

func (s STS) build(owners []string) *appsv1.StatefulSet {
	x := &appsv1.StatefulSet{TypeMeta: metav1.TypeMeta{APIVersion: "apps/v1", Kind: "StatefulSet"}, ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "moco-test", Labels: s.Labels, Annotations: s.Anns}}
	for i, o := range owners {
		av, k, _ := strings.Cut(o, "|")
		x.OwnerReferences = append(x.OwnerReferences, metav1.OwnerReference{APIVersion: av, Kind: k, Name: fmt.Sprintf("o%d", i), UID: types.UID(fmt.Sprint(i)), Controller: ptr(i == 0)})
	}
	x.Spec.Replicas = ptr(s.Replicas)
	x.Spec.MinReadySeconds = s.Min
	x.Spec.Selector = &metav1.LabelSelector{MatchLabels: map[string]string{"app": "x"}}
	x.Spec.Template.Labels = map[string]string{"app": "x"}
	x.Spec.Template.Annotations = s.TAnns
	x.Spec.Template.Spec.Containers = []corev1.Container{{Name: "mysqld", Image: s.Image, Resources: corev1.ResourceRequirements{Requests: corev1.ResourceList{"memory": resource.MustParse("1Gi")}}}}
	x.Spec.Template.Spec.TerminationGracePeriodSeconds = ptr(s.Grace)
	x.Spec.UpdateStrategy.Type = appsv1.RollingUpdateStatefulSetStrategyType
	if !s.NoRU {
		x.Spec.UpdateStrategy.RollingUpdate = &appsv1.RollingUpdateStatefulSetStrategy{Partition: s.Partition}
	}
	if s.Retention {
		x.Spec.PersistentVolumeClaimRetentionPolicy = &appsv1.StatefulSetPersistentVolumeClaimRetentionPolicy{WhenDeleted: "Delete", WhenScaled: "Retain"}
	}
	return x
}

func partOf(s *appsv1.StatefulSet) *int32 {
	if s.Spec.UpdateStrategy.RollingUpdate == nil {
		return nil
	}
	return s.Spec.UpdateStrategy.RollingUpdate.Partition
}

func runSTS(t *testing.T, p STSPlan) (c vt.Case, err error) {
	setup(t)
	obj := p.New.build(p.Owners)
	op := admissionv1.Create
	var old *appsv1.StatefulSet
	if p.Op == "update" {
		op = admissionv1.Update
		old = p.Old.build(p.Owners)
	}
	gvk := metav1.GroupVersionKind{Group: "apps", Version: "v1", Kind: "StatefulSet"}
	resp, err := review(stsMutate, op, gvk, "statefulsets", "ns", "moco-test", obj, old)
	if err != nil {
		return c, err
	}
	if !resp.Allowed {
		return c, fmt.Errorf("%s refused: %v", p.Op, resp.Result)
	}
	got := &appsv1.StatefulSet{}
	if err := applyPatch(obj, got, resp.Patch); err != nil {
		return c, err
	}
	g, o := got.DeepCopy(), obj.DeepCopy()
	g.Spec.UpdateStrategy.RollingUpdate, o.Spec.UpdateStrategy.RollingUpdate = nil, nil
	if !equality.Semantic.DeepEqual(g, o) {
		return c, fmt.Errorf("more than the partition is changed: %s", resp.Patch)
	}
	show := func(p *int32) string {
		if p == nil {
			return "none"
		}
		return fmt.Sprint(*p)
	}
	is := show(partOf(got))
	expect := func(why string, want ...string) (vt.Case, error) {
		c.Classes = append(c.Classes, p.Op+"-"+why)
		for _, w := range want {
			if is == w {
				return c, nil
			}
		}
		return c, fmt.Errorf("%s (%s): partition is %s, want %s", p.Op, why, is, strings.Join(want, " or "))
	}
	reps, given := fmt.Sprint(p.New.Replicas), show(partOf(obj))
	if len(p.Owners) != 1 || p.Owners[0] != moco {
		if given != is || (obj.Spec.UpdateStrategy.RollingUpdate == nil) != (got.Spec.UpdateStrategy.RollingUpdate == nil) {
			return c, fmt.Errorf("a StatefulSet that is not a MySQLCluster's (owners %v) is changed: %s", p.Owners, resp.Patch)
		}
		c.Classes = append(c.Classes, "foreign")
		return c, nil
	}
	c.Nontrivial = true
	if p.New.Anns["moco.cybozu.com/force-rolling-update"] == "true" {
		return expect("forced", "none")
	}
	if given == "none" {
		return expect("no-partition", reps)
	}
	if p.Op == "create" {
		return expect("partition-given", reps, given)
	}
	a, b := obj.Spec.DeepCopy(), old.Spec.DeepCopy()
	a.UpdateStrategy, b.UpdateStrategy = appsv1.StatefulSetUpdateStrategy{}, appsv1.StatefulSetUpdateStrategy{}
	sameSpec := equality.Semantic.DeepEqual(a, b)
	was := show(partOf(old))
	metaSame := equality.Semantic.DeepEqual(obj.Labels, old.Labels) && equality.Semantic.DeepEqual(obj.Annotations, old.Annotations)
	switch {
	case !sameSpec:
		return expect("spec-changed", reps)
	case given == was:
		return expect("nothing-changed", reps, given)
	case !metaSame || was == "none":
		return expect("partition-and-meta", reps, given)
	default:
		return expect("partition-only", given)
	}
}

func TestW03(t *testing.T) { vt.Run(t, "W03", genSTS, runSTS) }

func TestMain(m *testing.M) { os.Exit(m.Run()) }
