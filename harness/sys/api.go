// Package sys runs the whole controller program as a process of its own, against an API server and MySQL instances made here.
package sys

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	jsonpatch "gopkg.in/evanphx/json-patch.v4"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	coordv1 "k8s.io/api/coordination/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1 "k8s.io/api/policy/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	storagev1 "k8s.io/api/storage/v1"
	"k8s.io/apimachinery/pkg/api/equality"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
)

type obj = map[string]any

var scheme = runtime.NewScheme()

func init() {
	for _, f := range []func(*runtime.Scheme) error{corev1.AddToScheme, appsv1.AddToScheme, batchv1.AddToScheme, policyv1.AddToScheme, rbacv1.AddToScheme, storagev1.AddToScheme, coordv1.AddToScheme} {
		_ = f(scheme)
	}
	_ = mocov1beta2.AddToScheme(scheme)
}

type resource struct {
	group, version, name, kind string
	status, cluster            bool
}

func (r *resource) gvk() schema.GroupVersionKind {
	return schema.GroupVersionKind{Group: r.group, Version: r.version, Kind: r.kind}
}

var resources = []*resource{
	{"", "v1", "pods", "Pod", true, false},
	{"", "v1", "secrets", "Secret", false, false},
	{"", "v1", "services", "Service", true, false},
	{"", "v1", "configmaps", "ConfigMap", false, false},
	{"", "v1", "serviceaccounts", "ServiceAccount", false, false},
	{"", "v1", "persistentvolumeclaims", "PersistentVolumeClaim", true, false},
	{"", "v1", "namespaces", "Namespace", true, true},
	{"", "v1", "events", "Event", false, false},
	{"apps", "v1", "statefulsets", "StatefulSet", true, false},
	{"batch", "v1", "jobs", "Job", true, false},
	{"batch", "v1", "cronjobs", "CronJob", true, false},
	{"policy", "v1", "poddisruptionbudgets", "PodDisruptionBudget", true, false},
	{"rbac.authorization.k8s.io", "v1", "roles", "Role", false, false},
	{"rbac.authorization.k8s.io", "v1", "rolebindings", "RoleBinding", false, false},
	{"storage.k8s.io", "v1", "storageclasses", "StorageClass", false, true},
	{"coordination.k8s.io", "v1", "leases", "Lease", false, false},
	{"moco.cybozu.com", "v1beta2", "mysqlclusters", "MySQLCluster", true, false},
	{"moco.cybozu.com", "v1beta2", "backuppolicies", "BackupPolicy", false, false},
	{"cert-manager.io", "v1", "certificates", "Certificate", true, false},
}

func byKind(kind string) *resource {
	for _, r := range resources {
		if r.kind == kind {
			return r
		}
	}
	panic(kind)
}

const rvBase = 1 << 30

type event struct {
	seq  int
	kind string
	ns   string
	data []byte
}

type change struct {
	at        time.Time
	typ, kind string
	ns, name  string
	agent     bool // written by the controller
	o         obj
}

// API is the API server: the objects live in the fake client, watches and admission are added here.
type API struct {
	applied bodies
	wmu     sync.Mutex // held during a write with its admission
	mu      sync.Mutex // log and snapshot
	cond    *sync.Cond
	c       client.WithWatch
	snap    map[string]map[string]string // kind -> key -> resource version
	last    map[string]obj
	log     []event
	changes []change
	closed  bool
	down    bool // no answer at all
	uid     int
	ctlSeen int
	// Hook is the address of the admission webhooks ("" = not configured).
	hookURL string
	hc      *http.Client
}

// NewAPI makes an empty API server.
func NewAPI() *API {
	a := &API{snap: map[string]map[string]string{}, last: map[string]obj{}}
	a.cond = sync.NewCond(&a.mu)
	a.c = fake.NewClientBuilder().WithScheme(scheme).
		WithStatusSubresource(&mocov1beta2.MySQLCluster{}, &appsv1.StatefulSet{}, &batchv1.CronJob{}, &batchv1.Job{}, &corev1.Pod{}, &corev1.PersistentVolumeClaim{}, &policyv1.PodDisruptionBudget{}, &corev1.Service{}).
		WithReturnManagedFields().Build()
	a.hc = &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, DisableKeepAlives: true}}
	return a
}

// Close ends all watches.
func (a *API) Close() {
	a.mu.Lock()
	a.closed = true
	a.cond.Broadcast()
	a.mu.Unlock()
}

func (a *API) setDown(d bool) {
	a.mu.Lock()
	a.down = d
	a.cond.Broadcast()
	a.mu.Unlock()
}

func toMap(o any) obj {
	data, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	var m obj
	if err := json.Unmarshal(data, &m); err != nil {
		panic(err)
	}
	return m
}

func u(r *resource, m obj) *unstructured.Unstructured {
	x := &unstructured.Unstructured{Object: m}
	if x.Object == nil {
		x.Object = obj{}
	}
	x.SetGroupVersionKind(r.gvk())
	return x
}

func (a *API) list(r *resource, ns string, sel labels.Selector) ([]unstructured.Unstructured, error) {
	l := &unstructured.UnstructuredList{}
	k := r.gvk()
	k.Kind += "List"
	l.SetGroupVersionKind(k)
	opts := []client.ListOption{client.InNamespace(ns)}
	if sel != nil {
		opts = append(opts, client.MatchingLabelsSelector{Selector: sel})
	}
	err := a.c.List(context.Background(), l, opts...)
	if err != nil && (apierrors.IsNotFound(err) || strings.Contains(err.Error(), "no matches") || strings.Contains(err.Error(), "no kind")) {
		return nil, nil
	}
	for i := range l.Items {
		l.Items[i].SetGroupVersionKind(r.gvk())
		a.prune(r, &l.Items[i])
	}
	return l.Items, err
}

// sync turns what a write changed into watch events.
func (a *API) sync(r *resource, byCtl bool) {
	a.mu.Lock()
	defer a.mu.Unlock()
	items, err := a.list(r, "", nil)
	if err != nil {
		panic(err)
	}
	old := a.snap[r.kind]
	now := map[string]string{}
	emit := func(typ string, m obj, key string) {
		ns, name, _ := strings.Cut(key, "/")
		data, _ := json.Marshal(obj{"type": typ, "object": m})
		a.log = append(a.log, event{seq: len(a.log) + 1, kind: r.kind, ns: ns, data: append(data, '\n')})
		if r.kind != "Lease" {
			a.changes = append(a.changes, change{at: time.Now(), typ: typ, kind: r.kind, ns: ns, name: name, agent: byCtl, o: m})
		}
	}
	for i := range items {
		x := &items[i]
		key := x.GetNamespace() + "/" + x.GetName()
		now[key] = x.GetResourceVersion() + "|" + string(x.GetUID())
		if old[key] == now[key] {
			continue
		}
		typ := "MODIFIED"
		if _, ok := old[key]; !ok {
			typ = "ADDED"
		}
		a.last[r.kind+" "+key] = x.Object
		emit(typ, x.Object, key)
	}
	var gone []string
	for key := range old {
		if _, ok := now[key]; !ok {
			gone = append(gone, key)
		}
	}
	sort.Strings(gone)
	for _, key := range gone {
		emit("DELETED", a.last[r.kind+" "+key], key)
	}
	a.snap[r.kind] = now
	a.cond.Broadcast()
}

func (a *API) get(r *resource, ns, name string) (*unstructured.Unstructured, error) {
	x := u(r, nil)
	err := a.c.Get(context.Background(), client.ObjectKey{Namespace: ns, Name: name}, x)
	x.SetGroupVersionKind(r.gvk())
	a.prune(r, x)
	return x, err
}

// prune drops the fields that the tracker records for an apply without the
// configuration having mentioned them (empty structs of the Go types); a
// server records what was applied.
func (a *API) prune(r *resource, x *unstructured.Unstructured) {
	body := a.applied.get(r.kind + " " + x.GetNamespace() + "/" + x.GetName())
	meta, _ := x.Object["metadata"].(obj)
	mf, _ := meta["managedFields"].([]any)
	for _, e := range mf {
		m, _ := e.(obj)
		if s, _ := m["subresource"].(string); s != "" || m["operation"] != "Apply" || body == nil {
			continue
		}
		if f, ok := m["fieldsV1"].(obj); ok {
			pruneFields(f, body)
		}
	}
}

func pruneFields(f obj, body any) {
	switch b := body.(type) {
	case obj:
		for k, sub := range f {
			name, ok := strings.CutPrefix(k, "f:")
			if !ok {
				continue
			}
			v, ok := b[name]
			if !ok {
				delete(f, k)
				continue
			}
			if m, ok := sub.(obj); ok {
				pruneFields(m, v)
			}
		}
	case []any:
		for k, sub := range f {
			js, ok := strings.CutPrefix(k, "k:")
			if !ok {
				continue
			}
			var key obj
			if json.Unmarshal([]byte(js), &key) != nil {
				continue
			}
			for _, e := range b {
				em, _ := e.(obj)
				same := em != nil
				for kk, kv := range key {
					if em != nil && fmt.Sprint(em[kk]) != fmt.Sprint(kv) {
						same = false
					}
				}
				if m, ok := sub.(obj); ok && same {
					pruneFields(m, em)
				}
			}
		}
	}
}

type bodies struct {
	mu sync.Mutex
	m  map[string]obj
}

func (b *bodies) get(k string) obj {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.m[k]
}

func (b *bodies) set(k string, o obj) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.m == nil {
		b.m = map[string]obj{}
	}
	b.m[k] = o
}

func (a *API) fresh(x *unstructured.Unstructured) {
	a.uid++
	x.SetUID(types.UID(fmt.Sprintf("uid-%06d", a.uid)))
	x.SetCreationTimestamp(metav1.Now())
	x.SetGeneration(1)
}

// review asks a webhook; it returns the admitted object.
func (a *API) review(path string, r *resource, op string, x, old obj) (obj, error) {
	m := obj{}
	if x != nil {
		m, _ = x["metadata"].(obj)
	} else {
		m, _ = old["metadata"].(obj)
	}
	req := obj{"uid": "r1", "kind": obj{"group": r.group, "version": r.version, "kind": r.kind}, "resource": obj{"group": r.group, "version": r.version, "resource": r.name},
		"name": m["name"], "namespace": m["namespace"], "operation": op, "userInfo": obj{"username": "u"}, "object": x, "oldObject": old}
	body, _ := json.Marshal(obj{"apiVersion": "admission.k8s.io/v1", "kind": "AdmissionReview", "request": req})
	resp, err := a.hc.Post(a.hookURL+path, "application/json", bytes.NewReader(body))
	if err != nil {
		return nil, apierrors.NewInternalError(fmt.Errorf("failed calling webhook: %w", err))
	}
	defer resp.Body.Close()
	data, _ := io.ReadAll(resp.Body)
	var out struct {
		Response *struct {
			Allowed bool
			Patch   string
			Status  *metav1.Status `json:"status"`
		}
	}
	if err := json.Unmarshal(data, &out); err != nil || out.Response == nil || resp.StatusCode != 200 {
		return nil, apierrors.NewInternalError(fmt.Errorf("failed calling webhook %s: %d %.200s", path, resp.StatusCode, data))
	}
	if !out.Response.Allowed {
		msg := "denied"
		if out.Response.Status != nil {
			msg = out.Response.Status.Message
		}
		return nil, apierrors.NewForbidden(schema.GroupResource{Group: r.group, Resource: r.name}, fmt.Sprint(m["name"]), fmt.Errorf("admission webhook denied the request: %s", msg))
	}
	if out.Response.Patch == "" {
		return x, nil
	}
	p, err := base64.StdEncoding.DecodeString(out.Response.Patch)
	if err != nil {
		return nil, err
	}
	jp, err := jsonpatch.DecodePatch(p)
	if err != nil {
		return nil, err
	}
	doc, _ := json.Marshal(x)
	doc, err = jp.Apply(doc)
	if err != nil {
		return nil, err
	}
	var n obj
	return n, json.Unmarshal(doc, &n)
}

// admit runs admission for a write of x (old nil: creation).
func (a *API) admit(r *resource, x, old obj) (obj, error) {
	if a.hookURL == "" {
		return x, nil
	}
	op := "UPDATE"
	if old == nil {
		op = "CREATE"
	}
	switch r.kind {
	case "MySQLCluster":
		y, err := a.review("/mutate-moco-cybozu-com-v1beta2-mysqlcluster", r, op, x, old)
		if err != nil {
			return nil, err
		}
		return a.review("/validate-moco-cybozu-com-v1beta2-mysqlcluster", r, op, y, old)
	case "BackupPolicy":
		return a.review("/validate-moco-cybozu-com-v1beta2-backuppolicy", r, op, x, old)
	case "StatefulSet":
		return a.review("/mutate-apps-v1-statefulset", r, op, x, old)
	}
	return x, nil
}

// settle finishes a write: admission of the result, generation. before is nil for a creation.
func (a *API) settle(r *resource, ns, name string, before *unstructured.Unstructured) error {
	cur, err := a.get(r, ns, name)
	if err != nil {
		return client.IgnoreNotFound(err)
	}
	var old obj
	if before != nil {
		old = before.Object
		if cur.GetResourceVersion() == before.GetResourceVersion() {
			return nil
		}
	} else if cur.GetUID() == "" {
		a.fresh(cur)
	}
	n, err := a.admit(r, cur.Object, old)
	if err != nil {
		// undo
		if before == nil {
			cur.SetFinalizers(nil)
			_ = a.c.Delete(context.Background(), cur)
		} else {
			b := before.DeepCopy()
			b.SetResourceVersion("")
			_ = a.c.Update(context.Background(), b)
		}
		return err
	}
	x := u(r, n)
	if before != nil && !equality.Semantic.DeepEqual(x.Object["spec"], before.Object["spec"]) {
		x.SetGeneration(before.GetGeneration() + 1)
	}
	if x.GetGeneration() == 0 {
		x.SetGeneration(1)
	}
	if equality.Semantic.DeepEqual(x.Object, cur.Object) && before != nil {
		return nil
	}
	return a.c.Update(context.Background(), x)
}

type answer struct {
	code int
	body any
}

func fail(err error) answer {
	var st apierrors.APIStatus
	if s, ok := err.(apierrors.APIStatus); ok {
		st = s
	} else {
		st = apierrors.NewInternalError(err)
	}
	s := st.Status()
	s.Kind, s.APIVersion = "Status", "v1"
	if s.Code == 0 {
		s.Code = 500
	}
	return answer{int(s.Code), s}
}

// ServeHTTP answers the controller.
func (a *API) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	a.mu.Lock()
	dead := a.down || a.closed
	a.ctlSeen++
	a.mu.Unlock()
	if dead {
		panic(http.ErrAbortHandler)
	}
	p := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	out := func(x answer) {
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(x.code)
		_ = json.NewEncoder(w).Encode(x.body)
	}
	group, version := "", "v1"
	switch {
	case p[0] == "version":
		out(answer{200, obj{"major": "1", "minor": "33", "gitVersion": "v1.33.0"}})
		return
	case p[0] == "api" && len(p) == 1:
		out(answer{200, obj{"kind": "APIVersions", "versions": []string{"v1"}, "serverAddressByClientCIDRs": []any{}}})
		return
	case p[0] == "apis" && len(p) <= 2:
		groups := []any{}
		seen := map[string]bool{}
		for _, x := range resources {
			if x.group == "" || seen[x.group] {
				continue
			}
			seen[x.group] = true
			gv := obj{"groupVersion": x.group + "/" + x.version, "version": x.version}
			g := obj{"name": x.group, "versions": []any{gv}, "preferredVersion": gv}
			if len(p) == 2 && p[1] == x.group {
				g["kind"], g["apiVersion"] = "APIGroup", "v1"
				out(answer{200, g})
				return
			}
			groups = append(groups, g)
		}
		if len(p) == 2 {
			out(fail(apierrors.NewNotFound(schema.GroupResource{}, p[1])))
			return
		}
		out(answer{200, obj{"kind": "APIGroupList", "apiVersion": "v1", "groups": groups}})
		return
	case p[0] == "api":
		version, p = p[1], p[2:]
	case p[0] == "apis":
		group, version, p = p[1], p[2], p[3:]
	default:
		out(fail(apierrors.NewNotFound(schema.GroupResource{}, r.URL.Path)))
		return
	}
	if len(p) == 0 {
		l := []any{}
		for _, x := range resources {
			if x.group == group && x.version == version {
				l = append(l, obj{"name": x.name, "singularName": strings.ToLower(x.kind), "namespaced": !x.cluster, "kind": x.kind, "verbs": []string{"create", "delete", "get", "list", "patch", "update", "watch"}})
				if x.status {
					l = append(l, obj{"name": x.name + "/status", "singularName": "", "namespaced": !x.cluster, "kind": x.kind, "verbs": []string{"get", "patch", "update"}})
				}
			}
		}
		if len(l) == 0 {
			out(fail(apierrors.NewNotFound(schema.GroupResource{}, version)))
			return
		}
		out(answer{200, obj{"kind": "APIResourceList", "apiVersion": "v1", "groupVersion": strings.TrimPrefix(group+"/"+version, "/"), "resources": l}})
		return
	}
	var ns, name, sub string
	if p[0] == "namespaces" && len(p) > 2 {
		ns, p = p[1], p[2:]
	}
	var res *resource
	for _, x := range resources {
		if x.group == group && x.version == version && x.name == p[0] {
			res = x
		}
	}
	if res == nil {
		out(fail(apierrors.NewNotFound(schema.GroupResource{Group: group, Resource: p[0]}, "")))
		return
	}
	if len(p) > 1 {
		name = p[1]
	}
	if len(p) > 2 {
		sub = p[2]
	}
	q := r.URL.Query()
	if r.Method == "GET" && name == "" && (q.Get("watch") == "true" || q.Get("watch") == "1") {
		a.watch(w, r, res, ns)
		return
	}
	body, _ := io.ReadAll(r.Body)
	l := &a.wmu
	if r.Method == "GET" {
		l = &a.mu
	}
	l.Lock()
	x := a.exec(r, res, ns, name, sub, body)
	l.Unlock()
	out(x)
}

func (a *API) watch(w http.ResponseWriter, r *http.Request, res *resource, ns string) {
	bad := func(err error) {
		x := fail(err)
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(x.code)
		_ = json.NewEncoder(w).Encode(x.body)
	}
	q := r.URL.Query()
	if q.Get("sendInitialEvents") == "true" {
		bad(apierrors.NewInvalid(res.gvk().GroupKind(), "", nil))
		return
	}
	from, err := strconv.Atoi(q.Get("resourceVersion"))
	if err != nil || from < rvBase {
		bad(apierrors.NewResourceExpired("too old"))
		return
	}
	from -= rvBase
	fl := w.(http.Flusher)
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(200)
	fl.Flush()
	stop := context.AfterFunc(r.Context(), func() { a.mu.Lock(); a.cond.Broadcast(); a.mu.Unlock() })
	defer stop()
	for {
		a.mu.Lock()
		for from >= len(a.log) && !a.closed && !a.down && r.Context().Err() == nil {
			a.cond.Wait()
		}
		end := a.closed || a.down || r.Context().Err() != nil
		evs := a.log[min(from, len(a.log)):]
		from = len(a.log)
		a.mu.Unlock()
		if end {
			panic(http.ErrAbortHandler)
		}
		n := 0
		for _, e := range evs {
			if e.kind == res.kind && (ns == "" || e.ns == ns) {
				if _, err := w.Write(e.data); err != nil {
					return
				}
				n++
			}
		}
		if n > 0 {
			fl.Flush()
		}
	}
}

func decode(body []byte) obj {
	if bytes.HasPrefix(body, []byte("k8s\x00")) {
		o, gvk, err := clientgoscheme.Codecs.UniversalDeserializer().Decode(body, nil, nil)
		if err != nil {
			return nil
		}
		m := toMap(o)
		m["kind"], m["apiVersion"] = gvk.Kind, gvk.GroupVersion().String()
		return m
	}
	var o obj
	_ = json.Unmarshal(body, &o)
	return o
}

func (a *API) exec(r *http.Request, res *resource, ns, name, sub string, body []byte) answer {
	ctx := context.Background()
	q := r.URL.Query()
	if r.Method == "GET" && name == "" {
		sel, err := labels.Parse(q.Get("labelSelector"))
		if err != nil {
			return fail(err)
		}
		items, err := a.list(res, ns, sel)
		if err != nil {
			return fail(err)
		}
		l := []any{}
		for i := range items {
			l = append(l, items[i].Object)
		}
		return answer{200, obj{"kind": res.kind + "List", "apiVersion": strings.TrimPrefix(res.group+"/"+res.version, "/"), "metadata": obj{"resourceVersion": strconv.Itoa(rvBase + len(a.log))}, "items": l}}
	}
	if r.Method == "GET" {
		x, err := a.get(res, ns, name)
		if err != nil {
			return fail(err)
		}
		return answer{200, x.Object}
	}
	before, err := a.get(res, ns, name)
	if err != nil {
		before = nil
	}
	switch r.Method {
	case "POST":
		x := u(res, decode(body))
		if ns != "" {
			x.SetNamespace(ns)
		}
		if x.GetName() == "" {
			a.uid++
			x.SetName(x.GetGenerateName() + strconv.Itoa(a.uid))
		}
		if res.kind == "Event" {
			return answer{201, x.Object}
		}
		name, before = x.GetName(), nil
		a.fresh(x)
		if err := a.c.Create(ctx, x); err != nil {
			return fail(err)
		}
	case "PUT":
		x := u(res, decode(body))
		if sub == "status" {
			err = a.c.Status().Update(ctx, x)
		} else {
			err = a.c.Update(ctx, x)
		}
		if err != nil {
			return fail(err)
		}
	case "PATCH":
		ct, _, _ := strings.Cut(r.Header.Get("Content-Type"), ";")
		if ct == string(types.ApplyPatchType) {
			var m obj
			if err := json.Unmarshal(body, &m); err != nil {
				return fail(err)
			}
			if res.status {
				delete(m, "status") // only written through the subresource
			}
			x := u(res, m)
			x.SetNamespace(ns)
			opts := []client.ApplyOption{client.FieldOwner(q.Get("fieldManager"))}
			if q.Get("force") == "true" {
				opts = append(opts, client.ForceOwnership)
			}
			if sub == "status" {
				return fail(apierrors.NewMethodNotSupported(schema.GroupResource{Resource: res.name}, "apply status"))
			}
			a.applied.set(res.kind+" "+ns+"/"+name, u(res, m).DeepCopy().Object)
			if err := a.c.Apply(ctx, client.ApplyConfigurationFromUnstructured(x), opts...); err != nil {
				return fail(err)
			}
			break
		}
		if before == nil {
			return fail(apierrors.NewNotFound(schema.GroupResource{Group: res.group, Resource: res.name}, name))
		}
		x := u(res, nil)
		x.SetNamespace(ns)
		x.SetName(name)
		pt := client.RawPatch(types.PatchType(ct), body)
		if sub == "status" {
			err = a.c.Status().Patch(ctx, x, pt)
		} else {
			err = a.c.Patch(ctx, x, pt)
		}
		if err != nil {
			return fail(err)
		}
	case "DELETE":
		if before == nil {
			return fail(apierrors.NewNotFound(schema.GroupResource{Group: res.group, Resource: res.name}, name))
		}
		if o := decode(body); o != nil {
			if pre, ok := o["preconditions"].(obj); ok {
				if v, ok := pre["uid"].(string); ok && v != string(before.GetUID()) {
					return fail(apierrors.NewConflict(schema.GroupResource{Resource: res.name}, name, fmt.Errorf("uid")))
				}
			}
		}
		if err := a.c.Delete(ctx, before); err != nil {
			return fail(err)
		}
		a.sync(res, true)
		return answer{200, obj{"kind": "Status", "apiVersion": "v1", "status": "Success"}}
	default:
		return fail(apierrors.NewMethodNotSupported(schema.GroupResource{Resource: res.name}, r.Method))
	}
	if sub == "" && res.kind != "Lease" {
		if err := a.settle(res, ns, name, before); err != nil {
			a.sync(res, true)
			return fail(err)
		}
	}
	a.sync(res, true)
	x, err := a.get(res, ns, name)
	if err != nil {
		// the last finalizer went away
		if before != nil {
			return answer{200, before.Object}
		}
		return fail(err)
	}
	return answer{200, x.Object}
}

// The user's and the cluster's own writes.

// Create creates an object.
func (a *API) Create(o client.Object) error {
	a.wmu.Lock()
	defer a.wmu.Unlock()
	gvks, _, err := scheme.ObjectKinds(o)
	if err != nil {
		return err
	}
	r := byKind(gvks[0].Kind)
	m := toMap(o)
	if a.hookURL != "" {
		u(r, m)
		if m, err = a.admit(r, m, nil); err != nil {
			return err
		}
	}
	x := u(r, m)
	a.fresh(x)
	if err := a.c.Create(context.Background(), x); err != nil {
		return err
	}
	a.sync(r, false)
	return nil
}

// Edit changes an object (status too).
func Edit[T client.Object](a *API, o T, ns, name string, f func(T) bool) error {
	a.wmu.Lock()
	defer a.wmu.Unlock()
	if err := a.c.Get(context.Background(), client.ObjectKey{Namespace: ns, Name: name}, o); err != nil {
		return err
	}
	gvks, _, err := scheme.ObjectKinds(o)
	if err != nil {
		return err
	}
	r := byKind(gvks[0].Kind)
	old := toMap(o)
	u(r, old)
	if !f(o) {
		return nil
	}
	m := toMap(o)
	u(r, m)
	if !equality.Semantic.DeepEqual(old["spec"], m["spec"]) {
		if m, err = a.admit(r, m, old); err != nil {
			return err
		}
	}
	x := u(r, m)
	if !equality.Semantic.DeepEqual(old["spec"], m["spec"]) {
		x.SetGeneration(x.GetGeneration() + 1)
	}
	y := x.DeepCopy()
	if err := a.c.Update(context.Background(), x); err != nil {
		return err
	}
	if !equality.Semantic.DeepEqual(old["status"], y.Object["status"]) {
		y.SetResourceVersion("")
		if err := a.c.Status().Update(context.Background(), y); err != nil && !apierrors.IsNotFound(err) {
			return err
		}
	}
	a.sync(r, false)
	return nil
}

// Remove deletes an object.
func (a *API) Remove(o client.Object) error {
	a.wmu.Lock()
	defer a.wmu.Unlock()
	gvks, _, _ := scheme.ObjectKinds(o)
	err := a.c.Delete(context.Background(), o)
	a.sync(byKind(gvks[0].Kind), false)
	return client.IgnoreNotFound(err)
}

// Get reads an object.
func (a *API) Get(ns, name string, o client.Object) bool {
	a.wmu.Lock()
	defer a.wmu.Unlock()
	return a.c.Get(context.Background(), client.ObjectKey{Namespace: ns, Name: name}, o) == nil
}

// List reads objects.
func (a *API) List(ns string, l client.ObjectList) {
	a.wmu.Lock()
	defer a.wmu.Unlock()
	if err := a.c.List(context.Background(), l, client.InNamespace(ns)); err != nil {
		panic(err)
	}
}
