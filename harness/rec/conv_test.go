package rec

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"pgregory.net/rapid"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"verif/internal/vt"
)

// ROp is one step of a reconciliation history.
type ROp struct {
	Kind  string `json:"kind"`
	I     int    `json:"i,omitempty"`
	J     int    `json:"j,omitempty"`
	How   string `json:"how,omitempty"`
	Fault Fault  `json:"fault,omitempty"`
	Spec  obj    `json:"spec,omitempty"`
}

// R02Plan is a history of one cluster.
type R02Plan struct {
	Spec    obj    `json:"spec"`
	Restore obj    `json:"restore,omitempty"`
	Pol     []obj  `json:"pol"`
	NoSC    bool   `json:"nosc,omitempty"`
	Force   bool   `json:"force,omitempty"`
	Conf    []int  `json:"conf"`
	Ops     []ROp  `json:"ops"`
	Name    string `json:"name"`
}

const tns = "db"

func genFault(t *rapid.T, max int) Fault {
	return Fault{At: 1 + vt.Uni(t, "at", max), Mode: one(t, "mode", "before", "before", "after", "crash", "crashafter", "conflict")}
}

func genR02(t *rapid.T) R02Plan {
	p := R02Plan{Spec: genSpec(t), Pol: []obj{genPolicy(t), genPolicy(t)}, Name: one(t, "name", "test", "a", "my-db")}
	p.Conf = []int{rapid.IntRange(0, len(userConfs)-1).Draw(t, "c1"), rapid.IntRange(0, len(userConfs)-1).Draw(t, "c2")}
	p.NoSC = yes(t, "nosc", 5)
	if yes(t, "restore", 4) {
		p.Restore = genRestore(t)
	}
	step := func(kinds ...string) {
		o := ROp{Kind: one(t, "op", kinds...)}
		o.I = vt.Uni(t, "i", 240)
		o.J = vt.Uni(t, "j", 5000)
		switch o.Kind {
		case "fail":
			o.Fault = genFault(t, 60)
		case "tamper":
			o.How = one(t, "how", "change", "remove")
		case "spec":
			o.Spec = genSpec(t)
		case "mutate":
			o.How = one(t, "how", "offline", "replicas", "slow", "collectors", "policy", "conf", "image", "label", "ow", "svc", "tmpl", "side")
		case "policy":
			o.Spec = genPolicy(t)
		}
		p.Ops = append(p.Ops, o)
	}
	// Settings changed by others are tried only while the spec stays: what the operator no longer wants belongs to them.
	for k := rapid.IntRange(0, 6).Draw(t, "ops1"); k > 0; k-- {
		step("reconcile", "reconcile", "fail", "fail", "fail", "delete", "spec", "mutate", "mutate", "mutate", "conf", "policy", "cert", "active", "restored", "restart")
	}
	if k := rapid.IntRange(0, 6).Draw(t, "ops2"); k > 0 {
		p.Ops = append(p.Ops, ROp{Kind: "reconcile"})
		for ; k > 0; k-- {
			step("tamper", "tamper", "tamper", "tamper", "tamper", "delete", "fail", "fail", "reconcile", "cert", "active", "restart")
		}
	}
	return p
}

// mutateSpec makes one small change.
func mutateSpec(s obj, how string, i int) {
	flip := func(k string, v any) {
		if _, ok := s[k]; ok {
			delete(s, k)
		} else {
			s[k] = v
		}
	}
	pt := s["podTemplate"].(obj)
	ps := pt["spec"].(obj)
	switch how {
	case "offline":
		flip("offline", true)
	case "replicas":
		s["replicas"] = []any{1, 3, 5}[i%3]
	case "slow":
		flip("disableSlowQueryLogContainer", true)
	case "collectors":
		flip("collectors", []any{"engine_innodb_status"})
	case "policy":
		flip("backupPolicyName", "pol1")
	case "conf":
		flip("mysqlConfigMapName", "conf1")
	case "image":
		named(ps["containers"], "mysqld")["image"] = fmt.Sprintf("mysql:%d", i)
	case "label":
		pt["metadata"] = obj{"labels": obj{"n": fmt.Sprint(i)}}
	case "ow":
		pt["overwriteContainers"] = []any{obj{"name": []any{"slow-log", "agent", "slow-log", "mysqld-exporter"}[i%4], "resources": obj{"limits": obj{"cpu": fmt.Sprintf("%dm", 100+i)}}}}
	case "svc":
		flip("primaryServiceTemplate", obj{"metadata": obj{"annotations": obj{"a": fmt.Sprint(i)}}})
	case "tmpl":
		s["slowQueryLogConfigTmpl"] = fmt.Sprintf("tmpl %d {{ .Path }}", i%3)
	case "side":
		ps["containers"] = append(ps["containers"].([]any), obj{"name": fmt.Sprintf("extra%d", i), "image": "side:1"})
	}
	// a reserved container name may not be used
	var keep []any
	seen := map[any]bool{}
	for _, c := range ps["containers"].([]any) {
		n := c.(obj)["name"]
		if n == "slow-log" && s["disableSlowQueryLogContainer"] == nil || n == "mysqld-exporter" && s["collectors"] != nil || seen[n] {
			continue
		}
		seen[n] = true
		keep = append(keep, c)
	}
	ps["containers"] = keep
}

func putConf(e *Env, name string, data map[string]string) {
	cm := &corev1.ConfigMap{}
	cm.Namespace, cm.Name = tns, name
	err := e.Raw.Get(bg, client.ObjectKeyFromObject(cm), cm)
	cm.Data = data
	if err != nil {
		must(e.Raw.Create(bg, cm))
		return
	}
	must(e.Raw.Update(bg, cm))
}

func putPolicy(e *Env, name string, spec obj) {
	bp := &mocov1beta2.BackupPolicy{}
	bp.Namespace, bp.Name = tns, name
	err := e.Raw.Get(bg, client.ObjectKeyFromObject(bp), bp)
	data, _ := json.Marshal(spec)
	bp.Spec = mocov1beta2.BackupPolicySpec{}
	must(json.Unmarshal(data, &bp.Spec))
	if err != nil {
		must(e.Raw.Create(bg, bp))
		return
	}
	must(e.Raw.Update(bg, bp))
}

func putCertSecret(e *Env, ns, name string, v int) {
	s := &corev1.Secret{}
	s.Namespace, s.Name = SysNS, "moco-agent-"+ns+"."+name
	err := e.Raw.Get(bg, client.ObjectKeyFromObject(s), s)
	s.Data = map[string][]byte{"tls.crt": []byte(fmt.Sprintf("crt %s/%s %d", ns, name, v)), "tls.key": []byte(fmt.Sprintf("key %d", v)), "ca.crt": []byte("ca")}
	if err != nil {
		must(e.Raw.Create(bg, s))
		return
	}
	must(e.Raw.Update(bg, s))
}

// leaf is a place in a tree.
type leaf struct {
	path []any
	val  any
}

func leaves(v any, path []any, out *[]leaf) {
	switch x := v.(type) {
	case obj:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			leaves(x[k], append(path[:len(path):len(path)], k), out)
		}
	case []any:
		for i, c := range x {
			leaves(c, append(path[:len(path):len(path)], i), out)
		}
	default:
		*out = append(*out, leaf{path: path, val: v})
	}
}

// tamperable lists the settings of an object another party may change.
func tamperable(id string, tree obj) []leaf {
	kind := strings.SplitN(id, " ", 2)[0]
	var all, r []leaf
	leaves(tree, nil, &all)
	for _, l := range all {
		p := ""
		for _, x := range l.path {
			p += fmt.Sprintf(".%v", x)
		}
		last := fmt.Sprint(l.path[len(l.path)-1])
		top := fmt.Sprint(l.path[0])
		switch {
		case top == "status" || top == "kind" || top == "apiVersion":
		case top == "metadata" && !strings.HasPrefix(p, ".metadata.labels") && !strings.HasPrefix(p, ".metadata.annotations") && !strings.HasPrefix(p, ".metadata.ownerReferences"):
		case strings.HasPrefix(p, ".metadata.ownerReferences") && (last != "blockOwnerDeletion"):
		case kind == "StatefulSet" && (strings.HasPrefix(p, ".spec.selector") || strings.HasPrefix(p, ".spec.volumeClaimTemplates") || p == ".spec.serviceName" || p == ".spec.podManagementPolicy"):
		case strings.HasPrefix(p, ".roleRef") || p == ".spec.clusterIP":
		case last == "name" && top == "spec" || last == "containerPort" || last == "protocol" || last == "port" || last == "mountPath" || last == "topologyKey" || last == "uid":
		case kind == "RoleBinding" && top == "subjects" && last == "kind":
		default:
			r = append(r, l)
		}
	}
	return r
}

func setAt(v any, path []any, val any, remove bool) {
	for i, p := range path {
		end := i == len(path)-1
		switch k := p.(type) {
		case string:
			m := v.(obj)
			if end {
				if remove {
					delete(m, k)
				} else {
					m[k] = val
				}
				return
			}
			v = m[k]
		case int:
			l := v.([]any)
			if end {
				l[k] = val
				return
			}
			v = l[k]
		}
	}
}

var managed = map[string]schema.GroupVersionKind{
	"Secret": corev1.SchemeGroupVersion.WithKind("Secret"), "ConfigMap": corev1.SchemeGroupVersion.WithKind("ConfigMap"),
	"Service": corev1.SchemeGroupVersion.WithKind("Service"), "ServiceAccount": corev1.SchemeGroupVersion.WithKind("ServiceAccount"),
	"StatefulSet": {Group: "apps", Version: "v1", Kind: "StatefulSet"}, "PodDisruptionBudget": {Group: "policy", Version: "v1", Kind: "PodDisruptionBudget"},
	"CronJob": {Group: "batch", Version: "v1", Kind: "CronJob"}, "Job": {Group: "batch", Version: "v1", Kind: "Job"},
	"Role": {Group: "rbac.authorization.k8s.io", Version: "v1", Kind: "Role"}, "RoleBinding": {Group: "rbac.authorization.k8s.io", Version: "v1", Kind: "RoleBinding"},
	"Certificate": certGVK,
}

// load reads an object as a typed object and as a tree.
func (e *Env) load(id string) (client.Object, obj) {
	f := strings.SplitN(id, " ", 2)
	nn := strings.SplitN(f[1], "/", 2)
	gvk := managed[f[0]]
	var o client.Object
	if f[0] == "Certificate" {
		u := &unstructured.Unstructured{}
		u.SetGroupVersionKind(gvk)
		o = u
	} else {
		ro, err := scheme.New(gvk)
		must(err)
		o = ro.(client.Object)
	}
	if err := e.Raw.Get(bg, client.ObjectKey{Namespace: nn[0], Name: nn[1]}, o); err != nil {
		return nil, nil
	}
	return o, deep(o).(obj)
}

// owned lists the ids of the managed objects of cluster name.
func owned(d map[string]obj, ns, name string) []string {
	var r []string
	for id, o := range d {
		kind := strings.SplitN(id, " ", 2)[0]
		if _, ok := managed[kind]; !ok {
			continue
		}
		if id == "Certificate "+SysNS+"/moco-agent-"+ns+"."+name {
			r = append(r, id)
			continue
		}
		refs, _ := sub(o, "metadata", "ownerReferences").([]any)
		if len(refs) == 1 && sub(refs[0], "name") == name && strings.Contains(id, " "+ns+"/") {
			r = append(r, id)
		}
	}
	sort.Strings(r)
	return r
}

// tamper changes or removes one setting; it returns what was done.
func (e *Env) tamper(id string, j int, how string) string {
	o, tree := e.load(id)
	if o == nil {
		return ""
	}
	ls := tamperable(id, tree)
	var keep []leaf
	for _, l := range ls {
		// the slow-log container follows the spec only when the cluster is changed
		if len(l.path) > 5 && l.path[0] == "spec" && l.path[1] == "template" && l.path[3] == "containers" {
			if c, ok := sub(tree, l.path[:5]...).(obj); ok && c["name"] == "slow-log" {
				continue
			}
		}
		keep = append(keep, l)
	}
	if len(keep) == 0 {
		return ""
	}
	l := keep[j%len(keep)]
	p := fmt.Sprint(l.path)
	_, inList := l.path[len(l.path)-1].(int)
	remove := how == "remove" && !inList
	var val any
	switch x := l.val.(type) {
	case string:
		val = x + "x"
		switch {
		case strings.HasPrefix(id, "Secret") && l.path[0] == "data":
			val = base64.StdEncoding.EncodeToString([]byte("tampered"))
		case strings.Contains(p, "requests") || strings.Contains(p, "limits") || strings.Contains(p, "sizeLimit"):
			val = "7"
		}
	case float64:
		val = x + 1
	case bool:
		val = !x
	default:
		return ""
	}
	setAt(tree, l.path, val, remove)
	data, _ := json.Marshal(tree)
	gvk := managed[strings.SplitN(id, " ", 2)[0]]
	ro, err := scheme.New(gvk)
	if err != nil {
		return ""
	}
	n := ro.(client.Object)
	if json.Unmarshal(data, n) != nil {
		return ""
	}
	if err := e.Raw.Update(bg, n, client.FieldOwner("intruder")); err != nil {
		return ""
	}
	return fmt.Sprintf("%s %s %v", map[bool]string{true: "remove", false: "change"}[remove], id, l.path)
}

func (e *Env) restored(ns, name string) {
	c := e.Cluster(ns, name)
	t := metav1.NewTime(time.Unix(1700000000, 0))
	c.Status.RestoredTime = &t
	must(e.Raw.Status().Update(bg, c))
}

func (e *Env) cronActive(ns, name string, on bool) bool {
	cj := &batchv1.CronJob{}
	if e.Raw.Get(bg, client.ObjectKey{Namespace: ns, Name: "moco-backup-" + name}, cj) != nil {
		return false
	}
	cj.Status.Active = nil
	if on {
		cj.Status.Active = []corev1.ObjectReference{{Kind: "Job", Name: "j", Namespace: ns}}
	}
	must(e.Raw.Status().Update(bg, cj))
	return true
}

func runR02(t *testing.T, p R02Plan) (c vt.Case, err error) {
	name := p.Name
	a := NewEnv()
	a.R.DisableDefaultSecurityContext = p.NoSC
	spec := p.Spec
	conf := append([]int(nil), p.Conf...)
	pol := append([]obj(nil), p.Pol...)
	put := func(e *Env) {
		s := deep(spec).(obj)
		if p.Restore != nil {
			s["restore"] = deep(p.Restore)
		}
		must(e.PutCluster(tns, name, "uid-"+name, s, nil))
		for i := range conf {
			putConf(e, fmt.Sprintf("conf%d", i+1), userConfs[conf[i]])
			putPolicy(e, fmt.Sprintf("pol%d", i+1), pol[i])
		}
	}
	put(a)
	var hist []string
	note := func(f string, x ...any) { hist = append(hist, fmt.Sprintf(f, x...)) }
	certv, disturbed, isRestored := 0, 0, false
	for _, o := range p.Ops {
		ids := owned(a.Dump(), tns, name)
		switch o.Kind {
		case "reconcile", "fail":
			err := a.Reconcile(tns, name, o.Fault)
			note("reconcile %+v: %v (%d calls)", o.Fault, err != nil, a.calls)
			if o.Kind == "fail" && err != nil {
				disturbed++
				c.Classes = append(c.Classes, "fault-"+o.Fault.Mode)
			}
		case "tamper":
			if len(ids) == 0 {
				continue
			}
			id := ids[o.I%len(ids)]
			k := strings.SplitN(id, " ", 2)[0]
			if k == "Job" || k == "Certificate" {
				continue
			}
			if s := a.tamper(id, o.J, o.How); s != "" {
				note("%s", s)
				disturbed++
				c.Classes = append(c.Classes, "tamper-"+k)
			}
		case "delete":
			if len(ids) == 0 {
				continue
			}
			id := ids[o.I%len(ids)]
			if ob, _ := a.load(id); ob != nil {
				must(a.Raw.Delete(bg, ob))
				note("delete %s", id)
				disturbed++
				c.Classes = append(c.Classes, "delete-"+strings.SplitN(id, " ", 2)[0])
			}
		case "spec":
			spec = o.Spec
			put(a)
			note("new spec")
			c.Classes = append(c.Classes, "spec")
		case "mutate":
			spec = deep(spec).(obj)
			mutateSpec(spec, o.How, o.I)
			put(a)
			note("mutate %s %d", o.How, o.I)
			c.Classes = append(c.Classes, "mutate-"+o.How)
		case "conf":
			conf[o.I%2] = o.J % len(userConfs)
			put(a)
			note("user configuration")
		case "policy":
			pol[o.I%2] = o.Spec
			put(a)
			note("policy")
		case "cert":
			certv = o.J + 1
			putCertSecret(a, tns, name, certv)
			note("certificate issued")
		case "active":
			a.cronActive(tns, name, o.I%2 == 0)
			note("backup running: %v", o.I%2 == 0)
		case "restored":
			if p.Restore != nil {
				a.restored(tns, name)
				isRestored = true
				note("restored")
			}
		case "restart":
			a.Operator()
		}
	}
	for i := 0; ; i++ {
		err := a.Reconcile(tns, name, Fault{})
		if err == nil && i > 0 {
			break
		}
		if i == 5 {
			return c, fmt.Errorf("reconciliation keeps failing: %v\nhistory: %s", err, strings.Join(hist, "; "))
		}
	}
	got := a.Dump()
	// the same cluster from scratch
	b := NewEnv()
	b.R.DisableDefaultSecurityContext = p.NoSC
	put(b)
	if isRestored {
		b.restored(tns, name)
	}
	if certv > 0 {
		putCertSecret(b, tns, name, certv)
	}
	sec := &corev1.Secret{}
	if err := a.Raw.Get(bg, client.ObjectKey{Namespace: SysNS, Name: "mysql-" + tns + "." + name}, sec); err != nil {
		return c, fmt.Errorf("no credentials of the cluster: %v", err)
	}
	sec.ResourceVersion = ""
	sec.ManagedFields = nil
	must(b.Raw.Create(bg, sec))
	active := sub(got["CronJob "+tns+"/moco-backup-"+name], "status", "active") != nil
	for i := 0; i < 2; i++ {
		if err := b.Reconcile(tns, name, Fault{}); err != nil {
			return c, fmt.Errorf("a fresh reconciliation fails: %v", err)
		}
		if active {
			b.cronActive(tns, name, true)
		}
	}
	want := b.Dump()
	d := diffDumps(got, want, func(id string, o obj) bool {
		switch {
		case strings.HasPrefix(id, "MySQLCluster ") || strings.HasPrefix(id, "Certificate "):
			return got[id] != nil && want[id] != nil
		case isRestored && strings.Contains(id, "/moco-restore-"):
			return true
		case strings.HasPrefix(id, "Job "):
			return got[id] != nil && want[id] != nil
		case strings.HasPrefix(id, "ConfigMap ") && want[id] == nil && (strings.HasPrefix(id, "ConfigMap "+tns+"/moco-"+name+".") || strings.Contains(id, "/moco-slow-log") && spec["disableSlowQueryLogContainer"] == nil):
			return true // an older configuration
		}
		return false
	})
	if len(d) > 0 {
		return c, fmt.Errorf("after the history the objects (left) differ from those of a fresh run (right):\n%s\nhistory: %s", strings.Join(d, "\n"), strings.Join(hist, "; "))
	}
	if err := a.Reconcile(tns, name, Fault{}); err != nil {
		return c, fmt.Errorf("a further reconciliation fails: %v", err)
	}
	if d := diffDumps(got, a.Dump(), nil); len(d) > 0 {
		return c, fmt.Errorf("a further reconciliation changes objects:\n%s\nhistory: %s", strings.Join(d, "\n"), strings.Join(hist, "; "))
	}
	c.Nontrivial = disturbed > 0
	return c, nil
}

func TestR02(t *testing.T) { vt.Run(t, "R02", genR02, runR02) }
