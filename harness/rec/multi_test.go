package rec

import (
	"context"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/controllers"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	storagev1 "k8s.io/api/storage/v1"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/types"
	"pgregory.net/rapid"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"verif/internal/vt"
)

// MCluster is one of several clusters.
type MCluster struct {
	NS   string `json:"ns"`
	Name string `json:"name"`
	Spec obj    `json:"spec"`
}

// MOp is one step concerning cluster C.
type MOp struct {
	Kind  string `json:"kind"`
	C     int    `json:"c"`
	How   string `json:"how,omitempty"`
	I     int    `json:"i,omitempty"`
	J     int    `json:"j,omitempty"`
	Fault Fault  `json:"fault,omitempty"`
	Spec  obj    `json:"spec,omitempty"`
}

// MPlan is a history of several clusters.
type MPlan struct {
	Clusters []MCluster `json:"clusters"`
	Limit    int        `json:"limit"`
	Ops      []MOp      `json:"ops"`
}

func (c MCluster) key() string { return c.NS + "/" + c.Name }

// world of several clusters; gen counts incarnations.
type multi struct {
	e    *Env
	p    MPlan
	spec []obj
	ann  []map[string]string
	gen  []int
	hist []string
}

func newMulti(p MPlan) *multi {
	m := &multi{e: NewEnv(), p: p}
	m.e.R.MySQLConfigMapHistoryLimit = p.Limit
	m.e.R.PVCSyncLabelKeys = []string{"vl"}
	m.e.R.PVCSyncAnnotationKeys = []string{"va"}
	for _, c := range p.Clusters {
		m.spec = append(m.spec, c.Spec)
		m.ann = append(m.ann, nil)
		m.gen = append(m.gen, 0)
	}
	for _, ns := range []string{"db", "db2"} {
		for i := 1; i <= 2; i++ {
			cm := &corev1.ConfigMap{}
			cm.Namespace, cm.Name, cm.Data = ns, fmt.Sprintf("conf%d", i), userConfs[i]
			must(m.e.Raw.Create(bg, cm))
			bp := &mocov1beta2.BackupPolicy{}
			bp.Namespace, bp.Name = ns, fmt.Sprintf("pol%d", i)
			bp.Spec.JobConfig.ServiceAccountName = "sa"
			bp.Spec.Schedule = "@daily"
			must(m.e.Raw.Create(bg, bp))
		}
	}
	for _, n := range []string{"grow", "fixed"} {
		sc := &storagev1.StorageClass{}
		sc.Name = n
		b := n == "grow"
		sc.AllowVolumeExpansion = &b
		must(m.e.Raw.Create(bg, sc))
	}
	return m
}

func (m *multi) note(f string, x ...any) { m.hist = append(m.hist, fmt.Sprintf(f, x...)) }

func (m *multi) uid(i int) string {
	return fmt.Sprintf("uid-%s-%s-%d", m.p.Clusters[i].NS, m.p.Clusters[i].Name, m.gen[i])
}

// put creates or updates cluster i.
func (m *multi) put(i int) {
	c := m.p.Clusters[i]
	if x := m.e.Cluster(c.NS, c.Name); x != nil && x.DeletionTimestamp != nil {
		return
	} else if x == nil {
		m.gen[i]++
	}
	must(m.e.PutCluster(c.NS, c.Name, m.uid(i), m.spec[i], m.ann[i]))
}

// settle makes the StatefulSet of cluster i look complete and creates its claims.
func (m *multi) settle(i int) {
	c := m.p.Clusters[i]
	sts := &appsv1.StatefulSet{}
	if m.e.Raw.Get(bg, client.ObjectKey{Namespace: c.NS, Name: "moco-" + c.Name}, sts) != nil {
		return
	}
	n := int32(1)
	if sts.Spec.Replicas != nil {
		n = *sts.Spec.Replicas
	}
	sts.Status = appsv1.StatefulSetStatus{ObservedGeneration: max(sts.Generation, 1), Replicas: n, ReadyReplicas: n, AvailableReplicas: n, UpdatedReplicas: n, CurrentReplicas: n, CurrentRevision: "r", UpdateRevision: "r"}
	must(m.e.Raw.Status().Update(bg, sts))
	for _, t := range sts.Spec.VolumeClaimTemplates {
		for k := int32(0); k < n; k++ {
			p := &corev1.PersistentVolumeClaim{}
			p.Namespace, p.Name = c.NS, fmt.Sprintf("%s-%s-%d", t.Name, sts.Name, k)
			if m.e.Raw.Get(bg, client.ObjectKeyFromObject(p), p) == nil {
				continue
			}
			p.Labels, p.Annotations = map[string]string{"vl": "0"}, map[string]string{"va": "0"}
			for k, v := range t.Labels {
				p.Labels[k] = v
			}
			for k, v := range sts.Spec.Selector.MatchLabels {
				p.Labels[k] = v
			}
			for k, v := range t.Annotations {
				p.Annotations[k] = v
			}
			p.OwnerReferences = t.OwnerReferences
			p.Spec = *t.Spec.DeepCopy()
			must(m.e.Raw.Create(bg, p))
		}
	}
}

// gc removes the objects of clusters that are gone.
func (m *multi) gc() {
	for i, c := range m.p.Clusters {
		if m.gen[i] == 0 || m.e.Cluster(c.NS, c.Name) != nil {
			continue
		}
		for id, o := range m.e.Dump() {
			if ownerUID(o) == m.uid(i) {
				kind := strings.SplitN(id, " ", 2)[0]
				if kind == "PersistentVolumeClaim" {
					p := &corev1.PersistentVolumeClaim{}
					p.Namespace, p.Name = c.NS, sub(o, "metadata", "name").(string)
					must(m.e.Raw.Delete(bg, p))
					continue
				}
				ob, _ := m.e.load(id)
				must(m.e.Raw.Delete(bg, ob))
			}
		}
	}
}

func ownerUID(o obj) string {
	refs, _ := sub(o, "metadata", "ownerReferences").([]any)
	for _, r := range refs {
		if sub(r, "controller") == true {
			s, _ := sub(r, "uid").(string)
			return s
		}
	}
	return ""
}

func (m *multi) request(i int, f Fault) error {
	c := m.p.Clusters[i]
	err := m.e.Reconcile(c.NS, c.Name, f)
	s := "ok"
	if err != nil {
		s = "error"
	}
	m.note("reconcile %s %+v: %s", c.key(), f, s)
	return err
}

// step performs what is not a reconciliation.
func (m *multi) step(o MOp) {
	c := m.p.Clusters[o.C]
	x := m.e.Cluster(c.NS, c.Name)
	switch o.Kind {
	case "create":
		if x == nil {
			m.put(o.C)
			m.note("create %s", c.key())
		}
	case "spec":
		if x != nil {
			m.spec[o.C] = o.Spec
			m.put(o.C)
			m.note("new spec %s", c.key())
		}
	case "mutate":
		if x != nil {
			m.spec[o.C] = deep(m.spec[o.C]).(obj)
			if o.How == "size" {
				for _, v := range m.spec[o.C]["volumeClaimTemplates"].([]any) {
					v.(obj)["spec"].(obj)["resources"] = obj{"requests": obj{"storage": fmt.Sprintf("%dGi", 11+o.I%20)}}
				}
			} else if o.How == "vmeta" {
				for _, v := range m.spec[o.C]["volumeClaimTemplates"].([]any) {
					v.(obj)["metadata"].(obj)["labels"] = obj{"vl": fmt.Sprint(o.I)}
					v.(obj)["metadata"].(obj)["annotations"] = obj{"va": fmt.Sprint(o.I)}
				}
			} else {
				mutateSpec(m.spec[o.C], o.How, o.I)
			}
			m.put(o.C)
			m.note("mutate %s %s %d", c.key(), o.How, o.I)
		}
	case "settle":
		m.settle(o.C)
		m.note("settle %s", c.key())
	case "cert":
		putCertSecret(m.e, c.NS, c.Name, o.J)
		m.note("certificate issued %s", c.key())
	case "kill":
		if x != nil && x.DeletionTimestamp == nil {
			must(m.e.Raw.Delete(bg, x))
			m.note("delete cluster %s", c.key())
		}
	case "restart":
		m.e.Operator()
		m.note("operator restarted")
	case "ann":
		if x != nil {
			a := map[string]string{}
			for k, v := range m.ann[o.C] {
				a[k] = v
			}
			v := []string{"true", "true", "false", ""}[o.J%4]
			if o.How == "" {
				o.How = "clustering-stopped"
			}
			if v == "" {
				delete(a, "moco.cybozu.com/"+o.How)
			} else {
				a["moco.cybozu.com/"+o.How] = v
			}
			m.ann[o.C] = a
			m.put(o.C)
			m.note("annotate %s %s=%s", c.key(), o.How, v)
		}
	}
}

var namePool = []string{"a", "a1", "a-1", "ab", "test", "test2", "test-0", "a", "test", "b", "ba"}

// nameClash are names whose derived object names coincide with those of "a" or "test".
var nameClash = []string{"a-primary", "test-replica", "my-cnf-a", "a-grpc", "test-primary", "slow-log-agent-config-a"}

func genMulti(t *rapid.T, max int, ops int, kinds []string, clash bool) MPlan {
	p := MPlan{Limit: one(t, "limit", 10, 1, 2, 3)}
	seen := map[string]bool{}
	for n := 1 + vt.Uni(t, "n", max); n > 0; n-- {
		c := MCluster{NS: one(t, "ns", "db", "db", "db2"), Name: one(t, "name", namePool...)}
		if clash && yes(t, "clash", 12) {
			c.Name = one(t, "cname", nameClash...)
		}
		if seen[c.key()] {
			continue
		}
		seen[c.key()] = true
		c.Spec = genSpec(t)
		p.Clusters = append(p.Clusters, c)
	}
	for i := range p.Clusters {
		p.Ops = append(p.Ops, MOp{Kind: "create", C: i}, MOp{Kind: "reconcile", C: i})
	}
	for k := 1 + vt.Uni(t, "ops", ops); k > 0; k-- {
		o := MOp{Kind: one(t, "op", kinds...), C: vt.Uni(t, "c", len(p.Clusters)), I: vt.Uni(t, "i", 240), J: vt.Uni(t, "j", 5000)}
		switch o.Kind {
		case "fail":
			o.Fault = genFault(t, 60)
		case "spec":
			o.Spec = genSpec(t)
		case "mutate":
			o.How = one(t, "how", "offline", "replicas", "slow", "slow", "collectors", "policy", "conf", "conf", "image", "ow", "tmpl", "tmpl", "size", "vmeta")
		case "ann":
			o.How = one(t, "how", "clustering-stopped", "reconciliation-stopped", "force-rolling-update")
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// claims tells whether the name of an object is one cluster c uses for that kind.
func claims(c MCluster, kind, ns, name string) bool {
	if kind == "Secret" && ns == SysNS && name == "mysql-"+c.NS+"."+c.Name || kind == "Certificate" && ns == SysNS && name == "moco-agent-"+c.NS+"."+c.Name {
		return true
	}
	if ns != c.NS {
		return false
	}
	m := "moco-" + c.Name
	hash := func(p string) bool {
		return strings.HasPrefix(name, p+".") && !strings.Contains(name[len(p)+1:], ".")
	}
	switch kind {
	case "StatefulSet", "ServiceAccount", "PodDisruptionBudget":
		return name == m
	case "Service":
		return name == m || name == m+"-primary" || name == m+"-replica"
	case "Secret":
		return name == m || name == "moco-my-cnf-"+c.Name || name == m+"-grpc"
	case "ConfigMap":
		return hash(m) || hash("moco-slow-log-agent-config-"+c.Name)
	case "CronJob":
		return name == "moco-backup-"+c.Name
	case "Job":
		return name == "moco-restore-"+c.Name
	case "Role", "RoleBinding":
		return name == "moco-backup-"+c.Name || name == "moco-restore-"+c.Name
	case "MySQLCluster":
		return name == c.Name
	case "PersistentVolumeClaim":
		i := strings.LastIndex(name, "-")
		return i > 0 && strings.HasSuffix(name[:i], "-"+m)
	}
	return false
}

func splitID(id string) (kind, ns, name string) {
	f := strings.SplitN(id, " ", 2)
	nn := strings.SplitN(f[1], "/", 2)
	return f[0], nn[0], nn[1]
}

func genR03(t *rapid.T) MPlan {
	return genMulti(t, 4, 20, []string{"reconcile", "reconcile", "reconcile", "fail", "spec", "mutate", "mutate", "mutate", "settle", "settle", "cert", "kill", "create", "restart", "ann"}, true)
}

func runR03(t *testing.T, p MPlan) (c vt.Case, err error) {
	m := newMulti(p)
	foreign := 0
	for n, o := range p.Ops {
		if o.Kind != "reconcile" && o.Kind != "fail" {
			m.step(o)
			continue
		}
		me := p.Clusters[o.C]
		before := m.e.Dump()
		calls := len(m.e.M.Calls)
		_ = m.request(o.C, o.Fault)
		after := m.e.Dump()
		m.gc()
		for i := range p.Clusters {
			if i != o.C && m.gen[i] > 0 {
				foreign++
			}
		}
		for id := range union(before, after) {
			x, y := before[id], after[id]
			if x != nil && y != nil && reflect.DeepEqual(x, y) {
				continue
			}
			kind, ns, name := splitID(id)
			what := "changes"
			if x == nil {
				what = "creates"
			} else if y == nil {
				what = "deletes"
			}
			mine := claims(me, kind, ns, name)
			// who had it before?
			for j, other := range p.Clusters {
				if j == o.C || m.gen[j] == 0 {
					continue
				}
				owns := x != nil && (ownerUID(x) == m.uid(j) || kind == "MySQLCluster" && claims(other, kind, ns, name) || ns == SysNS && claims(other, kind, ns, name))
				if x == nil {
					owns = claims(other, kind, ns, name) && !mine
				}
				if !owns {
					continue
				}
				if mine && claims(other, kind, ns, name) {
					c.Known = "name-collision"
					c.Classes = append(c.Classes, "collision")
					return c, nil
				}
				return c, fmt.Errorf("step %d: reconciling %s %s %s of %s\nhistory: %s", n, me.key(), what, id, other.key(), strings.Join(m.hist, "; "))
			}
			if !mine {
				return c, fmt.Errorf("step %d: reconciling %s %s %s, which is none of its objects\nhistory: %s", n, me.key(), what, id, strings.Join(m.hist, "; "))
			}
		}
		for _, s := range m.e.M.Calls[min(calls, len(m.e.M.Calls)):] {
			if !strings.HasSuffix(s, " "+me.key()) {
				return c, fmt.Errorf("step %d: reconciling %s asks the manager for %q\nhistory: %s", n, me.key(), s, strings.Join(m.hist, "; "))
			}
		}
		c.Classes = append(c.Classes, "reconcile")
	}
	c.Nontrivial = foreign > 0
	return c, nil
}

func union(a, b map[string]obj) map[string]bool {
	r := map[string]bool{}
	for k := range a {
		r[k] = true
	}
	for k := range b {
		r[k] = true
	}
	return r
}

func TestR03(t *testing.T) { vt.Run(t, "R03", genR03, runR03) }

var passKeys = map[string]string{"ADMIN_PASSWORD": "moco-admin", "AGENT_PASSWORD": "moco-agent", "REPLICATION_PASSWORD": "moco-repl", "CLONE_DONOR_PASSWORD": "moco-clone-donor",
	"EXPORTER_PASSWORD": "moco-exporter", "BACKUP_PASSWORD": "moco-backup", "READONLY_PASSWORD": "moco-readonly", "WRITABLE_PASSWORD": "moco-writable"}

var cnfFiles = map[string]string{"moco-admin-my.cnf": "ADMIN_PASSWORD", "moco-exporter-my.cnf": "EXPORTER_PASSWORD", "moco-backup-my.cnf": "BACKUP_PASSWORD",
	"moco-readonly-my.cnf": "READONLY_PASSWORD", "moco-writable-my.cnf": "WRITABLE_PASSWORD"}

func genR05(t *rapid.T) MPlan {
	p := genMulti(t, 3, 16, []string{"reconcile", "reconcile", "fail", "fail", "fail", "mutate", "kill", "create", "restart", "ann", "alter", "alter", "alter", "lose", "lose"}, false)
	// the first reconciliation may fail as well
	for i := range p.Ops {
		if p.Ops[i].Kind == "reconcile" && i < 2*len(p.Clusters) && yes(t, "first", 2) {
			p.Ops[i].Kind = "fail"
			p.Ops[i].Fault = genFault(t, 12)
		}
		if p.Ops[i].Kind == "fail" && yes(t, "stale", 3) {
			p.Ops[i].Fault = Fault{At: 2 + vt.Uni(t, "staleat", 3), Mode: "stale"}
		}
	}
	return p
}

var cnfRe = regexp.MustCompile(`(?m)^\s*(user|password)\s*=\s*"?([^"\n]*)"?\s*$`)

func runR05(t *testing.T, p MPlan) (c vt.Case, err error) {
	m := newMulti(p)
	known := map[int]map[string]string{} // cluster -> passwords
	first := map[string]string{}         // password -> where it was seen
	bad := func(f string, x ...any) error {
		return fmt.Errorf("%s\nhistory: %s", fmt.Sprintf(f, x...), strings.Join(m.hist, "; "))
	}
	get := func(ns, name string) *corev1.Secret {
		s := &corev1.Secret{}
		if m.e.Raw.Get(bg, client.ObjectKey{Namespace: ns, Name: name}, s) != nil {
			return nil
		}
		return s
	}
	disturbed := 0
	check := func(copies int) error {
		for i, k := range p.Clusters {
			s := get(SysNS, "mysql-"+k.key2())
			if m.gen[i] == 0 || m.e.Cluster(k.NS, k.Name) == nil {
				delete(known, i)
				continue
			}
			deleting := m.e.Cluster(k.NS, k.Name).DeletionTimestamp != nil
			if s == nil {
				if known[i] != nil && !deleting {
					return bad("the passwords of %s are gone", k.key())
				}
				continue
			}
			cur := map[string]string{}
			for key, v := range s.Data {
				cur[key] = string(v)
			}
			if known[i] == nil {
				for key := range passKeys {
					v := cur[key]
					if len(v) < 16 {
						return bad("%s of %s is %q", key, k.key(), v)
					}
					at := fmt.Sprintf("%s of %s (%d)", key, k.key(), m.gen[i])
					if w, ok := first[v]; ok {
						return bad("%s is the same as %s", at, w)
					}
					first[v] = at
				}
				known[i] = cur
			} else if !reflect.DeepEqual(known[i], cur) {
				return bad("the passwords of %s changed: %v -> %v", k.key(), known[i], cur)
			}
			if copies == i {
				u, f := get(k.NS, "moco-"+k.Name), get(k.NS, "moco-my-cnf-"+k.Name)
				if u == nil || f == nil {
					return bad("a copy of the passwords of %s is missing", k.key())
				}
				for key := range passKeys {
					if string(u.Data[key]) != cur[key] {
						return bad("%s in the copy for %s is %q, not %q", key, k.key(), u.Data[key], cur[key])
					}
				}
				for file, key := range cnfFiles {
					got := map[string]string{}
					for _, x := range cnfRe.FindAllStringSubmatch(string(f.Data[file]), -1) {
						got[x[1]] = x[2]
					}
					if want := map[string]string{"user": passKeys[key], "password": cur[key]}; !reflect.DeepEqual(got, want) || !strings.HasPrefix(strings.TrimSpace(string(f.Data[file])), "[client]") {
						return bad("%s of %s is %q", file, k.key(), f.Data[file])
					}
				}
				for _, s := range []*corev1.Secret{u, f} {
					for key, v := range s.Data {
						for j := range p.Clusters {
							if j == i {
								continue
							}
							for _, pw := range known[j] {
								if strings.Contains(string(v), pw) {
									return bad("%s/%s of %s exposes a password of %s", s.Name, key, k.key(), p.Clusters[j].key())
								}
							}
						}
					}
				}
			}
		}
		return nil
	}
	for _, o := range p.Ops {
		k := p.Clusters[o.C]
		copies := -1
		switch o.Kind {
		case "reconcile", "fail":
			err := m.request(o.C, o.Fault)
			x := m.e.Cluster(k.NS, k.Name)
			if err != nil {
				disturbed++
				c.Classes = append(c.Classes, "fault-"+o.Fault.Mode)
			} else if x != nil && x.DeletionTimestamp == nil && x.Annotations["moco.cybozu.com/reconciliation-stopped"] != "true" && o.Fault.Mode != "stale" {
				copies = o.C
			}
			m.gc()
		case "alter", "lose":
			s := get(k.NS, []string{"moco-" + k.Name, "moco-my-cnf-" + k.Name}[o.I%2])
			if s == nil {
				continue
			}
			if o.Kind == "lose" {
				must(m.e.Raw.Delete(bg, s))
			} else {
				var ks []string
				for key := range s.Data {
					ks = append(ks, key)
				}
				sort.Strings(ks)
				if len(ks) == 0 {
					continue
				}
				key := ks[o.J%len(ks)]
				if o.J%3 == 0 {
					delete(s.Data, key)
				} else {
					s.Data[key] = []byte("x")
				}
				must(m.e.Raw.Update(bg, s, client.FieldOwner("intruder")))
			}
			m.note("%s %s", o.Kind, s.Name)
			disturbed++
			c.Classes = append(c.Classes, o.Kind)
		default:
			m.step(o)
		}
		if err := check(copies); err != nil {
			return c, err
		}
	}
	c.Nontrivial = disturbed > 0
	return c, nil
}

func (c MCluster) key2() string { return c.NS + "." + c.Name }

func TestR05(t *testing.T) { vt.Run(t, "R05", genR05, runR05) }

func genR09(t *rapid.T) MPlan {
	p := genMulti(t, 3, 14, []string{"reconcile", "reconcile", "fail", "fail", "fail", "mutate", "kill", "kill", "kill", "create", "restart", "ann", "ann", "hold", "release", "drop"}, false)
	var ops []MOp
	for _, o := range p.Ops {
		ops = append(ops, o)
		if o.Kind != "kill" {
			continue
		}
		for k := vt.Uni(t, "after", 4); k > 0; k-- {
			x := MOp{Kind: one(t, "then", "fail", "fail", "fail", "drop", "restart", "reconcile"), C: o.C}
			if x.Kind == "fail" {
				x.Fault = genFault(t, 5)
			}
			ops = append(ops, x)
		}
	}
	p.Ops = ops
	return p
}

func runR09(t *testing.T, p MPlan) (c vt.Case, err error) {
	m := newMulti(p)
	bad := func(f string, x ...any) error {
		return fmt.Errorf("%s\nhistory: %s", fmt.Sprintf(f, x...), strings.Join(m.hist, "; "))
	}
	left := func(k MCluster) (r []string) {
		d := m.e.Dump()
		for _, id := range []string{"Secret " + SysNS + "/mysql-" + k.key2(), "Certificate " + SysNS + "/moco-agent-" + k.key2()} {
			if d[id] != nil {
				r = append(r, id)
			}
		}
		return
	}
	fin := func(x *mocov1beta2.MySQLCluster) bool {
		for _, f := range x.Finalizers {
			if f == "moco.cybozu.com/mysqlcluster" {
				return true
			}
		}
		return false
	}
	for _, o := range p.Ops {
		k := p.Clusters[o.C]
		x := m.e.Cluster(k.NS, k.Name)
		switch o.Kind {
		case "hold", "release":
			if x == nil || x.DeletionTimestamp != nil && o.Kind == "hold" {
				continue
			}
			var fs []string
			for _, f := range x.Finalizers {
				if f != "example.com/hold" {
					fs = append(fs, f)
				}
			}
			if o.Kind == "hold" {
				fs = append(fs, "example.com/hold")
			}
			x.Finalizers = fs
			must(m.e.Raw.Update(bg, x))
			m.note("%s %s", o.Kind, k.key())
		case "drop": // an administrator removes the certificate by hand
			cert := &unstructured.Unstructured{}
			cert.SetGroupVersionKind(certGVK)
			cert.SetNamespace(SysNS)
			cert.SetName("moco-agent-" + k.key2())
			if x != nil && x.DeletionTimestamp != nil {
				_ = m.e.Raw.Delete(bg, cert)
				m.note("certificate of %s removed by hand", k.key())
			}
		case "reconcile", "fail":
			before := map[int][]string{}
			for i := range p.Clusters {
				before[i] = left(p.Clusters[i])
			}
			calls := len(m.e.M.Calls)
			state := m.e.M.State[types.NamespacedName{Namespace: k.NS, Name: k.Name}]
			rerr := m.request(o.C, o.Fault)
			y := m.e.Cluster(k.NS, k.Name)
			for i := range p.Clusters {
				now := left(p.Clusters[i])
				if i == o.C && x != nil && x.DeletionTimestamp != nil && fin(x) {
					continue
				}
				for _, id := range before[i] {
					if !contains(now, id) {
						return c, bad("reconciling %s removes %s although %s is not being finalised", k.key(), id, p.Clusters[i].key())
					}
				}
			}
			mc := m.e.M.Calls[calls:]
			switch {
			case x == nil:
				if rerr == nil && m.e.M.State[types.NamespacedName{Namespace: k.NS, Name: k.Name}] != "" {
					return c, bad("maintenance of the absent %s goes on", k.key())
				}
			case x.DeletionTimestamp != nil && fin(x):
				c.Classes = append(c.Classes, "finalise")
				if rerr != nil {
					c.Classes = append(c.Classes, "finalise-fault-"+o.Fault.Mode)
				}
				c.Nontrivial = true
				if contains(mc, "update "+k.key()) {
					return c, bad("maintenance of %s is started while it is being deleted", k.key())
				}
				for _, w := range m.e.Writes {
					if w.MgrCalls <= calls && state != "" {
						return c, bad("%s before maintenance of %s is stopped", w, k.key())
					}
				}
				released := y == nil || !fin(y)
				if released {
					if l := left(k); len(l) > 0 {
						return c, bad("%s is released but %v remain", k.key(), l)
					}
					if m.e.M.State[types.NamespacedName{Namespace: k.NS, Name: k.Name}] != "" {
						return c, bad("%s is released but its maintenance goes on", k.key())
					}
					if y != nil && !contains(y.Finalizers, "example.com/hold") {
						return c, bad("finalizers of others are gone from %s", k.key())
					}
				} else if rerr == nil {
					return c, bad("%s is not released after a reconciliation without an error", k.key())
				}
			case x.DeletionTimestamp != nil: // held by another party
				if len(m.e.Writes) > 0 {
					return c, bad("%s on %s, which is already released", m.e.Writes[0], k.key())
				}
				if contains(mc, "update "+k.key()) {
					return c, bad("maintenance of %s is started while it is being deleted", k.key())
				}
			default:
				if y == nil || !fin(y) {
					return c, bad("%s lost its finalizer while it is not being deleted", k.key())
				}
			}
			m.gc()
		default:
			m.step(o)
		}
	}
	// without further failures every deletion completes
	for i, k := range p.Clusters {
		x := m.e.Cluster(k.NS, k.Name)
		if x == nil {
			if l := left(k); len(l) > 0 && m.gen[i] > 0 {
				return c, bad("%s is gone but %v remain", k.key(), l)
			}
			continue
		}
		if x.DeletionTimestamp == nil || contains(x.Finalizers, "example.com/hold") {
			continue
		}
		if err := m.request(i, Fault{}); err != nil {
			return c, bad("finalising %s fails: %v", k.key(), err)
		}
		if m.e.Cluster(k.NS, k.Name) != nil || len(left(k)) > 0 {
			return c, bad("the deletion of %s does not complete", k.key())
		}
		for _, n := range []string{"moco_cluster_clustering_stopped", "moco_cluster_reconciliation_stopped"} {
			if _, ok := Metric(n, k.NS, k.Name); ok {
				return c, bad("metric %s of the deleted %s remains", n, k.key())
			}
		}
	}
	return c, nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func TestR09(t *testing.T) { vt.Run(t, "R09", genR09, runR09) }

func genR10(t *rapid.T) MPlan {
	return genMulti(t, 2, 20, []string{"reconcile", "reconcile", "reconcile", "reconcile", "fail", "mutate", "restart", "ann", "ann", "ann", "ann", "tick", "tick", "damage"}, false)
}

func cond(x *mocov1beta2.MySQLCluster, t string) metav1.ConditionStatus {
	if c := meta.FindStatusCondition(x.Status.Conditions, t); c != nil {
		return c.Status
	}
	return ""
}

func runR10(t *testing.T, p MPlan) (c vt.Case, err error) {
	m := newMulti(p)
	bad := func(f string, x ...any) error {
		return fmt.Errorf("%s\nhistory: %s", fmt.Sprintf(f, x...), strings.Join(m.hist, "; "))
	}
	stops := 0
	for _, o := range p.Ops {
		k := p.Clusters[o.C]
		nn := types.NamespacedName{Namespace: k.NS, Name: k.Name}
		switch o.Kind {
		case "tick": // maintenance records that it works
			if m.e.M.State[nn] != "run" {
				continue
			}
			x := m.e.Cluster(k.NS, k.Name)
			if x.Annotations["moco.cybozu.com/clustering-stopped"] == "true" {
				continue
			}
			for _, n := range []string{"Available", "Healthy", "ClusteringActive", "Initialized"} {
				meta.SetStatusCondition(&x.Status.Conditions, metav1.Condition{Type: n, Status: "True", Reason: "OK"})
			}
			must(m.e.Raw.Status().Update(bg, x))
			m.note("maintenance of %s updates the status", k.key())
		case "damage":
			ids := owned(m.e.Dump(), k.NS, k.Name)
			if len(ids) == 0 {
				continue
			}
			id := ids[o.I%len(ids)]
			ob, _ := m.e.load(id)
			must(m.e.Raw.Delete(bg, ob))
			m.note("%s removed", id)
		case "reconcile", "fail":
			x := m.e.Cluster(k.NS, k.Name)
			rs, cs := x.Annotations["moco.cybozu.com/reconciliation-stopped"] == "true", x.Annotations["moco.cybozu.com/clustering-stopped"] == "true"
			if rs || cs {
				stops++
			}
			before := m.e.Dump()
			rerr := m.request(o.C, o.Fault)
			if rs {
				c.Classes = append(c.Classes, "reconciliation-stopped")
				for _, w := range m.e.Writes {
					if w.Kind != "MySQLCluster" {
						return c, bad("%s although the reconciliation of %s is stopped", w, k.key())
					}
				}
				d := diffDumps(before, m.e.Dump(), func(id string, _ obj) bool { return strings.HasPrefix(id, "MySQLCluster ") })
				if len(d) > 0 {
					return c, bad("objects change although the reconciliation of %s is stopped: %s", k.key(), strings.Join(d, "\n"))
				}
				var sd []string
				id := "MySQLCluster " + k.key()
				diff("", before[id]["spec"], m.e.Dump()[id]["spec"], &sd)
				diff("", before[id]["metadata"], m.e.Dump()[id]["metadata"], &sd)
				if len(sd) > 0 {
					return c, bad("the reconciliation of the stopped %s changes it: %s", k.key(), strings.Join(sd, "\n"))
				}
			}
			if cs {
				c.Classes = append(c.Classes, "clustering-stopped")
				for _, s := range m.e.M.Calls {
					_ = s
				}
			}
			if rerr != nil {
				continue
			}
			y := m.e.Cluster(k.NS, k.Name)
			if want := map[bool]metav1.ConditionStatus{true: "False", false: "True"}[rs]; cond(y, "ReconciliationActive") != want {
				return c, bad("condition ReconciliationActive of %s is %q, want %q", k.key(), cond(y, "ReconciliationActive"), want)
			}
			if !rs && cond(y, "ReconcileSuccess") != "True" {
				return c, bad("condition ReconcileSuccess of %s is %q", k.key(), cond(y, "ReconcileSuccess"))
			}
			for n, want := range map[string]bool{"moco_cluster_clustering_stopped": cs, "moco_cluster_reconciliation_stopped": rs} {
				v, ok := Metric(n, k.NS, k.Name)
				if !ok || (v == 1) != want || v != 0 && v != 1 {
					return c, bad("metric %s of %s is %v (present %v), want %v", n, k.key(), v, ok, want)
				}
			}
			st := m.e.M.State[nn]
			if cs {
				if st == "run" {
					return c, bad("maintenance of %s runs although it is stopped", k.key())
				}
				if cond(y, "ClusteringActive") != "False" {
					return c, bad("condition ClusteringActive of %s is %q while it is stopped", k.key(), cond(y, "ClusteringActive"))
				}
				for _, n := range []string{"Available", "Healthy"} {
					if v := cond(y, n); v != "" && v != "Unknown" {
						return c, bad("condition %s of %s is %q while nobody maintains it", n, k.key(), v)
					}
				}
			} else if st != "run" {
				return c, bad("maintenance of %s does not run", k.key())
			}
		default:
			m.step(o)
		}
	}
	c.Nontrivial = stops > 0
	return c, nil
}

func TestR10(t *testing.T) { vt.Run(t, "R10", genR10, runR10) }

// R11Ref is an owner reference.
type R11Ref struct {
	API  string `json:"api"`
	Kind string `json:"kind"`
	Name string `json:"name"`
	Ctrl bool   `json:"ctrl"`
}

// R11Plan is a set of StatefulSets and pods.
type R11Plan struct {
	Sets []struct {
		NS   string   `json:"ns"`
		Name string   `json:"name"`
		Refs []R11Ref `json:"refs"`
	} `json:"sets"`
	Pods []struct {
		NS       string   `json:"ns"`
		Name     string   `json:"name"`
		Refs     []R11Ref `json:"refs"`
		Demote   string   `json:"demote,omitempty"`
		Deleting bool     `json:"deleting,omitempty"`
		Fault    Fault    `json:"fault,omitempty"`
	} `json:"pods"`
}

func genR11(t *rapid.T) R11Plan {
	var p R11Plan
	names := []string{"moco-a", "moco-b", "web"}
	for n := 1 + vt.Uni(t, "sets", 6); n > 0; n-- {
		var s struct {
			NS   string   `json:"ns"`
			Name string   `json:"name"`
			Refs []R11Ref `json:"refs"`
		}
		s.NS, s.Name = one(t, "ns", "db", "db2"), one(t, "name", names...)
		dup := false
		for _, x := range p.Sets {
			dup = dup || x.NS == s.NS && x.Name == s.Name
		}
		if dup {
			continue
		}
		for k := []int{1, 1, 1, 2, 2, 0}[vt.Uni(t, "refs", 6)]; k > 0; k-- {
			r := R11Ref{API: one(t, "api", "moco.cybozu.com/v1beta2", "moco.cybozu.com/v1beta2", "moco.cybozu.com/v1beta2", "moco.cybozu.com/v1beta2", "moco.cybozu.com/v1beta2", "moco.cybozu.com/v1beta2", "moco.cybozu.com/v1beta1", "other.example.com/v1", "apps/v1"),
				Kind: one(t, "kind", "MySQLCluster", "MySQLCluster", "MySQLCluster", "MySQLCluster", "MySQLCluster", "MySQLCluster", "BackupPolicy", "StatefulSet"), Name: one(t, "owner", "a", "b", "c"), Ctrl: len(s.Refs) == 0 || !s.Refs[0].Ctrl && yes(t, "ctrl", 2)}
			if len(s.Refs) == 0 && yes(t, "noctrl", 4) {
				r.Ctrl = false
			}
			s.Refs = append(s.Refs, r)
		}
		p.Sets = append(p.Sets, s)
	}
	for n := 1 + vt.Uni(t, "pods", 6); n > 0; n-- {
		var s struct {
			NS       string   `json:"ns"`
			Name     string   `json:"name"`
			Refs     []R11Ref `json:"refs"`
			Demote   string   `json:"demote,omitempty"`
			Deleting bool     `json:"deleting,omitempty"`
			Fault    Fault    `json:"fault,omitempty"`
		}
		s.NS, s.Name = one(t, "pns", "db", "db2"), fmt.Sprintf("p%d", len(p.Pods))
		for k := []int{1, 1, 1, 2, 2, 0}[vt.Uni(t, "prefs", 6)]; k > 0; k-- {
			r := R11Ref{API: one(t, "papi", "apps/v1", "apps/v1", "apps/v1", "apps/v1", "apps/v1", "apps/v1", "apps/v1", "batch/v1", "moco.cybozu.com/v1beta2", "apps.example.com/v1"),
				Kind: one(t, "pkind", "StatefulSet", "StatefulSet", "StatefulSet", "StatefulSet", "StatefulSet", "StatefulSet", "StatefulSet", "ReplicaSet", "MySQLCluster"), Name: one(t, "powner", "moco-a", "moco-b", "web", "gone"), Ctrl: len(s.Refs) == 0 || !s.Refs[0].Ctrl && yes(t, "pctrl", 2)}
			if len(s.Refs) == 0 && yes(t, "pnoctrl", 4) {
				r.Ctrl = false
			}
			s.Refs = append(s.Refs, r)
		}
		s.Demote = one(t, "demote", "", "true", "true", "false", "True")
		s.Deleting = yes(t, "deleting", 2)
		if yes(t, "fault", 10) {
			s.Fault = Fault{At: 1 + vt.Uni(t, "at", 2), Mode: "before"}
		}
		p.Pods = append(p.Pods, s)
	}
	return p
}

func refs(l []R11Ref) (r []metav1.OwnerReference) {
	for _, x := range l {
		b := x.Ctrl
		r = append(r, metav1.OwnerReference{APIVersion: x.API, Kind: x.Kind, Name: x.Name, UID: types.UID("u-" + x.Name), Controller: &b})
	}
	return
}

func runR11(t *testing.T, p R11Plan) (c vt.Case, err error) {
	e := NewEnv()
	for _, s := range p.Sets {
		x := &appsv1.StatefulSet{}
		x.Namespace, x.Name, x.OwnerReferences = s.NS, s.Name, refs(s.Refs)
		must(e.Raw.Create(bg, x))
	}
	w := &controllers.PodWatcher{Client: e.C, ClusterManager: e.M, MaxConcurrentReconciles: 1}
	for _, s := range p.Pods {
		x := &corev1.Pod{}
		x.Namespace, x.Name, x.OwnerReferences = s.NS, s.Name, refs(s.Refs)
		if s.Demote != "" {
			x.Annotations = map[string]string{"moco.cybozu.com/demote": s.Demote}
		}
		x.Finalizers = []string{"example.com/x"}
		must(e.Raw.Create(bg, x))
		if s.Deleting {
			must(e.Raw.Delete(bg, x))
		}
		want := ""
		if s.Deleting || s.Demote == "true" {
			for _, r := range s.Refs {
				if !r.Ctrl || r.Kind != "StatefulSet" || !strings.HasPrefix(r.API, "apps/") {
					continue
				}
				for _, st := range p.Sets {
					if st.NS != s.NS || st.Name != r.Name {
						continue
					}
					for _, q := range st.Refs {
						if q.Ctrl && q.Kind == "MySQLCluster" && strings.HasPrefix(q.API, "moco.cybozu.com/") {
							want = s.NS + "/" + q.Name
						}
					}
				}
			}
		}
		e.calls, e.dead, e.fault = 0, false, s.Fault
		e.Writes = nil
		n := len(e.M.Calls)
		_, rerr := w.Reconcile(context.Background(), ctrl.Request{NamespacedName: types.NamespacedName{Namespace: s.NS, Name: s.Name}})
		hit := e.fault.At != 0 && e.calls >= e.fault.At
		e.fault = Fault{}
		got := e.M.Calls[n:]
		if len(e.Writes) > 0 {
			return c, fmt.Errorf("the pod watcher writes: %s", e.Writes[0])
		}
		if hit {
			if rerr == nil && want != "" && !contains(got, "kick "+want) {
				return c, fmt.Errorf("pod %s/%s: an API error is ignored and %s is not woken up", s.NS, s.Name, want)
			}
			c.Classes = append(c.Classes, "fault")
			if want == "" && len(got) > 0 {
				return c, fmt.Errorf("pod %s/%s: unexpected %v", s.NS, s.Name, got)
			}
			continue
		}
		if rerr != nil {
			return c, fmt.Errorf("pod %s/%s: error %v", s.NS, s.Name, rerr)
		}
		if want == "" {
			if len(got) > 0 {
				return c, fmt.Errorf("pod %s/%s (%+v) wakes up %v", s.NS, s.Name, s, got)
			}
			c.Classes = append(c.Classes, "ignored")
			continue
		}
		c.Nontrivial = true
		c.Classes = append(c.Classes, "woken")
		if len(got) != 1 || got[0] != "kick "+want {
			return c, fmt.Errorf("pod %s/%s (%+v): got %v, want kick %s", s.NS, s.Name, s, got, want)
		}
	}
	return c, nil
}

func TestR11(t *testing.T) { vt.Run(t, "R11", genR11, runR11) }

var _ = time.Now
