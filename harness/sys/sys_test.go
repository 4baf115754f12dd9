package sys

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/cybozu-go/moco"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	ctlcmd "github.com/cybozu-go/moco/cmd/moco-controller/cmd"
	"github.com/go-sql-driver/mysql"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	coordv1 "k8s.io/api/coordination/v1"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/meta"
	"pgregory.net/rapid"

	"verif/internal/vt"
)

var discard = log.New(io.Discard, "", 0)

// TestController is not a test: it is the controller process of a case.
func TestController(t *testing.T) {
	if os.Getenv("VERIF_SYS") == "" {
		t.Skip()
	}
	var args []string
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_SYS")), &args); err != nil {
		os.Exit(98)
	}
	time.AfterFunc(400*time.Second, func() { os.Exit(97) })
	var d net.Dialer
	mysql.RegisterDialContext("tcp", func(ctx context.Context, addr string) (net.Conn, error) {
		c, err := d.DialContext(ctx, "unix", os.Getenv("VERIF_SQL"))
		if err != nil {
			return nil, err
		}
		if _, err := fmt.Fprintf(c, "%s\n", addr); err != nil {
			return nil, err
		}
		b := make([]byte, 1)
		if _, err := io.ReadFull(c, b); err != nil {
			_ = c.Close()
			return nil, fmt.Errorf("dial tcp %s: connection refused", addr)
		}
		return c, nil
	})
	os.Args = append([]string{"moco-controller"}, args...)
	ctlcmd.Execute()
	os.Exit(0)
}

// Cl is a cluster of the plan.
type Cl struct {
	NS, Name string
	Replicas int
	Exporter bool
	NoLog    bool // slow query log container disabled
	Policy   bool
	Labels   map[string]string // of the volume claim template
	Anns     map[string]string
}

// Op is something that happens to the running system.
type Op struct {
	K  string
	C  int // cluster
	V  string
	N  int
	MS int // pause before
}

// Plan is a case.
type Plan struct {
	SysNS                           string
	Agent, Backup, Fluent, Exporter string
	NoSec                           bool
	Hist                            int
	PVCAnn, PVCLab                  []string
	IntervalMS, PartMS, Conc, QPS   int
	LeaderID                        string
	Clusters                        []Cl
	Ops                             []Op
}

func gen(t *rapid.T) Plan {
	pick := func(n string, l ...string) string { return l[vt.Uni(t, n, len(l))] }
	p := Plan{SysNS: pick("sysns", "moco-system", "ops"), Agent: pick("agent", "", "reg/agent:1"), Backup: pick("backup", "", "reg/backup:2"), Fluent: pick("fluent", "", "reg/fluent:3"), Exporter: pick("exporter", "", "reg/exp:4"),
		NoSec: vt.Uni(t, "nosec", 3) == 0, Hist: []int{0, 1, 2, 3}[vt.Uni(t, "hist", 4)], IntervalMS: []int{300, 700, 2000}[vt.Uni(t, "ivl", 3)], PartMS: []int{0, 0, 800}[vt.Uni(t, "part", 3)],
		Conc: []int{0, 1, 4}[vt.Uni(t, "conc", 3)], QPS: []int{100, 200}[vt.Uni(t, "qps", 2)], LeaderID: pick("leader", "", "moco2")}
	keys := []string{"k1", "k2", "example.com/k3"}
	for _, k := range keys {
		if vt.Uni(t, "ann-"+k, 2) == 0 {
			p.PVCAnn = append(p.PVCAnn, k)
		}
		if vt.Uni(t, "lab-"+k, 2) == 0 {
			p.PVCLab = append(p.PVCLab, k)
		}
	}
	n := 1 + vt.Uni(t, "clusters", 2)
	for i := 0; i < n; i++ {
		c := Cl{NS: []string{"app", "moco-system", "db"}[vt.Uni(t, "ns", 3)], Name: []string{"a", "b-1"}[i], Replicas: []int{1, 3, 3, 5}[vt.Uni(t, "n", 4)], Exporter: vt.Uni(t, "exp", 2) == 0, NoLog: vt.Uni(t, "nolog", 4) == 0, Policy: vt.Uni(t, "pol", 2) == 0,
			Labels: map[string]string{}, Anns: map[string]string{}}
		for _, k := range keys {
			if vt.Uni(t, "tl", 2) == 0 {
				c.Labels[k] = "v0"
			}
			if vt.Uni(t, "ta", 2) == 0 {
				c.Anns[k] = "v0"
			}
		}
		p.Clusters = append(p.Clusters, c)
	}
	for k := 1 + vt.Uni(t, "ops", 4); k > 0; k-- {
		p.Ops = append(p.Ops, Op{K: pick("op", "demote", "demote", "crash", "delete-pod", "conf", "meta", "restart", "restart", "invalid", "policy", "template", "down", "second"), C: vt.Uni(t, "c", n), V: pick("v", "v1", "v2"), N: 1 + vt.Uni(t, "k", 4), MS: []int{0, 0, 50, 400}[vt.Uni(t, "ms", 4)]})
	}
	return p
}

func (p Plan) flags() []string {
	var f []string
	add := func(k, v string) {
		if v != "" {
			f = append(f, "--"+k+"="+v)
		}
	}
	add("agent-image", p.Agent)
	add("backup-image", p.Backup)
	add("fluent-bit-image", p.Fluent)
	add("mysqld-exporter-image", p.Exporter)
	if p.NoSec {
		add("disable-default-security-context", "true")
	}
	if p.Hist > 0 {
		add("mysql-configmap-history-limit", fmt.Sprint(p.Hist))
	}
	add("pvc-sync-annotation-keys", strings.Join(p.PVCAnn, ","))
	add("pvc-sync-label-keys", strings.Join(p.PVCLab, ","))
	add("check-interval", fmt.Sprintf("%dms", p.IntervalMS))
	if p.PartMS > 0 {
		add("partition-update-interval", fmt.Sprintf("%dms", p.PartMS))
	}
	if p.Conc > 0 {
		add("max-concurrent-reconciles", fmt.Sprint(p.Conc))
	}
	add("apiserver-qps-throttle", fmt.Sprint(p.QPS))
	add("leader-election-id", p.LeaderID)
	return f
}

const patience = 60 * time.Second

var errEnv = errors.New("environment")

// wait polls until f has nothing to complain about.
func (s *Sys) wait(what string, f func() string) error {
	end := time.Now().Add(patience)
	for {
		last := f()
		if last == "" {
			return nil
		}
		if !s.running() {
			if strings.Contains(s.Log(), "address already in use") {
				return fmt.Errorf("%w: port taken", vt.ErrInconclusive)
			}
			if l := s.Log(); strings.Contains(l, "leader election lost") || strings.Contains(l, "failed to renew lease") {
				return fmt.Errorf("%w: too slow to keep the lease", vt.ErrInconclusive)
			}
			return fmt.Errorf("%s: the controller is gone: %s\n%s", what, last, s.Log())
		}
		if time.Now().After(end) {
			return fmt.Errorf("%s: not within %v: %s\n%s", what, patience, last, s.Log())
		}
		time.Sleep(30 * time.Millisecond)
	}
}

// running tells whether the controller process runs (a zombie does not).
func (s *Sys) running() bool {
	if s.proc == nil {
		return false
	}
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", s.proc.Process.Pid))
	if err != nil {
		return false
	}
	f := strings.Fields(string(b[strings.LastIndexByte(string(b), ')')+1:]))
	return len(f) > 0 && f[0] != "Z"
}

func (c Cl) object() *mocov1beta2.MySQLCluster {
	tmpl := obj{"spec": obj{"containers": []any{obj{"name": "mysqld", "image": "mysql:8.4.1"}}}}
	spec := obj{"logRotationSchedule": "*/5 * * * *", "maxDelaySeconds": 60, "startupWaitSeconds": 3600, "replicas": c.Replicas, "podTemplate": tmpl,
		"volumeClaimTemplates": []any{obj{"metadata": obj{"name": "mysql-data", "labels": c.Labels, "annotations": c.Anns}, "spec": obj{"accessModes": []any{"ReadWriteOnce"}, "resources": obj{"requests": obj{"storage": "1Gi"}}}}}}
	if c.Exporter {
		spec["collectors"] = []any{"engine_innodb_status"}
	}
	if c.NoLog {
		spec["disableSlowQueryLogContainer"] = true
	}
	if c.Policy {
		spec["backupPolicyName"] = "pol"
	}
	x := &mocov1beta2.MySQLCluster{}
	data, _ := json.Marshal(spec)
	must(json.Unmarshal(data, &x.Spec))
	x.Namespace, x.Name = c.NS, c.Name
	return x
}

func policy(ns, name, sched string) *mocov1beta2.BackupPolicy {
	x := &mocov1beta2.BackupPolicy{}
	data := `{"schedule":"` + sched + `","concurrencyPolicy":"Allow","startingDeadlineSeconds":null,"successfulJobsHistoryLimit":3,"failedJobsHistoryLimit":1,"jobConfig":{"serviceAccountName":"sa","threads":4,"cpu":"4","memory":"4Gi","workVolume":{"emptyDir":{}},"bucketConfig":{"bucketName":"bkt","backendType":"s3"}}}`
	must(json.Unmarshal([]byte(data), &x.Spec))
	x.Namespace, x.Name = ns, name
	return x
}

// settled says what is missing for the cluster to be healthy.
func (s *Sys) settled(c Cl) string {
	var cl mocov1beta2.MySQLCluster
	if !s.api.Get(c.NS, c.Name, &cl) {
		return "no cluster"
	}
	if cl.Status.ReconcileInfo.Generation != cl.Generation {
		return "generation not reconciled yet"
	}
	var sts appsv1.StatefulSet
	if !s.api.Get(c.NS, "moco-"+c.Name, &sts) {
		return "no StatefulSet"
	}
	for i := 0; i < c.Replicas; i++ {
		var pod corev1.Pod
		if !s.api.Get(c.NS, fmt.Sprintf("moco-%s-%d", c.Name, i), &pod) || pod.Labels["controller-revision-hash"] != hash(sts.Spec.Template) {
			return fmt.Sprintf("pod %d is not of the current template", i)
		}
	}
	s.net.Mu.Lock()
	defer s.net.Mu.Unlock()
	srv := s.servers(c.NS, c.Name, c.Replicas)
	if len(srv) < c.Replicas {
		return "instances missing"
	}
	pi := cl.Status.CurrentPrimaryIndex
	if pi < 0 || pi >= len(srv) {
		return fmt.Sprintf("primary is %d", pi)
	}
	for i, x := range srv {
		if !x.Up {
			return fmt.Sprintf("instance %d is down", i)
		}
		if i == pi {
			if x.ReadOnly || x.SuperRO {
				return "the primary is read-only"
			}
			if c.Replicas > 1 && (!x.SSMaster || x.SSWait != c.Replicas/2) {
				return fmt.Sprintf("semi-sync of the primary: %v %d", x.SSMaster, x.SSWait)
			}
			continue
		}
		if !x.SuperRO {
			return fmt.Sprintf("replica %d is not super-read-only", i)
		}
		if x.Src == nil || x.Src.Host != srv[pi].Host || x.IOState() != "Yes" {
			return fmt.Sprintf("replica %d does not replicate", i)
		}
	}
	for _, typ := range []string{mocov1beta2.ConditionInitialized, mocov1beta2.ConditionAvailable, mocov1beta2.ConditionHealthy, mocov1beta2.ConditionStatefulSetReady, mocov1beta2.ConditionReconcileSuccess} {
		if !meta.IsStatusConditionTrue(cl.Status.Conditions, typ) {
			return "condition " + typ + " is not true"
		}
	}
	for i := range srv {
		var pod corev1.Pod
		if !s.api.Get(c.NS, fmt.Sprintf("moco-%s-%d", c.Name, i), &pod) {
			return "pod missing"
		}
		want := "replica"
		if i == pi {
			want = "primary"
		}
		if pod.Labels["moco.cybozu.com/role"] != want {
			return fmt.Sprintf("pod %d has role %q", i, pod.Labels["moco.cybozu.com/role"])
		}
		if _, ok := pod.Annotations["moco.cybozu.com/demote"]; ok {
			return "the demote annotation is still there"
		}
	}
	return ""
}

// write makes a client's write, repeated until one is acknowledged.
func (s *Sys) write(c Cl) error {
	return s.wait("write to the primary of "+c.NS+"/"+c.Name, func() string {
		var cl mocov1beta2.MySQLCluster
		s.api.Get(c.NS, c.Name, &cl)
		s.net.Mu.Lock()
		srv := s.servers(c.NS, c.Name, c.Replicas)
		if cl.Status.CurrentPrimaryIndex >= len(srv) {
			s.net.Mu.Unlock()
			return "no primary"
		}
		x := srv[cl.Status.CurrentPrimaryIndex]
		w := x.ClientWrite(x.NewClient("app", "10.9.9.9:1"))
		s.net.Mu.Unlock()
		for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
			s.net.Mu.Lock()
			done, acked, e := w.Done, w.Acked, w.Err
			s.net.Mu.Unlock()
			if acked {
				s.acked = append(s.acked, w.Txn.Row)
				return ""
			}
			if done {
				return fmt.Sprint(e)
			}
		}
		return "not acknowledged"
	})
}

func container(l []corev1.Container, name string) *corev1.Container {
	for i := range l {
		if l[i].Name == name {
			return &l[i]
		}
	}
	return nil
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

// wired compares the objects of a cluster with the flags.
func (s *Sys) wired(p Plan, c Cl) string {
	var sts appsv1.StatefulSet
	if !s.api.Get(c.NS, "moco-"+c.Name, &sts) {
		return "no StatefulSet"
	}
	ps := sts.Spec.Template.Spec
	img := func(l []corev1.Container, name, want string) string {
		x := container(l, name)
		switch {
		case want == "" && x != nil:
			return "unexpected container " + name
		case want == "":
			return ""
		case x == nil:
			return "no container " + name
		case strings.HasSuffix(want, "*") && !strings.HasPrefix(x.Image, strings.TrimSuffix(want, "*")), !strings.HasSuffix(want, "*") && x.Image != want:
			return "container " + name + " has image " + x.Image + ", not " + want
		}
		return ""
	}
	exp, slow := or(p.Exporter, moco.ExporterImage), or(p.Fluent, moco.FluentBitImage)
	if !c.Exporter {
		exp = ""
	}
	if c.NoLog {
		slow = ""
	}
	agent := or(p.Agent, "ghcr.io/cybozu-go/moco-agent:*")
	for _, e := range []string{img(ps.Containers, "agent", agent), img(ps.Containers, "mysqld-exporter", exp), img(ps.Containers, "slow-log", slow), img(ps.InitContainers, "copy-moco-init", agent)} {
		if e != "" {
			return e
		}
	}
	ag := container(ps.Containers, "agent")
	if has := ag.SecurityContext != nil && ag.SecurityContext.RunAsUser != nil; has == p.NoSec {
		return fmt.Sprintf("default security context: %v, flag disable=%v", has, p.NoSec)
	}
	var cj batchv1.CronJob
	has := s.api.Get(c.NS, "moco-backup-"+c.Name, &cj)
	if has != c.Policy {
		return fmt.Sprintf("backup CronJob exists: %v", has)
	}
	if has {
		if im := cj.Spec.JobTemplate.Spec.Template.Spec.Containers[0].Image; im != or(p.Backup, "ghcr.io/cybozu-go/moco-backup:"+moco.Version) {
			return "backup image " + im
		}
	}
	if !s.api.Get(p.SysNS, "mysql-"+c.NS+"."+c.Name, &corev1.Secret{}) {
		return "no controller secret in " + p.SysNS
	}
	a := s.api
	if _, err := a.get(byKind("Certificate"), p.SysNS, "moco-agent-"+c.NS+"."+c.Name); err != nil {
		return "no certificate in " + p.SysNS
	}
	if id := or(p.LeaderID, "moco"); !s.api.Get(p.SysNS, id, &coordv1.Lease{}) {
		return "no lease " + id
	}
	return ""
}

// claims compares the volume claims with the template: values of synced keys follow it, nothing else does.
func (s *Sys) claims(p Plan, c Cl, labels, anns map[string]string, born map[string]map[string]string) string {
	for i := 0; i < c.Replicas; i++ {
		var v corev1.PersistentVolumeClaim
		n := fmt.Sprintf("mysql-data-moco-%s-%d", c.Name, i)
		if !s.api.Get(c.NS, n, &v) {
			return "no claim " + n
		}
		for _, k := range []string{"k1", "k2", "example.com/k3"} {
			for _, x := range []struct {
				what      string
				keys      []string
				tmpl, cur map[string]string
			}{{"label", p.PVCLab, labels, v.Labels}, {"annotation", p.PVCAnn, anns, v.Annotations}} {
				want := born[x.what][k]
				if t, ok := x.tmpl[k]; ok && has(x.keys, k) {
					want = t
				}
				if x.cur[k] != want {
					return fmt.Sprintf("%s: %s %s is %q, not %q", n, x.what, k, x.cur[k], want)
				}
			}
		}
	}
	return ""
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func run(t *testing.T, p Plan) (c vt.Case, err error) {
	seen := map[string]bool{}
	cls := map[string]bool{}
	var cs []Cl
	for _, x := range p.Clusters {
		if !seen[x.NS+"/"+x.Name] {
			seen[x.NS+"/"+x.Name] = true
			cs = append(cs, x)
		}
	}
	p.Clusters = cs
	s := NewSys()
	defer s.Close()
	defer func() {
		for k := range cls {
			c.Classes = append(c.Classes, k)
		}
		sort.Strings(c.Classes)
	}()
	start := func() error {
		s.Start(p.SysNS, p.flags())
		return s.wait("start", func() string {
			if code, b := s.httpGet(s.Ports[1], "/readyz"); code != 200 {
				return "readyz: " + b
			}
			if code, b := s.httpGet(s.Ports[1], "/healthz"); code != 200 {
				return "healthz: " + b
			}
			c, err := net.DialTimeout("tcp", "127.0.0.1:"+s.Ports[2], time.Second)
			if err != nil {
				return err.Error()
			}
			_ = c.Close()
			return ""
		})
	}
	if err := start(); err != nil {
		return c, err
	}
	// admission needs the caches, which the webhook server does not wait for
	user := func(what string, f func() error) error {
		return s.wait(what, func() string {
			if err := f(); err != nil {
				return err.Error()
			}
			return ""
		})
	}
	born := map[string]map[string]map[string]string{}
	for _, x := range cs {
		if x.Policy && !s.api.Get(x.NS, "pol", &mocov1beta2.BackupPolicy{}) {
			if err := user("create policy", func() error { return s.api.Create(policy(x.NS, "pol", "@daily")) }); err != nil {
				return c, err
			}
		}
		if err := user("create cluster", func() error { return s.api.Create(x.object()) }); err != nil {
			return c, err
		}
		b := map[string]map[string]string{"label": {}, "annotation": {}}
		for k, v := range x.Labels {
			b["label"][k] = v
		}
		for k, v := range x.Anns {
			b["annotation"][k] = v
		}
		born[x.NS+"/"+x.Name] = b
	}
	check := func(when string) error {
		for _, x := range cs {
			if err := s.wait(when+": "+x.NS+"/"+x.Name+" becomes healthy", func() string { return s.settled(x) }); err != nil {
				return err
			}
			if err := s.wait(when+": objects of "+x.NS+"/"+x.Name, func() string { return s.wired(p, x) }); err != nil {
				return err
			}
			if err := s.wait(when+": claims of "+x.NS+"/"+x.Name, func() string { return s.claims(p, x, x.Labels, x.Anns, born[x.NS+"/"+x.Name]) }); err != nil {
				return err
			}
		}
		return nil
	}
	if err := check("creation"); err != nil {
		return c, err
	}
	cls[fmt.Sprintf("clusters-%d", len(cs))] = true
	for _, x := range cs {
		if err := s.write(x); err != nil {
			return c, err
		}
	}
	rows := map[string]int{}
	for oi, o := range p.Ops {
		x := &cs[o.C%len(cs)]
		time.Sleep(time.Duration(o.MS) * time.Millisecond)
		var cl mocov1beta2.MySQLCluster
		s.api.Get(x.NS, x.Name, &cl)
		pi := cl.Status.CurrentPrimaryIndex
		pod := fmt.Sprintf("moco-%s-%d", x.Name, pi)
		when := fmt.Sprintf("op %d (%s)", oi, o.K)
		switch o.K {
		case "demote", "delete-pod":
			if x.Replicas == 1 {
				continue
			}
			if o.K == "demote" {
				_ = Edit(s.api, &corev1.Pod{}, x.NS, pod, func(q *corev1.Pod) bool {
					if q.Annotations == nil {
						q.Annotations = map[string]string{}
					}
					q.Annotations["moco.cybozu.com/demote"] = "true"
					return true
				})
			} else {
				var q corev1.Pod
				s.api.Get(x.NS, pod, &q)
				_ = s.api.Remove(&q)
			}
			if err := s.wait(when+": another primary", func() string {
				s.api.Get(x.NS, x.Name, &cl)
				if cl.Status.CurrentPrimaryIndex == pi {
					return "still the same primary"
				}
				return ""
			}); err != nil {
				return c, err
			}
		case "crash":
			key := x.NS + "/" + pod
			s.net.Mu.Lock()
			s.inst[key].Crash()
			s.net.Mu.Unlock()
			d := 300 * time.Millisecond
			if x.Replicas > 1 && o.N > 2 {
				d = time.Hour
			}
			// the kubelet goroutine owns the map; stop it by holding the API
			s.api.wmu.Lock()
			s.holdUp[key] = time.Now().Add(d)
			s.api.wmu.Unlock()
			if d == time.Hour {
				if err := s.wait(when+": failover", func() string {
					s.api.Get(x.NS, x.Name, &cl)
					if cl.Status.CurrentPrimaryIndex == pi {
						return "no failover from a dead primary"
					}
					return ""
				}); err != nil {
					return c, err
				}
				cls["failover"] = true
				s.api.wmu.Lock()
				s.holdUp[key] = time.Now()
				s.api.wmu.Unlock()
			}
		case "conf":
			// each new configuration makes a new ConfigMap; old ones are kept up to the limit
			for k := 0; k < o.N; k++ {
				rows[x.NS+"/"+x.Name]++
				name := fmt.Sprintf("conf-%s-%d", x.Name, rows[x.NS+"/"+x.Name])
				cm := &corev1.ConfigMap{Data: map[string]string{"long_query_time": fmt.Sprint(100 + rows[x.NS+"/"+x.Name])}}
				cm.Namespace, cm.Name = x.NS, name
				must(s.api.Create(cm))
				if err := user(when, func() error {
					return Edit(s.api, &mocov1beta2.MySQLCluster{}, x.NS, x.Name, func(m *mocov1beta2.MySQLCluster) bool { m.Spec.MySQLConfigMapName = &name; return true })
				}); err != nil {
					return c, err
				}
				if err := s.wait(when+": configuration", func() string {
					var l corev1.ConfigMapList
					s.api.List(x.NS, &l)
					n := 0
					found := false
					for _, m := range l.Items {
						for _, v := range m.Data {
							if strings.Contains(v, "[mysqld]") && m.Labels["app.kubernetes.io/instance"] == x.Name {
								n++
								if regexp.MustCompile(`long_query_time\s*=\s*` + fmt.Sprint(100+rows[x.NS+"/"+x.Name]) + `\s`).MatchString(v) {
									found = true
								}
							}
						}
					}
					if !found {
						return "the new configuration is not there"
					}
					lim := p.Hist
					if lim == 0 {
						lim = 10
					}
					// those in use stay for longer
					used := x.Replicas + 1
					if o.V == "v2" {
						used = 1
					}
					if want := min(lim, rows[x.NS+"/"+x.Name]+1); n < want || n > want+used {
						return fmt.Sprintf("%d configurations are kept, not %d", n, want)
					}
					return ""
				}); err != nil {
					return c, err
				}
				if o.V == "v2" {
					if err := s.wait(when+": roll-out", func() string { return s.settled(*x) }); err != nil {
						return c, err
					}
				}
			}
		case "meta":
			lab, ann := map[string]string{}, map[string]string{}
			for k := range x.Labels {
				lab[k] = o.V
			}
			for k := range x.Anns {
				ann[k] = o.V
			}
			if err := user(when, func() error {
				return Edit(s.api, &mocov1beta2.MySQLCluster{}, x.NS, x.Name, func(m *mocov1beta2.MySQLCluster) bool {
					m.Spec.VolumeClaimTemplates[0].Labels, m.Spec.VolumeClaimTemplates[0].Annotations = lab, ann
					return true
				})
			}); err != nil {
				return c, err
			}
			x.Labels, x.Anns = lab, ann
		case "template":
			var sts appsv1.StatefulSet
			s.api.Get(x.NS, "moco-"+x.Name, &sts)
			from := len(s.changes())
			old := hash(sts.Spec.Template)
			val := fmt.Sprintf("t%d", oi)
			if err := user(when, func() error {
				return Edit(s.api, &mocov1beta2.MySQLCluster{}, x.NS, x.Name, func(m *mocov1beta2.MySQLCluster) bool {
					if m.Spec.PodTemplate.Annotations == nil {
						m.Spec.PodTemplate.Annotations = map[string]string{}
					}
					m.Spec.PodTemplate.Annotations["verif/t"] = val
					return true
				})
			}); err != nil {
				return c, err
			}
			if err := s.wait(when+": new template", func() string {
				s.api.Get(x.NS, "moco-"+x.Name, &sts)
				if hash(sts.Spec.Template) == old {
					return "the template did not change"
				}
				return ""
			}); err != nil {
				return c, err
			}
			for _, ch := range s.changes()[from:] {
				if ch.kind != "StatefulSet" || ch.name != "moco-"+x.Name || ch.ns != x.NS || ch.o == nil {
					continue
				}
				var y appsv1.StatefulSet
				data, _ := json.Marshal(ch.o)
				must(json.Unmarshal(data, &y))
				if hash(y.Spec.Template) == old {
					continue
				}
				if r := y.Spec.UpdateStrategy.RollingUpdate; r == nil || r.Partition == nil || *r.Partition != int32(x.Replicas) {
					return c, fmt.Errorf("%s: a new template came with partition %v, not %d", when, js(y.Spec.UpdateStrategy), x.Replicas)
				}
				break
			}
		case "restart":
			sig := syscall.SIGTERM
			if o.V == "v2" {
				sig = syscall.SIGKILL
			}
			if !s.Kill(sig) {
				return c, fmt.Errorf("%s: the controller does not end on SIGTERM within 60s\n%s", when, s.Log())
			}
			// the lease of the old one runs out
			_ = s.api.Remove(lease(p))
			if x.Replicas > 1 && o.N > 2 {
				// meanwhile the primary is asked to go
				_ = Edit(s.api, &corev1.Pod{}, x.NS, pod, func(q *corev1.Pod) bool {
					if q.Annotations == nil {
						q.Annotations = map[string]string{}
					}
					q.Annotations["moco.cybozu.com/demote"] = "true"
					return true
				})
				cls["change-while-down"] = true
			}
			if err := start(); err != nil {
				return c, err
			}
		case "second":
			// a second controller with the same lease must stay idle
			s2 := s.proc
			ports := s.Ports
			s.proc = nil
			if err := start(); err != nil {
				return c, err
			}
			var l coordv1.Lease
			s.api.Get(p.SysNS, or(p.LeaderID, "moco"), &l)
			time.Sleep(300 * time.Millisecond)
			if code, m := s.httpGet(s.Ports[0], "/metrics"); code == 200 && strings.Contains(m, "moco_cluster_checks_total{") {
				var now coordv1.Lease
				s.api.Get(p.SysNS, or(p.LeaderID, "moco"), &now)
				if js(now.Spec.HolderIdentity) != js(l.Spec.HolderIdentity) {
					return c, fmt.Errorf("%w: too slow to keep the lease", vt.ErrInconclusive)
				}
				return c, fmt.Errorf("%s: a second controller works on clusters while the first holds the lease", when)
			}
			if o.V == "v2" {
				// the first one ends, the second takes over
				one := s.proc
				two := s.Ports
				s.proc = s2
				if !s.Kill(syscall.SIGTERM) {
					s.proc = one
					return c, fmt.Errorf("%s: the controller does not end on SIGTERM within 60s", when)
				}
				s.proc, s.Ports = one, two
				_ = s.api.Remove(lease(p))
				cls["handover"] = true
			} else {
				s.Kill(syscall.SIGKILL)
				s.proc, s.Ports = s2, ports
				s.logs = s.logs[:len(s.logs)-1]
				s.api.wmu.Lock()
				s.api.hookURL = "https://127.0.0.1:" + ports[2]
				s.api.wmu.Unlock()
			}
		case "invalid":
			bad := x.object()
			bad.Name = "bad"
			bad.Spec.Replicas = 2
			if err := s.api.Create(bad); err == nil || !strings.Contains(err.Error(), "replicas") {
				return c, fmt.Errorf("%s: a cluster with 2 replicas: %v", when, err)
			}
			if err := s.api.Create(policy(x.NS, "bad", "every day")); err == nil || !strings.Contains(err.Error(), "schedule") {
				return c, fmt.Errorf("%s: a bad schedule: %v", when, err)
			}
		case "policy":
			var m mocov1beta2.BackupPolicy
			if !s.api.Get(x.NS, "pol", &m) {
				continue
			}
			sched := fmt.Sprintf("%d 1 * * *", oi)
			if err := user(when, func() error {
				return Edit(s.api, &mocov1beta2.BackupPolicy{}, x.NS, "pol", func(m *mocov1beta2.BackupPolicy) bool { m.Spec.Schedule = sched; return true })
			}); err != nil {
				return c, err
			}
			for _, y := range cs {
				if y.NS != x.NS || !y.Policy {
					continue
				}
				if err := s.wait(when+": schedule", func() string {
					var cj batchv1.CronJob
					s.api.Get(y.NS, "moco-backup-"+y.Name, &cj)
					if cj.Spec.Schedule != sched {
						return "schedule " + cj.Spec.Schedule
					}
					return ""
				}); err != nil {
					return c, err
				}
				cls["schedule"] = true
			}
		case "down":
			// the API server is away for a moment
			s.api.setDown(true)
			time.Sleep(time.Duration(o.N) * 200 * time.Millisecond)
			s.api.setDown(false)
		}
		cls[o.K] = true
		c.Nontrivial = true
		if err := check(when); err != nil {
			return c, err
		}
		if err := s.write(*x); err != nil {
			return c, fmt.Errorf("%s: %w", when, err)
		}
	}
	// every acknowledged write is on the primary
	have := map[int64]bool{}
	for _, x := range cs {
		var cl mocov1beta2.MySQLCluster
		s.api.Get(x.NS, x.Name, &cl)
		s.net.Mu.Lock()
		for r := range s.servers(x.NS, x.Name, x.Replicas)[cl.Status.CurrentPrimaryIndex].Rows {
			have[r] = true
		}
		s.net.Mu.Unlock()
	}
	for _, r := range s.acked {
		if !have[r] {
			return c, fmt.Errorf("the acknowledged write %d is lost", r)
		}
	}
	// nothing more to do: the controller leaves the objects alone
	if err := s.wait("quiescence", func() string {
		from := len(s.changes())
		time.Sleep(400 * time.Millisecond)
		for _, ch := range s.changes()[from:] {
			if ch.agent {
				return fmt.Sprintf("%s %s %s/%s is still being written", ch.typ, ch.kind, ch.ns, ch.name)
			}
		}
		return ""
	}); err != nil {
		return c, err
	}
	// roll-outs of all clusters together keep the interval (one process: a new one starts afresh)
	if p.PartMS > 0 && !cls["restart"] && !cls["second"] {
		last := map[string]int32{}
		var at time.Time
		for _, ch := range s.changes() {
			if ch.kind != "StatefulSet" || ch.o == nil {
				continue
			}
			var y appsv1.StatefulSet
			data, _ := json.Marshal(ch.o)
			must(json.Unmarshal(data, &y))
			if r := y.Spec.UpdateStrategy.RollingUpdate; r != nil && r.Partition != nil {
				k := ch.ns + "/" + ch.name
				if v, ok := last[k]; ok && *r.Partition < v {
					cls["interval"] = true
					if d := ch.at.Sub(at); !at.IsZero() && d < time.Duration(p.PartMS/2)*time.Millisecond {
						return c, fmt.Errorf("partitions were updated %v apart, although the interval is %dms", d, p.PartMS)
					}
					at = ch.at
				}
				last[k] = *r.Partition
			}
		}
	}
	for _, x := range cs {
		want := []string{fmt.Sprintf(`moco_cluster_healthy{name=%q,namespace=%q} 1`, x.Name, x.NS), fmt.Sprintf(`moco_cluster_available{name=%q,namespace=%q} 1`, x.Name, x.NS), fmt.Sprintf(`moco_cluster_replicas{name=%q,namespace=%q} %d`, x.Name, x.NS, x.Replicas)}
		if err := s.wait("metrics", func() string {
			code, m := s.httpGet(s.Ports[0], "/metrics")
			if code != 200 {
				return m
			}
			for _, w := range want {
				if !strings.Contains(m, w) {
					return "no " + w
				}
			}
			return ""
		}); err != nil {
			return c, err
		}
	}
	// the clustering loop keeps its interval
	if x := cs[0]; p.IntervalMS < 1000 {
		re := regexp.MustCompile(fmt.Sprintf(`moco_cluster_checks_total\{name=%q,namespace=%q\} (\S+)`, x.Name, x.NS))
		count := func() float64 {
			_, m := s.httpGet(s.Ports[0], "/metrics")
			if l := re.FindStringSubmatch(m); l != nil {
				v, _ := strconv.ParseFloat(l[1], 64)
				return v
			}
			return -1
		}
		from, t0 := count(), time.Now()
		for count() < from+2 {
			if time.Since(t0) > 20*time.Second {
				return c, fmt.Errorf("the state of %s/%s is not checked every %dms: %v checks in 20s", x.NS, x.Name, p.IntervalMS, count()-from)
			}
			time.Sleep(50 * time.Millisecond)
		}
		cls["checks"] = true
	}
	return c, nil
}

func js(v any) string { b, _ := json.Marshal(v); return string(b) }

func lease(p Plan) *coordv1.Lease {
	l := &coordv1.Lease{}
	l.Namespace, l.Name = p.SysNS, or(p.LeaderID, "moco")
	return l
}

func (s *Sys) changes() []change {
	s.api.mu.Lock()
	defer s.api.mu.Unlock()
	return append([]change(nil), s.api.changes...)
}

func TestS01(t *testing.T) { vt.Run(t, "S01", gen, run) }
