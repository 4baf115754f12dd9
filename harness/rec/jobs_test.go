package rec

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	batchv1 "k8s.io/api/batch/v1"
	"pgregory.net/rapid"

	"verif/internal/vt"
)

type R08Op struct {
	Kind   string `json:"kind"` // use, edit, restored, lose, operator, cron
	Policy int    `json:"policy"`
	Spec   obj    `json:"spec,omitempty"`
	I      int    `json:"i,omitempty"`
	Fault  Fault  `json:"fault"`
}

type R08Plan struct {
	Name    string  `json:"name"`
	NoSC    bool    `json:"nosc,omitempty"`
	Pol     []obj   `json:"pol"`
	Restore obj     `json:"restore,omitempty"`
	Ops     []R08Op `json:"ops"`
}

func threads(j obj) {
	if j["threads"] == nil { // the API server sets the default
		j["threads"] = 4
	}
}

func genR08(t *rapid.T) (p R08Plan) {
	p.Name = one(t, "name", "c", "my-db", "x1")
	p.NoSC = yes(t, "nosc", 5)
	for i := 0; i < 2; i++ {
		b := genPolicy(t)
		threads(b["jobConfig"].(obj))
		p.Pol = append(p.Pol, b)
	}
	if yes(t, "restore", 2) {
		p.Restore = genRestore(t)
		threads(p.Restore["jobConfig"].(obj))
	}
	for n := 2 + vt.Uni(t, "ops", 6); n > 0; n-- {
		o := R08Op{Kind: one(t, "kind", "use", "use", "edit", "restored", "lose", "operator", "cron")}
		o.Policy = vt.Uni(t, "pol", 3) - 1
		o.I = vt.Uni(t, "i", 100)
		if o.Kind == "edit" {
			o.Spec = genPolicy(t)
			threads(o.Spec["jobConfig"].(obj))
			o.Policy = max(o.Policy, 0)
		}
		if yes(t, "fault", 2) {
			o.Fault = genFault(t, 60)
			o.Fault.At = 20 + o.Fault.At%40 // the jobs come late
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// jobArgs parses the command line of a job as the command itself does.
func jobArgs(l []any) obj {
	r, pos := obj{}, []any{}
	for _, x := range l {
		a := fmt.Sprint(x)
		if k, ok := strings.CutPrefix(a, "--"); ok {
			k, v, has := strings.Cut(k, "=")
			if !has {
				v = "true"
			}
			r[k] = v
			continue
		}
		pos = append(pos, a)
	}
	r["positional"] = pos
	return r
}

func wantArgs(jc obj, sub string, rest ...any) obj {
	b := mapOf(jc["bucketConfig"])
	r := obj{"threads": fmt.Sprintf("%v", jc["threads"])}
	for k, f := range map[string]string{"region": "region", "endpointURL": "endpoint", "backendType": "backend-type", "caCert": "ca-cert"} {
		if v := b[k]; v != nil && v != "" {
			r[f] = v
		}
	}
	if v, _ := b["usePathStyle"].(bool); v {
		r["use-path-style"] = "true"
	}
	r["positional"] = append([]any{sub, b["bucketName"]}, rest...)
	return r
}

func jobLabels(name string) obj {
	return obj{"app.kubernetes.io/name": "mysql-backup", "app.kubernetes.io/instance": name, "app.kubernetes.io/created-by": "moco"}
}

// wantJobPod is the reference pod of a backup or restore job, without the command line.
func wantJobPod(name, cname, key string, nosc bool, jc obj) obj {
	res := obj{}
	for k, r := range map[string]string{"cpu": "requests", "memory": "requests", "maxCpu": "limits", "maxMemory": "limits"} {
		if v := jc[k]; v != nil {
			m := merged(res[r])
			m[strings.ToLower(strings.TrimPrefix(k, "max"))] = v
			res[r] = m
		}
	}
	c := obj{"name": cname, "image": "backup:1", "resources": res,
		"env":          append([]any{obj{"name": "MYSQL_PASSWORD", "valueFrom": obj{"secretKeyRef": obj{"name": "moco-" + name, "key": key}}}}, list(jc["env"])...),
		"envFrom":      jc["envFrom"],
		"volumeMounts": append([]any{mount("work", "/work")}, list(jc["volumeMounts"])...)}
	sc := obj{"fsGroupChangePolicy": "OnRootMismatch"}
	if !nosc {
		sc["fsGroup"] = 10000
	}
	s := obj{"containers": []any{c}, "restartPolicy": "Never", "serviceAccountName": jc["serviceAccountName"], "securityContext": sc,
		"volumes": append([]any{merged(jc["workVolume"], obj{"name": "work"})}, list(jc["volumes"])...), "affinity": jc["affinity"]}
	return obj{"metadata": obj{"labels": jobLabels(name)}, "spec": s}
}

// cmdline takes the command line and the security context out of a job's pod.
func cmdline(pod any, cname string) (obj, obj) {
	c := named(sub(pod, "spec", "containers"), cname)
	if c == nil {
		return nil, nil
	}
	a, s := jobArgs(list(c["args"])), mapOf(c["securityContext"])
	delete(c, "args")
	delete(c, "securityContext")
	return a, s
}

// rules flattens a role into the permissions it grants.
func grants(role obj) map[string]bool {
	r := map[string]bool{}
	for _, x := range list(role["rules"]) {
		u := x.(obj)
		names := list(u["resourceNames"])
		if len(names) == 0 {
			names = []any{"*"}
		}
		groups := list(u["apiGroups"])
		if len(groups) == 0 {
			groups = []any{""}
		}
		for _, g := range groups {
			if g == nil {
				g = ""
			}
			for _, s := range list(u["resources"]) {
				for _, v := range list(u["verbs"]) {
					for _, n := range names {
						r[fmt.Sprintf("%v %v/%v %v", v, g, s, n)] = true
					}
				}
			}
		}
	}
	return r
}

func wantGrants(name string, pods, events []string) map[string]bool {
	r := map[string]bool{}
	for _, s := range []string{"mysqlclusters", "mysqlclusters/status"} {
		for _, v := range []string{"get", "update"} {
			r[fmt.Sprintf("%s moco.cybozu.com/%s %s", v, s, name)] = true
		}
	}
	for _, v := range pods {
		r[v+" /pods *"] = true
	}
	for _, v := range events {
		r[v+" /events *"] = true
	}
	return r
}

func diffSets(what string, want, got map[string]bool, out *[]string) {
	for k := range want {
		if !got[k] {
			*out = append(*out, what+": missing: "+k)
		}
	}
	for k := range got {
		if !want[k] {
			*out = append(*out, what+": not needed: "+k)
		}
	}
}

func judgeBinding(what string, b obj, role string, sa any, out *[]string) {
	if b == nil {
		*out = append(*out, "no role binding of the "+what)
		return
	}
	if sub(b, "roleRef", "kind") != "Role" || sub(b, "roleRef", "name") != role {
		*out = append(*out, fmt.Sprintf("%s: bound to the role %s", what, js(b["roleRef"])))
	}
	l := list(b["subjects"])
	if len(l) != 1 || sub(l[0], "kind") != "ServiceAccount" || sub(l[0], "name") != sa || sub(l[0], "namespace") != tns {
		*out = append(*out, fmt.Sprintf("%s: role given to %s, want service account %v", what, js(l), sa))
	}
}

func runR08(t *testing.T, p R08Plan) (c vt.Case, err error) {
	e := NewEnv()
	e.R.DisableDefaultSecurityContext = p.NoSC
	putCertSecret(e, tns, p.Name, 1)
	pol := deep(p.Pol).([]any)
	policy, restored, restoredJob := -1, false, ""
	spec := obj{"replicas": 3, "serverIDBase": 1, "podTemplate": obj{"spec": obj{"containers": []any{obj{"name": "mysqld", "image": "img"}}}},
		"volumeClaimTemplates": []any{obj{"metadata": obj{"name": "mysql-data"}, "spec": obj{"resources": obj{"requests": obj{"storage": "1Gi"}}}}}}
	if p.Restore != nil {
		spec["restore"] = deep(p.Restore)
	}
	var hist []string
	n := p.Name
	var jobTree obj // the restore job as first seen
	judge := func() error {
		d := e.Dump()
		var out []string
		cj, role, rb := d["CronJob "+tns+"/moco-backup-"+n], d["Role "+tns+"/moco-backup-"+n], d["RoleBinding "+tns+"/moco-backup-"+n]
		if policy < 0 {
			for k, o := range map[string]obj{"CronJob": cj, "Role": role, "RoleBinding": rb} {
				if o != nil {
					out = append(out, fmt.Sprintf("%s of the backup exists without a policy", k))
				}
			}
		} else if cj == nil || role == nil {
			out = append(out, fmt.Sprintf("CronJob exists: %v, Role exists: %v", cj != nil, role != nil))
		} else {
			bp := pol[policy].(obj)
			jc := mapOf(bp["jobConfig"])
			got := typed[batchv1.CronJob](obj{"metadata": metaOf(cj), "spec": cj["spec"]}).(obj)
			pod := sub(got, "spec", "jobTemplate", "spec", "template")
			args, sc := cmdline(pod, "backup")
			diff("arguments of the backup", deep(wantArgs(jc, "backup", tns, n)), deep(args), &out)
			wsc := obj{"readOnlyRootFilesystem": true}
			if !p.NoSC {
				wsc["runAsUser"], wsc["runAsGroup"] = 10000, 10000
			}
			diff("security context of the backup", deep(wsc), deep(sc), &out)
			w := wantJobPod(n, "backup", "BACKUP_PASSWORD", p.NoSC, jc)
			if sub(w, "spec", "affinity") == nil {
				in := func(k, v string) obj { return obj{"key": k, "operator": "In", "values": []any{v}} }
				w["spec"].(obj)["affinity"] = obj{"podAntiAffinity": obj{"preferredDuringSchedulingIgnoredDuringExecution": []any{obj{"weight": 100, "podAffinityTerm": obj{
					"labelSelector": obj{"matchExpressions": []any{in("app.kubernetes.io/name", "mysql-backup"), in("app.kubernetes.io/created-by", "moco")}},
					"topologyKey":   "kubernetes.io/hostname"}}}}}
			}
			js := obj{"template": w}
			cs := obj{"schedule": bp["schedule"], "concurrencyPolicy": bp["concurrencyPolicy"], "jobTemplate": obj{"metadata": obj{"labels": jobLabels(n)}, "spec": js}}
			for _, k := range []string{"timeZone", "startingDeadlineSeconds", "successfulJobsHistoryLimit", "failedJobsHistoryLimit"} {
				cs[k] = bp[k]
			}
			for _, k := range []string{"activeDeadlineSeconds", "backoffLimit"} {
				js[k] = bp[k]
			}
			diff("CronJob", typed[batchv1.CronJob](obj{"metadata": obj{"labels": jobLabels(n)}, "spec": cs}), any(got), &out)
			diffSets("role of the backup", wantGrants(n, []string{"get", "list", "watch"}, []string{"create", "update", "patch"}), grants(role), &out)
			judgeBinding("backup", rb, "moco-backup-"+n, jc["serviceAccountName"], &out)
		}
		job, role, rb := d["Job "+tns+"/moco-restore-"+n], d["Role "+tns+"/moco-restore-"+n], d["RoleBinding "+tns+"/moco-restore-"+n]
		switch {
		case p.Restore == nil:
			if job != nil || role != nil || rb != nil {
				out = append(out, "restore objects exist without a restore spec")
			}
		case restored:
			if now := full(job); now != restoredJob {
				out = append(out, fmt.Sprintf("the restore job changed after the restore: %s, was %s", now, restoredJob))
			}
		case job == nil || role == nil:
			out = append(out, fmt.Sprintf("restore Job exists: %v, Role exists: %v", job != nil, role != nil))
		default:
			jc := mapOf(sub(spec, "restore", "jobConfig"))
			if jobTree != nil {
				diff("restore job first vs now", jobTree["spec"], job["spec"], &out)
			}
			jobTree = deep(job).(obj)
			got := typed[batchv1.Job](obj{"metadata": metaOf(job), "spec": job["spec"]}).(obj)
			pod := sub(got, "spec", "template")
			args, sc := cmdline(pod, "restore")
			at, err := time.Parse(time.RFC3339, fmt.Sprint(p.Restore["restorePoint"]))
			must(err)
			str := func(k string) string { s, _ := p.Restore[k].(string); return s }
			diff("arguments of the restore", deep(wantArgs(jc, "restore", str("sourceNamespace"), str("sourceName"), tns, n, at.UTC().Format("20060102-150405"), str("schema"), str("users"))), deep(args), &out)
			if sc["readOnlyRootFilesystem"] != true {
				out = append(out, "the file system of the restore container is writable")
			}
			w := wantJobPod(n, "restore", "ADMIN_PASSWORD", p.NoSC, jc)
			diff("Job", typed[batchv1.Job](obj{"metadata": obj{"labels": jobLabels(n)}, "spec": obj{"backoffLimit": 0, "template": w}}), any(got), &out)
			diffSets("role of the restore", wantGrants(n, []string{"get"}, []string{"create"}), grants(role), &out)
			judgeBinding("restore", rb, "moco-restore-"+n, jc["serviceAccountName"], &out)
		}
		if len(out) > 0 {
			return fmt.Errorf("(want vs got)\n%s\nhistory:\n%s", strings.Join(out, "\n"), strings.Join(hist, "\n"))
		}
		return nil
	}
	changes := 0
	for _, o := range p.Ops {
		switch o.Kind {
		case "use":
			if policy != o.Policy {
				changes++
			}
			policy = o.Policy
		case "edit":
			pol[o.Policy] = deep(o.Spec)
			if policy == o.Policy {
				changes++
			}
		case "restored":
			if p.Restore != nil && !restored && e.Cluster(tns, n) != nil {
				e.restored(tns, n)
				restored = true
				restoredJob = full(e.Dump()["Job "+tns+"/moco-restore-"+n])
				c.Classes = append(c.Classes, "restored")
			}
		case "lose":
			l := []string{"CronJob", "Role", "RoleBinding", "Role", "RoleBinding", "Job"}
			k := o.I % len(l)
			id := l[k] + " " + tns + "/moco-backup-" + n
			if k >= 3 {
				id = l[k] + " " + tns + "/moco-restore-" + n
			}
			if ob, _ := e.load(id); ob != nil {
				must(e.Raw.Delete(bg, ob))
				c.Classes = append(c.Classes, "lost")
				if l[k] == "Job" {
					jobTree = nil
					if restored {
						restoredJob = full(e.Dump()["Job "+tns+"/moco-restore-"+n])
					}
				}
			}
		case "operator":
			e.Operator()
		case "cron":
			e.cronActive(tns, n, o.I%2 == 0)
		}
		for i := range pol {
			putPolicy(e, fmt.Sprintf("pol%d", i+1), pol[i].(obj))
		}
		delete(spec, "backupPolicyName")
		if policy >= 0 {
			spec["backupPolicyName"] = fmt.Sprintf("pol%d", policy+1)
		}
		must(e.PutCluster(tns, n, "uid-"+n, spec, nil))
		err := e.Reconcile(tns, n, o.Fault)
		hist = append(hist, fmt.Sprintf("%s policy %d restored %v fault %+v (%d calls): error %v", o.Kind, policy, restored, o.Fault, e.calls, err))
		if err != nil {
			if o.Fault.At == 0 {
				return c, fmt.Errorf("reconciliation failed: %v\n%s", err, strings.Join(hist, "\n"))
			}
			c.Classes = append(c.Classes, "fault")
			if err := e.Reconcile(tns, n, Fault{}); err != nil {
				return c, fmt.Errorf("reconciliation failed: %v\n%s", err, strings.Join(hist, "\n"))
			}
		}
		if err := judge(); err != nil {
			return c, err
		}
	}
	if p.Restore != nil {
		c.Classes = append(c.Classes, "restore")
	}
	if policy >= 0 {
		c.Classes = append(c.Classes, "backup")
	}
	c.Nontrivial = changes > 0 || p.Restore != nil
	return c, nil
}

func TestR08(t *testing.T) { vt.Run(t, "R08", genR08, runR08) }

func full(v any) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}
