package rec

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"

	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	"pgregory.net/rapid"

	"verif/internal/vt"
)

type R07Plan struct {
	Name  string `json:"name"`
	NoSC  bool   `json:"nosc,omitempty"`
	Specs []obj  `json:"specs"`
	Conf  []int  `json:"conf"`
	Pol   []obj  `json:"pol"`
	Busy  []bool `json:"busy"` // a backup is running
}

func genR07(t *rapid.T) (p R07Plan) {
	p.Name = one(t, "name", "c", "my-db", "mysql", "x1")
	p.NoSC = yes(t, "nosc", 5)
	p.Conf = []int{vt.Uni(t, "c1", len(userConfs)), vt.Uni(t, "c2", len(userConfs))}
	p.Pol = []obj{genPolicy(t), genPolicy(t)}
	for n := 1 + vt.Uni(t, "specs", 3); n > 0; n-- {
		s := genSpec(t)
		if len(p.Specs) > 0 {
			s["volumeClaimTemplates"] = deep(p.Specs[0]["volumeClaimTemplates"])
			if yes(t, "small", 2) { // one small change of the previous spec
				s = deep(p.Specs[len(p.Specs)-1]).(obj)
				mutateSpec(s, one(t, "how", "offline", "replicas", "slow", "collectors", "policy", "conf", "image", "label", "ow", "svc", "tmpl", "side"), vt.Uni(t, "i", 240))
			}
		}
		p.Specs = append(p.Specs, s)
		p.Busy = append(p.Busy, yes(t, "busy", 4))
	}
	return p
}

// typed sends a tree through an API type, which normalises quantities and numbers.
func typed[T any](tree any) any {
	data, err := json.Marshal(tree)
	must(err)
	var x T
	must(json.Unmarshal(data, &x))
	return norm(deep(x))
}

func resources(cpu, mem string) obj {
	return obj{"requests": obj{"cpu": cpu, "memory": mem}, "limits": obj{"cpu": cpu, "memory": mem}}
}

func mount(name, path string, ro ...bool) obj {
	m := obj{"name": name, "mountPath": path}
	if len(ro) > 0 {
		m["readOnly"] = true
	}
	return m
}

func tcp(name string, port int) obj {
	return obj{"name": name, "containerPort": port, "protocol": "TCP"}
}

func list(v any) []any { l, _ := v.([]any); return l }

func mapOf(v any) obj {
	m, _ := v.(obj)
	if m == nil {
		m = obj{}
	}
	return m
}

func merged(ms ...any) obj {
	r := obj{}
	for _, m := range ms {
		for k, v := range mapOf(m) {
			r[k] = v
		}
	}
	return r
}

var podName = obj{"name": "POD_NAME", "valueFrom": obj{"fieldRef": obj{"apiVersion": "v1", "fieldPath": "metadata.name"}}}

// wantPod is the reference pod template; the names of the ConfigMaps are judged elsewhere.
func wantPod(name string, nosc bool, spec obj, conf map[string]string, confName, slowName any) obj {
	spec = deep(spec).(obj)
	pt := mapOf(spec["podTemplate"])
	ps := mapOf(pt["spec"])
	sc := func(c obj) obj {
		s := merged(c["securityContext"])
		if !nosc {
			if s["runAsUser"] == nil {
				s["runAsUser"] = 10000
			}
			if s["runAsGroup"] == nil {
				s["runAsGroup"] = 10000
			}
		}
		c["securityContext"] = s
		return c
	}
	system := func(c obj) obj {
		c = sc(c)
		for _, o := range list(pt["overwriteContainers"]) {
			ow := o.(obj)
			if ow["name"] == c["name"] {
				for _, k := range []string{"resources", "securityContext"} {
					if ow[k] != nil {
						c[k] = ow[k]
					}
				}
			}
		}
		return c
	}
	flag := func(k string) bool { b, _ := spec[k].(bool); return b }

	var cs []any
	var image any
	for _, x := range list(ps["containers"]) {
		c := x.(obj)
		if c["name"] != "mysqld" {
			cs = append(cs, sc(c))
			continue
		}
		image = c["image"]
		c["args"] = append(list(c["args"]), "--defaults-file=/etc/mysql/my.cnf")
		c["lifecycle"] = obj{"preStop": obj{"exec": obj{"command": []any{"sleep", "20"}}}}
		c["ports"] = append(list(c["ports"]), tcp("mysql", 3306), tcp("mysqlx", 33060), tcp("mysql-admin", 33062), tcp("health", 9081))
		get := func(path string) obj {
			return obj{"path": path, "port": "health", "scheme": "HTTP"}
		}
		wait, _ := spec["startupWaitSeconds"].(float64)
		st := merged(obj{"periodSeconds": 10, "failureThreshold": max(int(wait)/10, 1)}, c["startupProbe"])
		st["httpGet"] = get("/healthz")
		c["startupProbe"] = st
		c["livenessProbe"] = merged(c["livenessProbe"], obj{"httpGet": get("/healthz")})
		c["readinessProbe"] = merged(c["readinessProbe"], obj{"httpGet": get("/readyz")})
		c["volumeMounts"] = append(list(c["volumeMounts"]), mount("tmp", "/tmp"), mount("run", "/run"), mount("var-log", "/var/log/mysql"), mount("mysql-conf", "/etc/mysql"),
			mount("mysql-conf-d", "/etc/mysql-conf.d"), mount("my-cnf-secret", "/mysql-credentials", true), mount("mysql-data", "/var/lib/mysql"))
		cs = append(cs, sc(c))
	}
	var args []any
	if v, ok := spec["maxDelaySeconds"]; ok {
		args = append(args, "--max-delay", fmt.Sprintf("%vs", v))
	}
	if v, ok := spec["logRotationSchedule"]; ok {
		args = append(args, "--log-rotation-schedule", v)
	}
	if v, ok := spec["logRotationSize"]; ok {
		args = append(args, "--log-rotation-size", fmt.Sprintf("%.0f", v))
	}
	if flag("agentUseLocalhost") {
		args = append(args, "--mysqld-localhost", "true")
	}
	cs = append(cs, system(obj{"name": "agent", "image": "agent:1", "args": args,
		"volumeMounts": []any{mount("run", "/run"), mount("var-log", "/var/log/mysql"), mount("grpc-cert", "/grpc-cert", true)},
		"env":          []any{podName, obj{"name": "CLUSTER_NAME", "value": name}},
		"envFrom":      []any{obj{"secretRef": obj{"name": "moco-" + name}}},
		"ports":        []any{tcp("agent", 9080), tcp("agent-metrics", 8080)},
		"resources":    resources("100m", "100Mi")}))
	if !flag("disableSlowQueryLogContainer") {
		cs = append(cs, system(obj{"name": "slow-log", "image": "fluent:1",
			"volumeMounts": []any{mount("slow-fluent-bit-config", "/fluent-bit/etc", true), mount("var-log", "/var/log/mysql")},
			"resources":    resources("100m", "20Mi")}))
	}
	if cl := list(spec["collectors"]); len(cl) > 0 {
		a := []any{"--config.my-cnf=/mysql-credentials/moco-exporter-my.cnf"}
		for _, x := range cl {
			a = append(a, fmt.Sprintf("--collect.%v", x))
		}
		cs = append(cs, system(obj{"name": "mysqld-exporter", "image": "exporter:1", "args": a,
			"ports":        []any{tcp("mysqld-metrics", 9104)},
			"volumeMounts": []any{mount("run", "/run"), mount("my-cnf-secret", "/mysql-credentials", true)},
			"resources":    resources("200m", "100Mi")}))
	}
	cmd := []any{"/shared/moco-init", "--data-dir=/var/lib/mysql", "--conf-dir=/etc/mysql-conf.d", fmt.Sprintf("--init-timezones=%v", flag("initializeTimezoneData")),
		fmt.Sprintf("%.0f", spec["serverIDBase"])}
	if flag("agentUseLocalhost") {
		cmd = append(cmd, "--mysqld-localhost=true")
	}
	mi := obj{"name": "moco-init", "image": image, "command": cmd, "env": []any{podName},
		"volumeMounts": []any{mount("tmp", "/tmp"), mount("mysql-data", "/var/lib/mysql"), mount("mysql-conf-d", "/etc/mysql-conf.d"), mount("shared", "/shared")},
		"resources":    resources("100m", "512Mi")}
	for k, v := range conf {
		if base(k) == "lower_case_table_names" {
			mi["args"] = []any{"--lower-case-table-names=" + v}
		}
	}
	inits := []any{
		system(obj{"name": "copy-moco-init", "image": "agent:1", "command": []any{"cp", "/moco-init", "/shared/moco-init"},
			"volumeMounts": []any{mount("shared", "/shared")}, "resources": resources("100m", "512Mi")}),
		system(mi)}
	for _, c := range list(ps["initContainers"]) {
		inits = append(inits, sc(c.(obj)))
	}
	vols := list(ps["volumes"])
	for _, n := range []string{"tmp", "run", "var-log", "mysql-conf-d", "shared"} {
		vols = append(vols, obj{"name": n})
	}
	vols = append(vols, obj{"name": "mysql-conf", "configMap": obj{"name": confName, "defaultMode": 0644}},
		obj{"name": "my-cnf-secret", "secret": obj{"secretName": "moco-my-cnf-" + name, "defaultMode": 0644}},
		obj{"name": "grpc-cert", "secret": obj{"secretName": "moco-" + name + "-grpc", "defaultMode": 0644}})
	if !flag("disableSlowQueryLogContainer") {
		vols = append(vols, obj{"name": "slow-fluent-bit-config", "configMap": obj{"name": slowName, "defaultMode": 0644}})
	}
	w := merged(ps)
	w["containers"], w["initContainers"], w["volumes"] = cs, inits, vols
	w["serviceAccountName"] = "moco-" + name
	if w["terminationGracePeriodSeconds"] == nil {
		w["terminationGracePeriodSeconds"] = 300
	}
	psc := merged(w["securityContext"])
	if psc["fsGroup"] == nil && !nosc {
		psc["fsGroup"] = 10000
	}
	if psc["fsGroupChangePolicy"] == nil {
		psc["fsGroupChangePolicy"] = "OnRootMismatch"
	}
	w["securityContext"] = psc
	if w["affinity"] == nil {
		in := func(k, v string) obj { return obj{"key": k, "operator": "In", "values": []any{v}} }
		w["affinity"] = obj{"podAntiAffinity": obj{"preferredDuringSchedulingIgnoredDuringExecution": []any{obj{"weight": 100, "podAffinityTerm": obj{
			"labelSelector": obj{"matchExpressions": []any{in("app.kubernetes.io/name", "mysql"), in("app.kubernetes.io/instance", name), in("app.kubernetes.io/created-by", "moco")}},
			"topologyKey":   "kubernetes.io/hostname"}}}}}
	}
	return obj{"metadata": obj{"labels": merged(sub(pt, "metadata", "labels"), labels(name)), "annotations": merged(sub(pt, "metadata", "annotations"))}, "spec": w}
}

// canon orders flags and environment variables of the operator's own containers; their order has no meaning.
func canon(tmpl any) any {
	for _, k := range []string{"containers", "initContainers"} {
		for _, x := range list(sub(tmpl, "spec", k)) {
			c := x.(obj)
			switch c["name"] {
			case "agent", "moco-init", "mysqld-exporter", "slow-log":
			default:
				continue
			}
			for _, f := range []string{"command", "args"} {
				l := list(c[f])
				var head, flags, rest []any
				for i := 0; i < len(l); i++ {
					a := fmt.Sprint(l[i])
					switch {
					case f == "command" && i == 0:
						head = append(head, a)
					case strings.HasPrefix(a, "--"):
						if c["name"] == "agent" && !strings.Contains(a, "=") && i+1 < len(l) {
							i++
							a += "=" + fmt.Sprint(l[i])
						}
						flags = append(flags, a)
					default:
						rest = append(rest, a)
					}
				}
				sort.Slice(flags, func(i, j int) bool { return flags[i].(string) < flags[j].(string) })
				if len(l) > 0 {
					c[f] = append(append(head, flags...), rest...)
				}
			}
			if env := list(c["env"]); len(env) > 1 {
				sort.Slice(env, func(i, j int) bool { return fmt.Sprint(env[i].(obj)["name"]) < fmt.Sprint(env[j].(obj)["name"]) })
			}
		}
	}
	return tmpl
}

func labels(name string) obj {
	return obj{"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": name, "app.kubernetes.io/created-by": "moco"}
}

// wantService is the reference for a service.
func wantService(name, role string, tmpl obj) obj {
	tmpl = mapOf(deep(tmpl))
	s := merged(tmpl["spec"])
	sel := labels(name)
	ports := []any{}
	forced := []obj{{"name": "mysql", "port": 3306}, {"name": "mysqlx", "port": 33060}}
	if role == "" {
		s["clusterIP"], s["type"], s["publishNotReadyAddresses"] = "None", "ClusterIP", true
		forced = append(forced, obj{"name": "mysql-admin", "port": 33062})
	} else {
		sel["moco.cybozu.com/role"] = role
	}
	s["selector"] = sel
	for _, f := range forced {
		f["protocol"], f["targetPort"] = "TCP", f["name"]
		ports = append(ports, merged(named(s["ports"], f["name"].(string)), f))
	}
	for _, p := range list(s["ports"]) {
		if n := p.(obj)["name"]; n != "mysql" && n != "mysqlx" {
			ports = append(ports, p)
		}
	}
	s["ports"] = ports
	return obj{"metadata": obj{"labels": merged(sub(tmpl, "metadata", "labels"), labels(name)), "annotations": merged(sub(tmpl, "metadata", "annotations"))}, "spec": s}
}

// meta keeps what R07 judges of an object's metadata.
func metaOf(o obj) obj {
	return obj{"labels": sub(o, "metadata", "labels"), "annotations": sub(o, "metadata", "annotations")}
}

func runR07(t *testing.T, p R07Plan) (c vt.Case, err error) {
	e := NewEnv()
	e.R.DisableDefaultSecurityContext = p.NoSC
	putCertSecret(e, tns, p.Name, 1)
	for i := range p.Conf {
		putConf(e, fmt.Sprintf("conf%d", i+1), userConfs[p.Conf[i]])
		putPolicy(e, fmt.Sprintf("pol%d", i+1), p.Pol[i])
	}
	for i, spec := range p.Specs {
		must(e.PutCluster(tns, p.Name, "uid-"+p.Name, spec, nil))
		if err := e.Reconcile(tns, p.Name, Fault{}); err != nil {
			return c, fmt.Errorf("reconciliation of spec %d failed: %v\n%s", i, err, js(spec))
		}
		busy := p.Busy[i] && e.cronActive(tns, p.Name, true)
		for j := 0; j < 2; j++ {
			if err := e.Reconcile(tns, p.Name, Fault{}); err != nil {
				return c, fmt.Errorf("reconciliation of spec %d failed: %v\n%s", i, err, js(spec))
			}
		}
		d := e.Dump()
		var out []string
		n := "moco-" + p.Name
		s := d["StatefulSet "+tns+"/"+n]
		if s == nil {
			return c, fmt.Errorf("no StatefulSet for spec %d", i)
		}
		tmpl := sub(s, "spec", "template")
		vols := sub(tmpl, "spec", "volumes")
		var conf map[string]string
		if cn, ok := spec["mysqlConfigMapName"].(string); ok {
			conf = userConfs[p.Conf[int(cn[len(cn)-1]-'1')]]
		}
		want := wantPod(p.Name, p.NoSC, spec, conf, sub(named(vols, "mysql-conf"), "configMap", "name"), sub(named(vols, "slow-fluent-bit-config"), "configMap", "name"))
		w := canon(typed[corev1.PodTemplateSpec](want))
		got := canon(typed[corev1.PodTemplateSpec](tmpl))
		diff("pod template (want vs got)", w, got, &out)
		// the slow query log configuration exists and is rendered from the template
		if dis, _ := spec["disableSlowQueryLogContainer"].(bool); !dis {
			cn, _ := sub(named(vols, "slow-fluent-bit-config"), "configMap", "name").(string)
			text := fmt.Sprint(sub(d["ConfigMap "+tns+"/"+cn], "data", "fluent-bit.conf"))
			if tm, ok := spec["slowQueryLogConfigTmpl"].(string); ok {
				if w := strings.ReplaceAll(tm, "{{ .Path }}", "/var/log/mysql/mysql.slow"); w != text {
					out = append(out, fmt.Sprintf("slow log configuration %q, want %q", text, w))
				}
			} else if !strings.Contains(text, "/var/log/mysql/mysql.slow") {
				out = append(out, fmt.Sprintf("slow log configuration %q", text))
			}
		}
		// the StatefulSet itself
		rep := spec["replicas"]
		if off, _ := spec["offline"].(bool); off {
			rep = 0
		}
		ws := obj{"metadata": obj{"labels": labels(p.Name)}, "spec": obj{"replicas": rep, "selector": obj{"matchLabels": labels(p.Name)}, "podManagementPolicy": "Parallel",
			"serviceName": n, "updateStrategy": obj{"type": "RollingUpdate"}}}
		gs := obj{"metadata": obj{"labels": sub(s, "metadata", "labels")}, "spec": merged(s["spec"])}
		for _, k := range []string{"template", "volumeClaimTemplates"} {
			delete(gs["spec"].(obj), k)
		}
		delete(mapOf(sub(gs, "spec", "updateStrategy")), "rollingUpdate")
		diff("StatefulSet", typed[appsv1.StatefulSet](ws), typed[appsv1.StatefulSet](gs), &out)
		var wv, gv []any
		for _, v := range list(spec["volumeClaimTemplates"]) {
			x := typed[corev1.PersistentVolumeClaim](v).(obj)
			x["spec"] = merged(obj{"volumeMode": "Filesystem", "accessModes": []any{"ReadWriteOnce"}}, x["spec"])
			wv = append(wv, obj{"name": sub(x, "metadata", "name"), "meta": metaOf(x), "spec": x["spec"]})
		}
		for _, v := range list(sub(s, "spec", "volumeClaimTemplates")) {
			x := typed[corev1.PersistentVolumeClaim](v).(obj)
			gv = append(gv, obj{"name": sub(x, "metadata", "name"), "meta": metaOf(x), "spec": x["spec"]})
		}
		diff("volume claim templates", norm(deep(wv)), norm(deep(gv)), &out)
		// services
		for _, x := range []struct{ name, role, tmpl string }{{n, "", ""}, {n + "-primary", "primary", "primaryServiceTemplate"}, {n + "-replica", "replica", "replicaServiceTemplate"}} {
			o := d["Service "+tns+"/"+x.name]
			if o == nil {
				out = append(out, "no service "+x.name)
				continue
			}
			var tm obj
			if x.tmpl != "" {
				tm = mapOf(spec[x.tmpl])
			}
			diff("service "+x.name, typed[corev1.Service](wantService(p.Name, x.role, tm)), typed[corev1.Service](obj{"metadata": metaOf(o), "spec": o["spec"]}), &out)
		}
		// disruption budget
		pdb := d["PodDisruptionBudget "+tns+"/"+n]
		r := int(deep(spec["replicas"]).(float64))
		if off, _ := spec["offline"].(bool); off || r < 3 {
			if pdb != nil {
				out = append(out, "a disruption budget exists")
			}
		} else {
			lim := r / 2
			if busy {
				lim = 0
			}
			diff("disruption budget", norm(deep(obj{"maxUnavailable": lim, "selector": obj{"matchLabels": labels(p.Name)}})), mapOf(pdb)["spec"], &out)
		}
		if len(out) > 0 {
			sort.Strings(out)
			return c, fmt.Errorf("spec %d (after %d others): want vs got\n%s", i, i, strings.Join(out, "\n"))
		}
		e.cronActive(tns, p.Name, false)
		if len(list(sub(spec, "podTemplate", "overwriteContainers"))) > 0 {
			c.Classes = append(c.Classes, "overwrite")
		}
		if spec["primaryServiceTemplate"] != nil || spec["replicaServiceTemplate"] != nil {
			c.Classes = append(c.Classes, "service-template")
		}
		if busy {
			c.Classes = append(c.Classes, "backup-running")
		}
	}
	if len(p.Specs) > 1 {
		c.Classes = append(c.Classes, "changed")
	}
	c.Nontrivial = len(c.Classes) > 0
	return c, nil
}

func TestR07(t *testing.T) { vt.Run(t, "R07", genR07, runR07) }
