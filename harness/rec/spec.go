package rec

import (
	"fmt"

	"pgregory.net/rapid"

	"verif/internal/vt"
)

func yes(t *rapid.T, name string, oneIn int) bool { return vt.Uni(t, name, oneIn) == oneIn-1 }

func one[T any](t *rapid.T, name string, l ...T) T { return l[vt.Uni(t, name, len(l))] }

func genMap(t *rapid.T, name string, keys ...string) obj {
	r := obj{}
	for _, k := range keys {
		if yes(t, name+k, 2) {
			r[k] = one(t, name+"v", "x", "y", "true", "")
		}
	}
	return r
}

func genRes(t *rapid.T, name string) obj {
	r := obj{}
	if yes(t, name+"req", 2) {
		q := obj{}
		if yes(t, name+"m", 2) {
			q["memory"] = one(t, name+"mem", "100Mi", "1Gi", "1500Mi", "4Gi", "512Mi")
		}
		if yes(t, name+"c", 2) {
			q["cpu"] = one(t, name+"cpu", "50m", "2")
		}
		if len(q) > 0 {
			r["requests"] = q
		}
	}
	if yes(t, name+"lim", 2) {
		q := obj{}
		if yes(t, name+"lm", 2) {
			q["memory"] = one(t, name+"lmem", "300Mi", "2Gi", "8Gi")
		}
		if yes(t, name+"lc", 2) {
			q["cpu"] = one(t, name+"lcpu", "3", "250m")
		}
		if len(q) > 0 {
			r["limits"] = q
		}
	}
	return r
}

func genSC(t *rapid.T, name string) obj {
	r := obj{}
	if yes(t, name+"u", 2) {
		r["runAsUser"] = one(t, name+"uid", 0, 1000, 10000)
	}
	if yes(t, name+"g", 2) {
		r["runAsGroup"] = one(t, name+"gid", 0, 2000)
	}
	if yes(t, name+"ro", 2) {
		r["readOnlyRootFilesystem"] = true
	}
	return r
}

func genContainer(t *rapid.T, name string) obj {
	c := obj{"name": name, "image": one(t, name+"image", "img:1", "img:2")}
	if yes(t, name+"res", 3) {
		if r := genRes(t, name); len(r) > 0 {
			c["resources"] = r
		}
	}
	if yes(t, name+"env", 3) {
		c["env"] = []any{obj{"name": "FOO", "value": one(t, name+"foo", "1", "2")}}
	}
	if yes(t, name+"sc", 3) {
		if r := genSC(t, name); len(r) > 0 {
			c["securityContext"] = r
		}
	}
	if yes(t, name+"args", 4) {
		c["args"] = []any{"a", "b"}
	}
	if yes(t, name+"vm", 4) {
		c["volumeMounts"] = []any{obj{"name": "uservol", "mountPath": "/user"}}
	}
	return c
}

var affinityTree = obj{"nodeAffinity": obj{"requiredDuringSchedulingIgnoredDuringExecution": obj{"nodeSelectorTerms": []any{
	obj{"matchExpressions": []any{obj{"key": "disk", "operator": "In", "values": []any{"ssd"}}}}}}}}

func genPod(t *rapid.T, disSlow bool, collectors bool) obj {
	pt := obj{}
	m := obj{}
	if l := genMap(t, "podlabel", "team", "app.kubernetes.io/name", "foo"); len(l) > 0 && yes(t, "podlabels", 2) {
		m["labels"] = l
	}
	if l := genMap(t, "podann", "note", "moco.cybozu.com/demote"); len(l) > 0 && yes(t, "podanns", 2) {
		m["annotations"] = l
	}
	if len(m) > 0 {
		pt["metadata"] = m
	}
	my := genContainer(t, "mysqld")
	delete(my, "args")
	if yes(t, "myport", 4) {
		my["ports"] = []any{obj{"name": "extra", "containerPort": 7777, "protocol": "TCP"}}
	}
	if yes(t, "probe", 3) {
		p := obj{}
		if yes(t, "p1", 2) {
			p["periodSeconds"] = 7
		}
		if yes(t, "p2", 2) {
			p["failureThreshold"] = 33
		}
		if yes(t, "p3", 2) {
			p["timeoutSeconds"] = 9
		}
		if yes(t, "p4", 4) {
			p["exec"] = obj{"command": []any{"true"}}
			delete(p, "exec") // a probe has one handler; the operator sets it
			p["initialDelaySeconds"] = 3
		}
		if len(p) > 0 {
			my[one(t, "pk", "startupProbe", "livenessProbe", "readinessProbe")] = p
		}
	}
	cs := []any{}
	pos := rapid.IntRange(0, 2).Draw(t, "mysqldpos")
	n := rapid.IntRange(0, 2).Draw(t, "sidecars")
	for i := 0; i < n; i++ {
		cs = append(cs, genContainer(t, fmt.Sprintf("side%d", i)))
	}
	if disSlow && yes(t, "ownslow", 3) {
		cs = append(cs, genContainer(t, "slow-log"))
	}
	if !collectors && yes(t, "ownexp", 4) {
		cs = append(cs, genContainer(t, "mysqld-exporter"))
	}
	if pos > len(cs) {
		pos = len(cs)
	}
	cs = append(cs[:pos:pos], append([]any{my}, cs[pos:]...)...)
	spec := obj{"containers": cs}
	var inits []any
	for i := 0; i < rapid.IntRange(0, 3).Draw(t, "inits")-1; i++ {
		inits = append(inits, genContainer(t, fmt.Sprintf("init%d", i)))
	}
	if len(inits) > 0 {
		spec["initContainers"] = inits
	}
	spec["volumes"] = []any{obj{"name": "uservol", "emptyDir": obj{"sizeLimit": "1Gi"}}}
	if yes(t, "vol2", 3) {
		spec["volumes"] = append(spec["volumes"].([]any), obj{"name": "sec", "secret": obj{"secretName": "s"}})
	}
	if yes(t, "grace", 3) {
		spec["terminationGracePeriodSeconds"] = one(t, "graceS", 30, 60, 900)
	}
	if yes(t, "aff", 3) {
		spec["affinity"] = deep(affinityTree)
	}
	if yes(t, "podsc", 3) {
		s := obj{}
		if yes(t, "fsg", 2) {
			s["fsGroup"] = 555
		}
		if yes(t, "fsp", 2) {
			s["fsGroupChangePolicy"] = "Always"
		}
		if yes(t, "rau", 2) {
			s["runAsUser"] = 777
		}
		if len(s) > 0 {
			spec["securityContext"] = s
		}
	}
	if yes(t, "nodesel", 4) {
		spec["nodeSelector"] = obj{"zone": "a"}
	}
	if yes(t, "prio", 4) {
		spec["priorityClassName"] = "high"
	}
	if yes(t, "tol", 4) {
		spec["tolerations"] = []any{obj{"key": "db", "operator": "Exists"}}
	}
	if yes(t, "shareproc", 5) {
		spec["shareProcessNamespace"] = true
	}
	pt["spec"] = spec
	var ow []any
	for _, c := range []string{"agent", "moco-init", "slow-log", "mysqld-exporter", "copy-moco-init"} {
		if yes(t, "ow"+c, 5) {
			o := obj{"name": c}
			if r := genRes(t, "owr"+c); len(r) > 0 {
				o["resources"] = r
			}
			if r := genSC(t, "ows"+c); len(r) > 0 {
				o["securityContext"] = r
			}
			ow = append(ow, o)
		}
	}
	if len(ow) > 0 {
		pt["overwriteContainers"] = ow
	}
	return pt
}

func genSvc(t *rapid.T, name string) obj {
	s := obj{}
	m := obj{}
	if l := genMap(t, name+"l", "team", "app.kubernetes.io/instance", "x"); len(l) > 0 {
		m["labels"] = l
	}
	if l := genMap(t, name+"a", "dns", "lb"); len(l) > 0 {
		m["annotations"] = l
	}
	if len(m) > 0 {
		s["metadata"] = m
	}
	if yes(t, name+"spec", 2) {
		sp := obj{}
		if yes(t, name+"type", 2) {
			sp["type"] = one(t, name+"ty", "LoadBalancer", "NodePort", "ClusterIP")
		}
		if yes(t, name+"etp", 3) {
			sp["externalTrafficPolicy"] = "Local"
		}
		if yes(t, name+"aff", 3) {
			sp["sessionAffinity"] = "ClientIP"
		}
		if yes(t, name+"sel", 4) {
			sp["selector"] = obj{"foo": "bar", "moco.cybozu.com/role": "other"}
		}
		if yes(t, name+"pnra", 5) {
			sp["publishNotReadyAddresses"] = true
		}
		var ports []any
		if yes(t, name+"p1", 3) {
			ports = append(ports, obj{"name": "mysql", "port": one(t, name+"pp", 3306, 13306), "nodePort": 30306})
		}
		if yes(t, name+"p2", 3) {
			ports = append(ports, obj{"name": "mysqlx", "port": 33060, "appProtocol": "mysqlx", "targetPort": "wrong"})
		}
		if yes(t, name+"p3", 3) {
			ports = append(ports, obj{"name": "other", "port": 8888, "protocol": "TCP", "targetPort": 8888})
		}
		if len(ports) > 0 {
			sp["ports"] = ports
		}
		if len(sp) > 0 {
			s["spec"] = sp
		}
	}
	return s
}

func genVol(t *rapid.T, name string) obj {
	v := obj{"metadata": obj{"name": name}}
	if l := genMap(t, name+"vl", "vl", "team"); len(l) > 0 && yes(t, name+"vls", 2) {
		v["metadata"].(obj)["labels"] = l
	}
	if l := genMap(t, name+"va", "va", "resize.topolvm.io/storage_limit"); len(l) > 0 && yes(t, name+"vas", 2) {
		v["metadata"].(obj)["annotations"] = l
	}
	sp := obj{"resources": obj{"requests": obj{"storage": one(t, name+"size", "1Gi", "2Gi", "2048Mi", "10Gi")}}}
	if yes(t, name+"modes", 4) {
		sp["accessModes"] = []any{"ReadWriteOncePod"}
	}
	if yes(t, name+"sc", 2) {
		sp["storageClassName"] = one(t, name+"scn", "grow", "fixed")
	}
	v["spec"] = sp
	return v
}

func genJobConfig(t *rapid.T, name string) obj {
	j := obj{"serviceAccountName": one(t, name+"sa", "backup-owner", "other-sa")}
	b := obj{"bucketName": one(t, name+"bucket", "mybucket", "b2")}
	if yes(t, name+"region", 2) {
		b["region"] = "us-east-1"
	}
	if yes(t, name+"ep", 2) {
		b["endpointURL"] = "https://minio.example:9000"
	}
	if yes(t, name+"ps", 2) {
		b["usePathStyle"] = true
	}
	if yes(t, name+"be", 2) {
		b["backendType"] = one(t, name+"bet", "s3", "gcs", "azure")
	}
	if yes(t, name+"ca", 3) {
		b["caCert"] = "/ca/ca.crt"
	}
	j["bucketConfig"] = b
	j["workVolume"] = one(t, name+"work", obj{"emptyDir": obj{}}, obj{"emptyDir": obj{"sizeLimit": "5Gi"}}, obj{"hostPath": obj{"path": "/var/work"}})
	if yes(t, name+"th", 2) {
		j["threads"] = one(t, name+"thn", 1, 4, 16)
	}
	for _, k := range []string{"cpu", "maxCpu"} {
		if yes(t, name+k, 2) {
			j[k] = one(t, name+k+"v", "1", "4", "500m")
		}
	}
	for _, k := range []string{"memory", "maxMemory"} {
		if yes(t, name+k, 2) {
			j[k] = one(t, name+k+"v", "1Gi", "4Gi")
		}
	}
	if yes(t, name+"env", 2) {
		j["env"] = []any{obj{"name": "AWS_REGION", "value": "r"}, obj{"name": "SECRET", "valueFrom": obj{"secretKeyRef": obj{"name": "s", "key": "k"}}}}
	}
	if yes(t, name+"envfrom", 2) {
		j["envFrom"] = []any{obj{"secretRef": obj{"name": "bucket-secret"}}}
	}
	if yes(t, name+"aff", 3) {
		j["affinity"] = deep(affinityTree)
	}
	if yes(t, name+"vols", 2) {
		j["volumes"] = []any{obj{"name": "ca", "configMap": obj{"name": "cacm"}}}
		j["volumeMounts"] = []any{obj{"name": "ca", "mountPath": "/ca"}}
	}
	return j
}

// genPolicy makes the spec of a BackupPolicy.
func genPolicy(t *rapid.T) obj {
	p := obj{"schedule": one(t, "sched", "0 0 * * *", "@daily", "*/30 2 * * 1"), "jobConfig": genJobConfig(t, "bp")}
	if yes(t, "tz", 2) {
		p["timeZone"] = "Asia/Tokyo"
	}
	p["concurrencyPolicy"] = one(t, "conc", "Allow", "Forbid", "Replace")
	for _, k := range []string{"startingDeadlineSeconds", "activeDeadlineSeconds", "backoffLimit", "successfulJobsHistoryLimit", "failedJobsHistoryLimit"} {
		if yes(t, k, 2) {
			p[k] = one(t, k+"v", 0, 1, 5, 300)
		}
	}
	return p
}

func genRestore(t *rapid.T) obj {
	r := obj{"sourceName": one(t, "rsn", "single", "src"), "sourceNamespace": one(t, "rsns", "backup", "other"),
		"restorePoint": one(t, "rp", "2026-05-26T12:34:56Z", "2026-01-02T03:04:05+09:00", "2026-12-31T23:59:59Z"), "jobConfig": genJobConfig(t, "rs")}
	if yes(t, "rschema", 2) {
		r["schema"] = "db1"
	}
	if yes(t, "rusers", 2) {
		r["users"] = "'u1'@'%'"
	}
	return r
}

// genSpec makes the spec of a MySQLCluster.
func genSpec(t *rapid.T) obj {
	s := obj{}
	s["replicas"] = one(t, "replicas", 1, 3, 3, 5)
	s["serverIDBase"] = one(t, "idbase", 1, 10, 2000000)
	if yes(t, "offline", 8) {
		s["offline"] = true
	}
	if yes(t, "maxdelay", 3) {
		s["maxDelaySeconds"] = one(t, "mds", 0, 30, 600)
	}
	s["startupWaitSeconds"] = one(t, "sws", 0, 5, 15, 3600)
	if yes(t, "rots", 3) {
		s["logRotationSchedule"] = one(t, "rotss", "@hourly", "*/5 * * * *")
	}
	if yes(t, "rotz", 3) {
		s["logRotationSize"] = one(t, "rotzz", 1, 1048576)
	}
	dis := yes(t, "disslow", 4)
	if dis {
		s["disableSlowQueryLogContainer"] = true
	}
	if yes(t, "slowtmpl", 3) {
		s["slowQueryLogConfigTmpl"] = one(t, "slt", "[INPUT]\n Path {{ .Path }}\n", "plain", "{{ .Path }}{{ .Path }}")
	}
	if yes(t, "localhost", 4) {
		s["agentUseLocalhost"] = true
	}
	if yes(t, "tzdata", 4) {
		s["initializeTimezoneData"] = true
	}
	coll := yes(t, "collectors", 3)
	if coll {
		s["collectors"] = one(t, "coll", []any{"engine_innodb_status"}, []any{"engine_innodb_status", "info_schema.innodb_metrics"})
	}
	if yes(t, "conf", 2) {
		s["mysqlConfigMapName"] = one(t, "confn", "conf1", "conf2")
	}
	if yes(t, "policy", 2) {
		s["backupPolicyName"] = one(t, "poln", "pol1", "pol2")
	}
	if yes(t, "psvc", 3) {
		s["primaryServiceTemplate"] = genSvc(t, "ps")
	}
	if yes(t, "rsvc", 3) {
		s["replicaServiceTemplate"] = genSvc(t, "rs")
	}
	vols := []any{genVol(t, "mysql-data")}
	if yes(t, "vol2", 4) {
		vols = append(vols, genVol(t, "extra"))
	}
	s["volumeClaimTemplates"] = vols
	s["podTemplate"] = genPod(t, dis, coll)
	return s
}

var userConfs = []map[string]string{
	{},
	{"max_connections": "500"},
	{"max-connections": "100", "_include": "[mysqld]\nfoo=1\n"},
	{"innodb_buffer_pool_size": "100M", "lower_case_table_names": "1"},
	{"lower_case_table_names": "0", "long_query_time": "3"},
}
