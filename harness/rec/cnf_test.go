package rec

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/cybozu-go/moco/pkg/mycnf"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"pgregory.net/rapid"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"verif/internal/vt"
)

// the documented defaults (can be overridden) and mandatory settings
var cnfDefault = map[string]string{
	"back_log":                               "900",
	"character_set_server":                   "utf8mb4",
	"collation_server":                       "utf8mb4_unicode_ci",
	"default_storage_engine":                 "InnoDB",
	"default_time_zone":                      "+0:00",
	"disabled_storage_engines":               "MyISAM",
	"information_schema_stats_expiry":        "0",
	"innodb_adaptive_hash_index":             "ON",
	"innodb_buffer_pool_dump_at_shutdown":    "1",
	"innodb_buffer_pool_dump_pct":            "100",
	"innodb_buffer_pool_in_core_file":        "OFF",
	"innodb_buffer_pool_load_at_startup":     "0",
	"innodb_flush_method":                    "O_DIRECT",
	"innodb_flush_neighbors":                 "0",
	"innodb_lock_wait_timeout":               "60",
	"innodb_log_file_size":                   "800M",
	"innodb_log_files_in_group":              "2",
	"innodb_log_write_ahead_size":            "512",
	"innodb_online_alter_log_max_size":       "1073741824",
	"innodb_print_all_deadlocks":             "1",
	"innodb_random_read_ahead":               "false",
	"innodb_read_ahead_threshold":            "0",
	"innodb_tmpdir":                          "/tmp",
	"innodb_undo_log_truncate":               "OFF",
	"join_buffer_size":                       "2M",
	"lock_wait_timeout":                      "60",
	"log_error_verbosity":                    "3",
	"log_slow_extra":                         "ON",
	"long_query_time":                        "2",
	"loose_binlog_transaction_compression":   "ON",
	"loose_innodb_numa_interleave":           "ON",
	"loose_innodb_validate_tablespace_paths": "OFF",
	"max_allowed_packet":                     "1G",
	"max_connections":                        "100000",
	"max_heap_table_size":                    "64M",
	"max_sp_recursion_depth":                 "20",
	"print_identified_with_as_hex":           "ON",
	"slow_query_log":                         "ON",
	"sort_buffer_size":                       "4M",
	"table_definition_cache":                 "65536",
	"table_open_cache":                       "65536",
	"temptable_use_mmap":                     "OFF",
	"thread_cache_size":                      "100",
	"tmp_table_size":                         "64M",
	"tmpdir":                                 "/tmp",
	"transaction_isolation":                  "READ-COMMITTED",
	"wait_timeout":                           "604800",
}

var cnfConst = map[string]map[string]string{
	"mysqld": {
		"admin_port":               "33062",
		"binlog_format":            "ROW",
		"datadir":                  "/var/lib/mysql/data",
		"enforce_gtid_consistency": "ON",
		"gtid_mode":                "ON",
		"log_replica_updates":      "ON",
		"loose_replication_optimize_for_static_plugin_config": "ON",
		"loose_replication_sender_observe_commit_only":        "OFF",
		"mysqlx_port":         "33060",
		"pid_file":            "/run/mysqld.pid",
		"port":                "3306",
		"read_only":           "ON",
		"relay_log_recovery":  "OFF",
		"secure_file_priv":    "NULL",
		"skip_name_resolve":   "ON",
		"skip_replica_start":  "ON",
		"slow_query_log_file": "/var/log/mysql/mysql.slow",
		"socket":              "/run/mysqld.sock",
		"super_read_only":     "ON",
	},
	"client": {
		"loose_default_character_set": "utf8mb4",
		"port":                        "3306",
		"socket":                      "/run/mysqld.sock",
	},
	"mysql": {
		"auto_rehash":  "OFF",
		"init_command": "\"SET autocommit=0\"",
	},
}

// options the operator never lets into the server section
var cnfForbidden = []string{"log_bin", "log_error", "skip_log_bin", "disable_log_bin"}

type R04Step struct {
	Conf  int   `json:"conf"` // index into Confs, -1: none
	Mem   int   `json:"mem"`
	Fault Fault `json:"fault"`
}

type R04Mem struct{ Req, Lim string }

type R04Plan struct {
	Confs  []map[string]string `json:"confs"`
	Totals []int64             `json:"totals"` // as many as Confs and Pure
	Pure   []map[string]string `json:"pure"`   // only for the generator
	Mems   []R04Mem            `json:"mems"`
	Limit  int                 `json:"limit"`
	Steps  []R04Step           `json:"steps"`
}

func keysOf(m map[string]string) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func base(k string) string { return strings.TrimPrefix(strings.ReplaceAll(k, "-", "_"), "loose_") }

func spell(t *rapid.T, k string) string {
	loose := strings.HasPrefix(k, "loose_")
	k = base(k)
	if yes(t, "loose", 5) {
		loose = !loose
	}
	b := []byte(k)
	if loose {
		b = []byte("loose_" + k)
	}
	how := vt.Uni(t, "dash", 4)
	for i := range b {
		if b[i] == '_' && (how == 1 || how == 2 && vt.Uni(t, "d", 2) == 1) {
			b[i] = '-'
		}
	}
	return string(b)
}

func genUserConf(t *rapid.T) map[string]string {
	r := map[string]string{}
	n := vt.Uni(t, "nopts", 8)
	var last string
	for i := 0; i < n; i++ {
		var k string
		switch vt.Uni(t, "from", 6) {
		case 0:
			k = one(t, "def", keysOf(cnfDefault)...)
		case 1:
			k = one(t, "const", keysOf(cnfConst["mysqld"])...)
		case 2:
			k = one(t, "forb", cnfForbidden...)
		case 3:
			k = one(t, "known", "innodb_buffer_pool_size", "lower_case_table_names", "default_character_set", "auto_rehash", "init_command", "log_bin_trust_function_creators", "innodb_buffer_pool_instances")
		case 4:
			k = one(t, "free", "foo", "foo_bar", "foo_bar_baz", "loose_plugin_x", "a_loose_b", "innodb_foo")
		case 5:
			if last != "" {
				k = base(last) // another spelling of the same option
			} else {
				k = "foo_bar"
			}
		}
		k = spell(t, k)
		last = k
		r[k] = one(t, "val", "1", "ON", "100M", "a b", "'x=y'", "", "\"SET a=1\"", strconv.Itoa(i), "OFF", "2G")
	}
	if yes(t, "opaque", 3) {
		r["_include"] = one(t, "opq", "performance-schema-instrument='memory/%=ON'", "performance-schema-instrument='memory/%=ON'\nperformance-schema-instrument='wait/lock/table/sql/handler=OFF'\n",
			"zz_first=1\n# comment\nzz_second", "\nzz_third = 3\n\n")
	}
	return r
}

func genR04(t *rapid.T) (p R04Plan) {
	for i, n := 0, 1+vt.Uni(t, "nconf", 4); i < n+8; i++ {
		if i < n {
			p.Confs = append(p.Confs, genUserConf(t))
		} else {
			p.Pure = append(p.Pure, genUserConf(t))
		}
		p.Totals = append(p.Totals, one(t, "total", 0, 1, 99, 134217728, 191739612, 191739700, 268435456, 1<<30, 3<<30, 1500<<20, 1000000000, 64<<30, rapid.Int64Range(0, 1<<40).Draw(t, "any")))
	}
	for i := 0; i < 2; i++ {
		p.Mems = append(p.Mems, R04Mem{one(t, "req", "", "", "100Mi", "1Gi", "3G", "0"), one(t, "lim", "", "", "300Mi", "8Gi", "5G")})
	}
	p.Limit = one(t, "limit", 1, 2, 3, 10)
	for i := 0; i < 2+vt.Uni(t, "nsteps", 10); i++ {
		s := R04Step{Conf: vt.Uni(t, "conf", len(p.Confs)+1) - 1, Mem: vt.Uni(t, "mem", 2)}
		if yes(t, "fault", 3) {
			s.Fault = genFault(t, 45)
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

type option struct{ name, value string }

// parseCnf splits my.cnf text into options by section; the free-form text has to be part of the server section.
func parseCnf(text, opaque string) (map[string][]option, error) {
	if strings.TrimSpace(opaque) != "" {
		i := strings.Index(text, opaque)
		if i < 0 {
			return nil, fmt.Errorf("the free-form text %q is not kept", opaque)
		}
		h := strings.LastIndex(text[:i], "\n[")
		if strings.HasPrefix(text, "[") && h < 0 {
			h = 0
		}
		sec := strings.TrimSpace(text[h:])
		if !strings.HasPrefix(sec, "[mysqld]") {
			return nil, fmt.Errorf("the free-form text %q is not in the [mysqld] section", opaque)
		}
		text = text[:i] + text[i+len(opaque):]
	}
	r := map[string][]option{}
	sec, inc := "", false
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "" || l[0] == '#' || l[0] == ';':
		case l[0] == '[':
			sec = strings.Trim(l, "[]")
		case strings.HasPrefix(l, "!includedir"):
			if strings.TrimSpace(strings.TrimPrefix(l, "!includedir")) == "/etc/mysql-conf.d" {
				inc = true
			}
		default:
			k, v, _ := strings.Cut(l, "=")
			r[sec] = append(r[sec], option{strings.TrimSpace(k), strings.TrimSpace(v)})
		}
	}
	if !inc {
		return nil, fmt.Errorf("the instance specific configuration is not included")
	}
	return r, nil
}

// judgeCnf compares generated text with the reference; it returns the effective server options.
func judgeCnf(text string, conf map[string]string, total int64) (map[string]string, error) {
	secs, err := parseCnf(text, conf["_include"])
	if err != nil {
		return nil, err
	}
	for s, m := range cnfConst {
		if s == "mysqld" {
			continue
		}
		got := map[string]string{}
		for _, o := range secs[s] {
			got[base(o.name)] = o.value
		}
		for k, v := range m {
			if got[base(k)] != v {
				return nil, fmt.Errorf("section %s: %s = %q, mandatory value is %q", s, k, got[base(k)], v)
			}
			delete(got, base(k))
		}
		if len(got) > 0 {
			return nil, fmt.Errorf("section %s has the unexpected options %v", s, got)
		}
	}
	for s := range secs {
		if cnfConst[s] == nil {
			return nil, fmt.Errorf("unexpected section %q", s)
		}
	}
	eff, names := map[string]string{}, map[string]string{}
	for _, o := range secs["mysqld"] {
		eff[base(o.name)] = o.value // the last one wins
		names[base(o.name)] = strings.ReplaceAll(o.name, "-", "_")
	}
	user := map[string][]string{}
	for k := range conf {
		if k != "_include" {
			user[base(k)] = append(user[base(k)], k)
		}
	}
	fixed := map[string]string{}
	for k, v := range cnfConst["mysqld"] {
		fixed[base(k)] = v
	}
	forb := map[string]bool{}
	for _, k := range cnfForbidden {
		forb[k] = true
		if v, ok := eff[k]; ok {
			return nil, fmt.Errorf("%s = %q is set", names[k], v)
		}
	}
	for k, v := range fixed {
		if g, ok := eff[k]; !ok || g != v {
			return nil, fmt.Errorf("mandatory option %s is %q (present: %v), want %q", k, g, ok, v)
		}
	}
	want := map[string]bool{}
	for k := range fixed {
		want[k] = true
	}
	for k, sp := range user {
		if forb[k] {
			continue
		}
		want[k] = true
		if _, ok := fixed[k]; ok {
			continue
		}
		g, ok := eff[k]
		if !ok {
			return nil, fmt.Errorf("user option %v is missing", sp)
		}
		found, sameSpelling := false, false
		for _, s := range sp {
			if strings.TrimSpace(conf[s]) == g {
				found = true
				if strings.ReplaceAll(s, "-", "_") == names[k] {
					sameSpelling = true
				}
			}
		}
		if !found {
			return nil, fmt.Errorf("user option %v has the value %q", sp, g)
		}
		if !sameSpelling {
			return nil, fmt.Errorf("user option %v is written as %s", sp, names[k])
		}
	}
	for k, v := range cnfDefault {
		want[base(k)] = true
		if user[base(k)] != nil {
			continue
		}
		if g := eff[base(k)]; g != v || names[base(k)] != k {
			return nil, fmt.Errorf("default option %s is %s = %q, want %q", k, names[base(k)], g, v)
		}
	}
	want["innodb_buffer_pool_size"] = true
	if user["innodb_buffer_pool_size"] == nil {
		n, err := strconv.ParseInt(eff["innodb_buffer_pool_size"], 10, 64)
		if err != nil {
			return nil, fmt.Errorf("innodb_buffer_pool_size is %q", eff["innodb_buffer_pool_size"])
		}
		ideal := float64(total) * 0.7
		if ideal <= 128<<20 {
			if n != 128<<20 {
				return nil, fmt.Errorf("innodb_buffer_pool_size is %d with %d bytes of memory", n, total)
			}
		} else if float64(n) > ideal+1 || math.Abs(float64(n)-ideal) > 1<<20+100 || n < 128<<20 {
			return nil, fmt.Errorf("innodb_buffer_pool_size is %d with %d bytes of memory", n, total)
		}
	}
	for k, v := range eff {
		if !want[k] {
			return nil, fmt.Errorf("option %s = %q comes from nowhere", names[k], v)
		}
	}
	return eff, nil
}

func runR04(t *testing.T, p R04Plan) (c vt.Case, err error) {
	over := 0
	for i, conf := range append(append([]map[string]string(nil), p.Confs...), p.Pure...) {
		total := p.Totals[i]
		text := mycnf.Generate(conf, total)
		for j := 0; j < 6; j++ {
			again := map[string]string{} // same content, another iteration order
			for k, v := range conf {
				again[k] = v
			}
			if x := mycnf.Generate(again, total); x != text {
				return c, fmt.Errorf("Generate(%s, %d) gives different results:\n%s\n--\n%s", js(conf), total, text, x)
			}
		}
		if _, err := judgeCnf(text, conf, total); err != nil {
			return c, fmt.Errorf("Generate(%s, %d): %v\n%s", js(conf), total, err, text)
		}
		for k := range conf {
			if _, ok := cnfConst["mysqld"][base(k)]; ok || contains(cnfForbidden, base(k)) {
				over++
			}
		}
	}
	if over > 0 {
		c.Classes = append(c.Classes, "forces")
	}

	e := NewEnv()
	e.R.MySQLConfigMapHistoryLimit = p.Limit
	clock := time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
	stamp := func() {
		l := &corev1.ConfigMapList{}
		must(e.Raw.List(bg, l, client.InNamespace(tns)))
		for i := range l.Items {
			if l.Items[i].CreationTimestamp.IsZero() {
				clock = clock.Add(time.Minute)
				l.Items[i].CreationTimestamp = metav1.NewTime(clock)
				must(e.Raw.Update(bg, &l.Items[i]))
			}
		}
	}
	e.OnCall = func(verb, kind string, key client.ObjectKey) {
		if verb == "list" {
			stamp()
		}
	}
	putCertSecret(e, tns, "c", 1)
	var hist []string
	nameOf := map[string]string{}
	changes, last := 0, ""
	fail := func(f string, x ...any) error {
		return fmt.Errorf("%s\nhistory:\n%s", fmt.Sprintf(f, x...), strings.Join(hist, "\n"))
	}
	// refers returns the name and the content of the configuration the StatefulSet uses.
	refers := func() (obj, string, string, error) {
		d := e.Dump()
		s := d["StatefulSet "+tns+"/moco-c"]
		if s == nil {
			return nil, "", "", nil
		}
		n, _ := sub(named(sub(s, "spec", "template", "spec", "volumes"), "mysql-conf"), "configMap", "name").(string)
		cm := d["ConfigMap "+tns+"/"+n]
		if cm == nil {
			return nil, "", "", fail("the StatefulSet refers to the ConfigMap %q, which does not exist", n)
		}
		text, _ := sub(cm, "data", "my.cnf").(string)
		return s, n, text, nil
	}
	for _, st := range p.Steps {
		mem := p.Mems[st.Mem]
		my := obj{"name": "mysqld", "image": "img"}
		res := obj{}
		var total int64
		if mem.Lim != "" {
			res["limits"] = obj{"memory": mem.Lim}
			q := resource.MustParse(mem.Lim)
			total = q.Value()
		}
		if mem.Req != "" {
			res["requests"] = obj{"memory": mem.Req}
			q := resource.MustParse(mem.Req)
			if !q.IsZero() {
				total = q.Value()
			}
		}
		my["resources"] = res
		spec := obj{"replicas": 1, "serverIDBase": 1, "podTemplate": obj{"spec": obj{"containers": []any{my}}},
			"volumeClaimTemplates": []any{obj{"metadata": obj{"name": "mysql-data"}, "spec": obj{"resources": obj{"requests": obj{"storage": "1Gi"}}}}}}
		var conf map[string]string
		if st.Conf >= 0 {
			conf = p.Confs[st.Conf]
			spec["mysqlConfigMapName"] = "user"
			putConf(e, "user", conf)
		}
		must(e.PutCluster(tns, "c", "uid-c", spec, nil))
		err := e.Reconcile(tns, "c", st.Fault)
		stamp()
		s, n, text, err2 := refers()
		hist = append(hist, fmt.Sprintf("conf %d memory %v fault %+v: error %v, uses %s", st.Conf, mem, st.Fault, err != nil, n))
		if err2 != nil {
			return c, err2
		}
		if err != nil {
			if st.Fault.At == 0 {
				return c, fail("reconciliation failed: %v", err)
			}
			c.Classes = append(c.Classes, "fault")
			continue
		}
		if s == nil {
			if st.Fault.At != 0 {
				continue
			}
			return c, fail("no StatefulSet")
		}
		if text == last && last != "" && st.Fault.Mode == "stale" {
			continue
		}
		if text != last {
			changes++
			last = text
		}
		eff, err := judgeCnf(text, conf, total)
		if err != nil {
			return c, fail("configuration of %s with memory %+v: %v\n%s", js(conf), mem, err, text)
		}
		if o, ok := nameOf[text]; ok && o != n {
			return c, fail("the same configuration has the names %s and %s", o, n)
		}
		for x, o := range nameOf {
			if o == n && x != text {
				return c, fail("the name %s has been used for different configurations", n)
			}
		}
		nameOf[text] = n
		// what can be set only at initialisation is set then
		arg, found := "", 0
		args, _ := sub(named(sub(s, "spec", "template", "spec", "initContainers"), "moco-init"), "args").([]any)
		for _, a := range args {
			if v, ok := strings.CutPrefix(fmt.Sprint(a), "--lower-case-table-names="); ok {
				arg, found = v, found+1
			}
		}
		v, ok := eff["lower_case_table_names"]
		if ok && (found != 1 || strings.TrimSpace(arg) != v) || !ok && found != 0 {
			return c, fail("lower_case_table_names is %q (set: %v) in my.cnf, but the data is initialised with %q (%d times)", v, ok, arg, found)
		}
		if err := e.Reconcile(tns, "c", Fault{}); err != nil {
			return c, fail("reconciliation failed: %v", err)
		}
		if _, n2, _, err := refers(); err != nil || n2 != n {
			return c, fail("another reconciliation changes the configuration from %s to %s (%v)", n, n2, err)
		}
	}
	if changes > 2 {
		c.Classes = append(c.Classes, "history")
	}
	c.Nontrivial = over > 0 || changes > 1
	return c, nil
}

func TestR04(t *testing.T) { vt.Run(t, "R04", genR04, runR04) }
