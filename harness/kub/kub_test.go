// Package kub runs kubectl-moco against an in-memory API server.
package kub

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	kubectlmoco "github.com/cybozu-go/moco/cmd/kubectl-moco/cmd"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/password"
	"github.com/gorilla/websocket"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"pgregory.net/rapid"

	"verif/internal/kapi"
	"verif/internal/vt"
)

const (
	annDemote = "moco.cybozu.com/demote"
	annStopC  = "moco.cybozu.com/clustering-stopped"
	annStopR  = "moco.cybozu.com/reconciliation-stopped"
)

// TestMain runs the command when started by runCmd.
func TestMain(m *testing.M) {
	if a := os.Getenv("VERIF_KUBECTL"); a != "" {
		var args []string
		if err := json.Unmarshal([]byte(a), &args); err != nil {
			os.Exit(98)
		}
		time.AfterFunc(100*time.Second, func() { os.Exit(97) })
		os.Args = append([]string{"kubectl-moco"}, args...)
		kubectlmoco.Execute()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// PodP is a pod.
type PodP struct {
	None  bool              `json:"none,omitempty"`
	Ann   map[string]string `json:"ann,omitempty"`
	Phase string            `json:"phase,omitempty"`
}

// ClusterP is a cluster and what belongs to it.
type ClusterP struct {
	NS       string            `json:"ns"`
	Name     string            `json:"name"`
	Replicas int32             `json:"replicas"`
	Primary  int               `json:"primary"`
	Offline  bool              `json:"offline,omitempty"`
	Ann      map[string]string `json:"ann,omitempty"`
	Pods     []PodP            `json:"pods"`
	Secret   string            `json:"secret,omitempty"` // "", none, oldversion
}

// Cmd is a command line.
type Cmd struct {
	Op    string   `json:"cmd"`
	NS    string   `json:"ns"`
	How   int      `json:"how"` // how the namespace is given
	Name  string   `json:"name"`
	User  string   `json:"user,omitempty"`
	Fmt   string   `json:"fmt,omitempty"`
	Index *int     `json:"index,omitempty"`
	Args  []string `json:"args,omitempty"`
	Stdin bool     `json:"stdin,omitempty"`
	In    string   `json:"in,omitempty"`
	Exit  int      `json:"exit,omitempty"` // of the remote command
	Extra int      `json:"extra,omitempty"`
	// what happens meanwhile
	Race  bool `json:"race,omitempty"`  // someone else changes the object just before the write
	Fault int  `json:"fault,omitempty"` // the n-th request about objects fails
	Code  int  `json:"code,omitempty"`
	After bool `json:"after,omitempty"`
}

// Plan is a set of clusters and a sequence of commands.
type Plan struct {
	Ctx      string     `json:"ctx,omitempty"` // namespace of the kubeconfig context
	Clusters []ClusterP `json:"clusters"`
	Cmds     []Cmd      `json:"cmds"`
}

var (
	nss   = []string{"default", "ns1", "ns2"}
	names = []string{"test", "test-1", "tes", "other"}
)

func genAnn(t *rapid.T, keys ...string) map[string]string {
	switch vt.Uni(t, "ann", 4) {
	case 0:
		return nil
	case 1:
		return map[string]string{"unrelated": "x"}
	}
	m := map[string]string{"unrelated": "y", "moco.cybozu.com/demoted": "true"}
	for _, k := range keys {
		switch vt.Uni(t, "annv", 4) {
		case 0, 1:
			m[k] = "true"
		case 2:
			m[k] = []string{"false", "", "True"}[vt.Uni(t, "annx", 3)]
		}
	}
	return m
}

func gen(t *rapid.T) Plan {
	p := Plan{Ctx: []string{"", "ns1", "ns2"}[vt.Uni(t, "ctx", 3)]}
	for _, ns := range nss {
		for _, n := range names {
			if vt.Uni(t, "has", 3) == 0 {
				continue
			}
			c := ClusterP{NS: ns, Name: n, Replicas: []int32{3, 1, 5, 3}[vt.Uni(t, "replicas", 4)], Offline: vt.Uni(t, "offline", 6) == 5, Ann: genAnn(t, annStopC, annStopR)}
			c.Primary = vt.Uni(t, "primary", int(c.Replicas))
			for i := range c.Replicas + 2 { // also pods beyond the replicas
				c.Pods = append(c.Pods, PodP{None: vt.Uni(t, "nopod", 10) == 9 || i >= c.Replicas && vt.Uni(t, "stray", 2) == 0, Ann: genAnn(t, annDemote), Phase: []string{"Running", "Running", "Running", "Running", "Running", "Running", "Failed", "Succeeded"}[vt.Uni(t, "phase", 8)]})
			}
			c.Secret = []string{"", "", "", "", "", "none", "oldversion"}[vt.Uni(t, "secret", 7)]
			p.Clusters = append(p.Clusters, c)
		}
	}
	n := rapid.IntRange(1, 4).Draw(t, "n")
	for range n {
		c := Cmd{Op: []string{"switchover", "switchover", "stop clustering", "start clustering", "stop reconciliation", "start reconciliation", "credential", "mysql", "complete"}[vt.Uni(t, "op", 9)],
			NS: nss[vt.Uni(t, "ns", 3)], How: vt.Uni(t, "how", 4), Name: names[vt.Uni(t, "name", 4)]}
		if len(p.Clusters) > 0 && vt.Uni(t, "existing", 6) > 0 {
			x := p.Clusters[vt.Uni(t, "which", len(p.Clusters))]
			c.NS, c.Name = x.NS, x.Name
		}
		if vt.Uni(t, "same", 3) == 2 && len(p.Cmds) > 0 {
			c.NS, c.Name = p.Cmds[len(p.Cmds)-1].NS, p.Cmds[len(p.Cmds)-1].Name
		}
		switch c.Op {
		case "credential":
			c.User = []string{"", "moco-readonly", "moco-writable", "moco-admin", "moco-backup", "root"}[vt.Uni(t, "user", 6)]
			c.Fmt = []string{"", "plain", "mycnf", "mycnf", "json"}[vt.Uni(t, "fmt", 5)]
		case "mysql":
			c.User = []string{"", "moco-readonly", "moco-writable", "moco-admin"}[vt.Uni(t, "user", 4)]
			if vt.Uni(t, "idx", 2) == 1 {
				i := vt.Uni(t, "index", 6)
				c.Index = &i
			}
			c.Args = [][]string{nil, {"-N", "-e", "SELECT VERSION()"}, {"-u", "x"}, {"--index", "2"}, {"a b", "", "'\""}}[vt.Uni(t, "args", 5)]
			if c.Stdin = vt.Uni(t, "stdin", 2) == 1; c.Stdin {
				c.In = []string{"", "SELECT 1;\n", strings.Repeat("x", 5000)}[vt.Uni(t, "in", 3)]
			}
			c.Exit = []int{0, 0, 0, 1, 3}[vt.Uni(t, "exit", 5)]
		case "complete":
			c.Name = []string{"", "t", "test", "test-", "o", "x"}[vt.Uni(t, "prefix", 6)]
			c.Args = strings.Fields([]string{"switchover", "stop clustering", "start reconciliation", "credential", "mysql"}[vt.Uni(t, "what", 5)])
		default:
			c.Race = vt.Uni(t, "race", 5) == 4
		}
		if vt.Uni(t, "extra", 12) == 11 && c.Op != "mysql" && c.Op != "complete" {
			c.Extra = []int{-1, 1}[vt.Uni(t, "extran", 2)]
		}
		if vt.Uni(t, "fault", 6) == 5 && c.Op != "complete" {
			c.Fault, c.Code, c.After = 1+vt.Uni(t, "at", 3), []int{403, 409, 422}[vt.Uni(t, "code", 3)], vt.Uni(t, "after", 2) == 1
		}
		p.Cmds = append(p.Cmds, c)
	}
	return p
}

// ---- the cluster side ----

type execReq struct {
	NS, Pod, Container string
	Command            []string
	Stdin, Stdout, TTY bool
	In                 []byte
}

type env struct {
	api   *kapi.Server
	url   string
	dir   string
	mu    sync.Mutex
	execs []execReq
	cmd   *Cmd
	close func()
}

func (e *env) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	p := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	if len(p) == 7 && p[4] == "pods" && p[6] == "exec" {
		e.exec(w, r, p[3], p[5])
		return
	}
	e.api.ServeHTTP(w, r)
}

func (e *env) exec(w http.ResponseWriter, r *http.Request, ns, pod string) {
	q := r.URL.Query()
	x := execReq{NS: ns, Pod: pod, Container: q.Get("container"), Command: q["command"], Stdin: q.Get("stdin") == "true", Stdout: q.Get("stdout") == "true", TTY: q.Get("tty") == "true"}
	if r.Header.Get("Upgrade") != "websocket" {
		http.Error(w, "use websocket", http.StatusBadRequest)
		return
	}
	up := websocket.Upgrader{Subprotocols: []string{"v5.channel.k8s.io"}, CheckOrigin: func(*http.Request) bool { return true }}
	c, err := up.Upgrade(w, r, nil)
	if err != nil {
		return
	}
	defer c.Close()
	for x.Stdin {
		_, m, err := c.ReadMessage()
		if err != nil {
			break
		}
		if len(m) >= 2 && m[0] == 255 && m[1] == 0 {
			break
		}
		if len(m) > 1 && m[0] == 0 {
			x.In = append(x.In, m[1:]...)
		}
	}
	e.mu.Lock()
	e.execs = append(e.execs, x)
	exit := e.cmd.Exit
	e.mu.Unlock()
	_ = c.WriteMessage(websocket.BinaryMessage, append([]byte{1}, "remote output\n"...))
	st := metav1.Status{Status: metav1.StatusSuccess}
	if exit != 0 {
		st = metav1.Status{Status: metav1.StatusFailure, Reason: "NonZeroExitCode", Message: "command terminated with non-zero exit code",
			Details: &metav1.StatusDetails{Causes: []metav1.StatusCause{{Type: "ExitCode", Message: strconv.Itoa(exit)}}}}
	}
	b, _ := json.Marshal(st)
	_ = c.WriteMessage(websocket.BinaryMessage, append([]byte{3}, b...))
	_ = c.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
}

func pw(c ClusterP, user string) string {
	return "pw" + c.NS + c.Name + strings.TrimPrefix(user, "moco-")
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func podName(name string, i int) string { return fmt.Sprintf("moco-%s-%d", name, i) }

func newEnv(p Plan) *env {
	e := &env{api: kapi.New()}
	d, err := os.MkdirTemp("", "verif-kub")
	must(err)
	e.dir = d
	for _, c := range p.Clusters {
		cl := &mocov1beta2.MySQLCluster{ObjectMeta: metav1.ObjectMeta{Namespace: c.NS, Name: c.Name, Annotations: c.Ann, UID: "u", Generation: 3}}
		cl.Spec.Replicas, cl.Spec.Offline = c.Replicas, c.Offline
		cl.Spec.ServerIDBase = 7
		cl.Status.CurrentPrimaryIndex = c.Primary
		cl.Status.ErrantReplicas = 1
		cl.Status.ErrantReplicaList = []int{2}
		e.api.Put("mysqlclusters", cl)
		for i, pp := range c.Pods {
			if pp.None {
				continue
			}
			e.api.Put("pods", &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: c.NS, Name: podName(c.Name, i), Annotations: pp.Ann, Labels: map[string]string{"l": "x"}},
				Spec:   corev1.PodSpec{Containers: []corev1.Container{{Name: "agent", Image: "a"}, {Name: "mysqld", Image: "b"}}},
				Status: corev1.PodStatus{Phase: corev1.PodPhase(pp.Phase)}})
		}
		if c.Secret != "none" {
			base, err := password.NewMySQLPassword()
			must(err)
			s := base.ToSecret()
			s.Namespace, s.Name = c.NS, "moco-"+c.Name
			for k := range s.Data {
				s.Data[k] = []byte("pw" + c.NS + c.Name + strings.ToLower(strings.TrimSuffix(k, "_PASSWORD")))
			}
			if c.Secret == "oldversion" {
				s.Annotations = map[string]string{constants.AnnSecretVersion: "0"}
			}
			e.api.Put("secrets", s)
			sys := s.DeepCopy()
			sys.Namespace, sys.Name = "moco-system", "mysql-"+c.NS+"."+c.Name
			e.api.Put("secrets", sys)
		}
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	srv := &http.Server{Handler: e, ErrorLog: nil}
	go func() { _ = srv.Serve(l) }()
	e.url = "http://" + l.Addr().String()
	e.close = func() {
		_ = srv.Close()
		os.RemoveAll(d)
	}
	ctx := map[string]any{"cluster": "k", "user": "u"}
	if p.Ctx != "" {
		ctx["namespace"] = p.Ctx
	}
	kc, _ := json.Marshal(map[string]any{"apiVersion": "v1", "kind": "Config", "current-context": "c",
		"contexts": []any{map[string]any{"name": "c", "context": ctx}},
		"clusters": []any{map[string]any{"name": "k", "cluster": map[string]any{"server": e.url}}},
		"users":    []any{map[string]any{"name": "u", "user": map[string]any{}}}})
	must(os.WriteFile(filepath.Join(d, "config"), kc, 0o600))
	return e
}

func (e *env) run(c *Cmd, args []string) (out, errOut string, code int, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	a, _ := json.Marshal(args)
	cmd := exec.CommandContext(ctx, os.Args[0])
	cmd.Env = []string{"VERIF_KUBECTL=" + string(a), "HOME=" + e.dir, "KUBECONFIG=" + filepath.Join(e.dir, "config"), "PATH=/usr/bin:/bin", "GOMAXPROCS=2"}
	var o, x bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &x
	cmd.Stdin = strings.NewReader(c.In)
	rerr := cmd.Run()
	code = cmd.ProcessState.ExitCode()
	var ee *exec.ExitError
	if rerr != nil && !errors.As(rerr, &ee) || code == 97 || code == 98 || ctx.Err() != nil {
		return "", "", 0, fmt.Errorf("%w: %v %d %s", vt.ErrInconclusive, rerr, code, x.String())
	}
	return o.String(), x.String(), code, nil
}

func (p Plan) args(c Cmd) []string {
	var nsArgs []string
	ns := c.NS
	def := p.Ctx
	if def == "" {
		def = "default"
	}
	switch {
	case c.How == 0 && ns == def:
	case c.How == 1:
		nsArgs = []string{"--namespace=" + ns}
	case c.How == 2:
		nsArgs = []string{"--namespace", ns}
	default:
		nsArgs = []string{"-n", ns}
	}
	var a []string
	if c.Op == "complete" {
		a = append([]string{"__complete"}, c.Args...)
		return append(append(a, nsArgs...), c.Name)
	}
	sub := strings.Fields(c.Op)
	if c.How == 3 {
		a = append(nsArgs, sub...)
	} else {
		a = append(sub, nsArgs...)
	}
	if c.User != "" {
		a = append(a, "-u", c.User)
	}
	if c.Fmt != "" {
		a = append(a, "--format", c.Fmt)
	}
	if c.Index != nil {
		a = append(a, "--index", strconv.Itoa(*c.Index))
	}
	if c.Stdin {
		a = append(a, "-i")
	}
	switch c.Extra {
	case -1:
		return a
	case 1:
		return append(a, c.Name, "other")
	}
	a = append(a, c.Name)
	if c.Args != nil {
		a = append(append(a, "--"), c.Args...)
	}
	return a
}

// state is everything stored, without versions.
func state(api *kapi.Server) map[string]any {
	r := map[string]any{}
	for k, o := range api.All() {
		o = kapi.Clone(o)
		b, _ := json.Marshal(o)
		if strings.HasPrefix(k, "mysqlclusters") {
			c := &mocov1beta2.MySQLCluster{}
			must(json.Unmarshal(b, c))
			b, _ = json.Marshal(c)
		}
		var x map[string]any
		must(json.Unmarshal(b, &x))
		m := x["metadata"].(map[string]any)
		for _, f := range []string{"resourceVersion", "managedFields", "generation"} {
			delete(m, f)
		}
		if a, _ := m["annotations"].(map[string]any); len(a) == 0 {
			delete(m, "annotations")
		}
		r[k] = x
	}
	return r
}

func ann(st map[string]any, res, ns, name string) map[string]any {
	x, _ := st[res+"|"+ns+"|"+name].(map[string]any)
	if x == nil {
		return nil
	}
	m := x["metadata"].(map[string]any)
	a, _ := m["annotations"].(map[string]any)
	if a == nil {
		a = map[string]any{}
		m["annotations"] = a
	}
	return a
}

func clean(st map[string]any) {
	for _, x := range st {
		m := x.(map[string]any)["metadata"].(map[string]any)
		if a, _ := m["annotations"].(map[string]any); len(a) == 0 {
			delete(m, "annotations")
		}
	}
}

func diff(a, b map[string]any) string {
	var r []string
	for k := range a {
		if !reflect.DeepEqual(a[k], b[k]) {
			x, _ := json.Marshal(a[k])
			y, _ := json.Marshal(b[k])
			r = append(r, fmt.Sprintf("%s: expected %s, is %s", k, x, y))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			r = append(r, k+" appeared")
		}
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

func run(t *testing.T, p Plan) (c vt.Case, err error) {
	e := newEnv(p)
	defer e.close()
	find := func(ns, name string) *ClusterP {
		for i := range p.Clusters {
			if p.Clusters[i].NS == ns && p.Clusters[i].Name == name {
				return &p.Clusters[i]
			}
		}
		return nil
	}
	class := map[string]bool{}
	for i := range p.Cmds {
		cmd := p.Cmds[i]
		args := p.args(cmd)
		fail := func(f string, a ...any) (vt.Case, error) {
			return c, fmt.Errorf("kubectl-moco %q: %s", args, fmt.Sprintf(f, a...))
		}
		e.mu.Lock()
		e.cmd, e.execs = &cmd, nil
		e.mu.Unlock()
		before := state(e.api)
		want := state(e.api)
		var reqs, writes []string
		raced, faulted, effect := false, false, false
		n := 0
		e.api.Mu.Lock()
		e.api.Hook = func(r kapi.Req) (v kapi.Verdict) {
			if r.Discovery {
				return
			}
			n++
			reqs = append(reqs, r.String())
			if n == cmd.Fault {
				faulted = true
				if cmd.After {
					v.After = cmd.Code
				} else {
					v.Before = cmd.Code
				}
			}
			if r.Write() {
				writes = append(writes, r.String())
				if v.Before == 0 {
					effect = true
				}
				if cmd.Race && !raced && v.Before == 0 {
					raced = true
					res, name := "mysqlclusters", cmd.Name
					if cmd.Op == "switchover" {
						res, name = "pods", r.Name
					}
					var o map[string]any
					if e.api.GetLocked(res, r.NS, name, &o) {
						m := o["metadata"].(map[string]any)
						a, _ := m["annotations"].(map[string]any)
						if a == nil {
							a = map[string]any{}
							m["annotations"] = a
						}
						a["raced"] = "yes"
						e.api.Put(res, o)
						e.api.Touch(res, r.NS, name)
					}
				}
			}
			return
		}
		e.api.Mu.Unlock()
		out, errOut, code, rerr := e.run(&cmd, args)
		if rerr != nil {
			return c, rerr
		}
		e.api.Mu.Lock()
		e.api.Hook = nil
		e.api.Mu.Unlock()
		after := state(e.api)
		if raced { // the other's change must survive; it is not part of the effect
			res, name := "mysqlclusters", cmd.Name
			if cmd.Op == "switchover" {
				cl := find(cmd.NS, cmd.Name)
				if cl == nil {
					return fail("wrote although the cluster does not exist: %v", writes)
				}
				res, name = "pods", podName(cl.Name, cl.Primary)
			}
			a := ann(after, res, cmd.NS, name)
			if a["raced"] != "yes" {
				return fail("a concurrent change of %s %s was lost", res, name)
			}
			for _, st := range []map[string]any{before, want} {
				if a := ann(st, res, cmd.NS, name); a != nil {
					a["raced"] = "yes"
				}
			}
			class["race"] = true
		}
		cl := find(cmd.NS, cmd.Name)
		ok := cl != nil
		if cmd.Extra != 0 {
			ok = false
		}
		alt := want // another acceptable result
		switch cmd.Op {
		case "switchover":
			ok = ok && !cl.Offline && cl.Replicas > 1 && !cl.Pods[cl.Primary].None
			if ok {
				ann(want, "pods", cmd.NS, podName(cl.Name, cl.Primary))[annDemote] = "true"
			}
		case "stop clustering", "stop reconciliation", "start clustering", "start reconciliation":
			key := annStopC
			if strings.HasSuffix(cmd.Op, "reconciliation") {
				key = annStopR
			}
			if ok {
				a := ann(want, "mysqlclusters", cmd.NS, cmd.Name)
				if strings.HasPrefix(cmd.Op, "stop") {
					a[key] = "true"
				} else if a[key] == "true" {
					delete(a, key)
				} else { // it is not stopped: a meaningless value may stay or go
					b, _ := json.Marshal(want)
					alt = map[string]any{}
					must(json.Unmarshal(b, &alt))
					delete(ann(alt, "mysqlclusters", cmd.NS, cmd.Name), key)
				}
			}
		case "credential":
			ok = cmd.Extra == 0 && cl != nil && cl.Secret == "" && cmd.User != "moco-backup" && cmd.User != "root" && cmd.Fmt != "json"
			if ok && code == 0 && !faulted {
				u := cmd.User
				if u == "" {
					u = "moco-readonly"
				}
				exp := pw(*cl, u) + "\n"
				if cmd.Fmt == "mycnf" {
					exp = fmt.Sprintf("[client]\nuser=%s\npassword=\"%s\"\n", u, pw(*cl, u))
				}
				if out != exp {
					return fail("printed %q instead of %q", out, exp)
				}
			}
			if !ok || faulted {
				if strings.Contains(out, "pw") {
					return fail("printed %q", out)
				}
			}
		case "mysql":
			idx := 0
			if ok {
				idx = cl.Primary
				if cmd.Index != nil {
					idx = *cmd.Index
				}
			}
			ok = ok && idx < int(cl.Replicas) && !cl.Pods[idx].None && cl.Pods[idx].Phase == "Running"
			if !ok || faulted {
				if len(e.execs) > 0 {
					return fail("ran %+v", e.execs)
				}
				break
			}
			if len(e.execs) != 1 {
				return fail("exit %d, ran %+v: %s %s", code, e.execs, out, errOut)
			}
			u := cmd.User
			if u == "" {
				u = "moco-readonly"
			}
			x := e.execs[0]
			exp := execReq{NS: cmd.NS, Pod: podName(cl.Name, idx), Container: "mysqld", Command: append([]string{"mysql", "--defaults-extra-file=" + constants.MyCnfSecretPath + "/" + u + "-my.cnf"}, cmd.Args...), Stdin: cmd.Stdin, Stdout: true, In: nil}
			if cmd.Stdin && cmd.In != "" {
				exp.In = []byte(cmd.In)
			}
			if !reflect.DeepEqual(x, exp) {
				return fail("ran %+v instead of %+v", x, exp)
			}
			if !strings.Contains(out, "remote output\n") {
				return fail("printed %q", out)
			}
			if cmd.Exit != 0 {
				if code == 0 {
					return fail("exit 0 although the remote command exited with %d", cmd.Exit)
				}
				class["remote-failed"] = true
				ok = false
			}
		case "complete":
			exp := map[string]bool{}
			for _, x := range p.Clusters {
				if x.NS == cmd.NS && strings.HasPrefix(x.Name, cmd.Name) {
					exp[x.Name] = true
				}
			}
			got := map[string]bool{}
			for _, l := range strings.Split(out, "\n") {
				if l != "" && !strings.HasPrefix(l, ":") {
					got[l] = true
				}
			}
			if !reflect.DeepEqual(got, exp) {
				return fail("completes to %v instead of %v", got, exp)
			}
			ok = true
		}
		clean(want)
		clean(alt)
		class[strings.Fields(cmd.Op)[0]] = true
		switch {
		case faulted:
			class["fault"] = true
			if code == 0 {
				return fail("exit 0 although a request failed with %d: %v", cmd.Code, reqs)
			}
			if !reflect.DeepEqual(after, before) && !(cmd.After && effect && ok && (reflect.DeepEqual(after, want) || reflect.DeepEqual(after, alt))) {
				clean(before)
				if d := diff(before, after); d != "" && !(cmd.After && effect && ok && reflect.DeepEqual(after, want)) {
					return fail("failed and changed %s", d)
				}
			}
		case raced && code != 0:
			// refused because of the concurrent change: nothing else may have changed
			clean(before)
			if d := diff(before, after); d != "" {
				return fail("failed because of a concurrent change and changed %s", d)
			}
		case ok:
			if code != 0 {
				return fail("exit %d: %s", code, errOut)
			}
			if d := diff(want, after); d != "" && diff(alt, after) != "" {
				return fail("%s (requests %v)", d, reqs)
			}
			class["done"] = true
		default:
			if code == 0 {
				return fail("exit 0 although it is impossible: %s", out)
			}
			clean(before)
			if d := diff(before, after); d != "" {
				return fail("failed but changed %s", d)
			}
			class["refused"] = true
		}
	}
	for k := range class {
		c.Classes = append(c.Classes, k)
	}
	c.Nontrivial = class["done"] && len(p.Clusters) > 1
	return c, nil
}

func TestK01(t *testing.T) { vt.Run(t, "K01", gen, run) }
