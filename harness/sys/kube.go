package sys

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"hash/fnv"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"

	"verif/internal/mysim"
)

// Sys is the world of one case.
type Sys struct {
	dir   string
	api   *API
	srv   *httptest.Server
	net   *mysim.Net
	sqlL  net.Listener
	stop  chan struct{}
	wg    sync.WaitGroup
	mu    sync.Mutex
	conns []net.Conn

	inst   map[string]*mysim.Server // ns/pod -> instance
	poked  map[string]time.Time
	rev    map[string]string    // ns/sts -> revision the pods started with
	gone   map[string]time.Time // terminating pods
	holdUp map[string]time.Time // crashed instances boot at
	nextIP int

	proc  *exec.Cmd
	procs int
	logs  []string
	Ports [3]string // metrics, probe, webhook
	acked []int64
	viol  string
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// certs writes a self-signed certificate good for everything.
func certs(dir string) {
	must(os.MkdirAll(dir, 0o755))
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	must(err)
	kd, err := x509.MarshalECPrivateKey(k)
	must(err)
	c := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	must(os.WriteFile(filepath.Join(dir, "tls.crt"), c, 0o644))
	must(os.WriteFile(filepath.Join(dir, "ca.crt"), c, 0o644))
	must(os.WriteFile(filepath.Join(dir, "tls.key"), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd}), 0o600))
}

func freePort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	return strconv.Itoa(l.Addr().(*net.TCPAddr).Port)
}

// NewSys starts the API server, the MySQL network and the kubelet.
func NewSys() *Sys {
	dir, err := os.MkdirTemp("", "sys")
	must(err)
	s := &Sys{dir: dir, api: NewAPI(), net: mysim.New(), stop: make(chan struct{}), inst: map[string]*mysim.Server{}, rev: map[string]string{}, poked: map[string]time.Time{}, gone: map[string]time.Time{}, holdUp: map[string]time.Time{}}
	s.net.NoTrace = true
	s.net.Latency = 5 * time.Millisecond
	s.srv = httptest.NewUnstartedServer(s.api)
	s.srv.Config.ErrorLog = nil
	s.srv.Config.ErrorLog = discard
	s.srv.Start()
	certs(filepath.Join(dir, "hook"))
	certs(filepath.Join(dir, "grpc"))
	must(os.WriteFile(filepath.Join(dir, "kubeconfig"), []byte(`{"apiVersion":"v1","kind":"Config","current-context":"c","contexts":[{"name":"c","context":{"cluster":"k","user":"u"}}],
"clusters":[{"name":"k","cluster":{"server":"`+s.srv.URL+`"}}],"users":[{"name":"u","user":{}}]}`), 0o644))
	s.sqlL, err = net.Listen("unix", filepath.Join(dir, "sql"))
	must(err)
	s.wg.Add(2)
	go s.serveSQL()
	go s.loop()
	return s
}

// Close ends everything.
func (s *Sys) Close() {
	s.Kill(syscall.SIGKILL)
	close(s.stop)
	_ = s.sqlL.Close()
	s.api.Close()
	s.srv.CloseClientConnections()
	s.srv.Close()
	s.net.Close()
	s.mu.Lock()
	for _, c := range s.conns {
		_ = c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
	_ = os.RemoveAll(s.dir)
}

func (s *Sys) serveSQL() {
	defer s.wg.Done()
	for {
		c, err := s.sqlL.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		s.conns = append(s.conns, c)
		s.mu.Unlock()
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			defer c.Close()
			var addr []byte
			b := make([]byte, 1)
			for {
				if _, err := io.ReadFull(c, b); err != nil {
					return
				}
				if b[0] == '\n' {
					break
				}
				addr = append(addr, b[0])
			}
			x, err := s.net.Dial(context.Background(), string(addr))
			if err != nil {
				return
			}
			if _, err := c.Write([]byte("+")); err != nil {
				_ = x.Close()
				return
			}
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				_, _ = io.Copy(x, c)
				_ = x.Close()
			}()
			_, _ = io.Copy(c, x)
			_ = x.Close()
		}()
	}
}

// Start runs the controller.
func (s *Sys) Start(ns string, args []string) {
	s.procs++
	for i := range s.Ports {
		s.Ports[i] = freePort()
	}
	args = append([]string{"--metrics-addr=127.0.0.1:" + s.Ports[0], "--health-probe-addr=127.0.0.1:" + s.Ports[1], "--webhook-addr=127.0.0.1:" + s.Ports[2],
		"--cert-dir=" + filepath.Join(s.dir, "hook"), "--grpc-cert-dir=" + filepath.Join(s.dir, "grpc")}, args...)
	cj, _ := json.Marshal(args)
	log := filepath.Join(s.dir, fmt.Sprintf("log%d", s.procs))
	f, err := os.Create(log)
	must(err)
	cmd := exec.Command(os.Args[0], "-test.run=^TestController$")
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_REPLAY=") && !strings.HasPrefix(strings.ToLower(e), "http") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "VERIF_SYS="+string(cj), "VERIF_SQL="+filepath.Join(s.dir, "sql"), "KUBECONFIG="+filepath.Join(s.dir, "kubeconfig"), "HOME="+s.dir, "NO_PROXY=*", "POD_NAMESPACE="+ns,
		"MOCO_CHECK_INTERVAL=200ms", "MOCO_ROLE_WAIT_DURATION=10ms", "GOMAXPROCS=2")
	cmd.Dir = s.dir
	cmd.Stdout, cmd.Stderr = f, f
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(cmd.Start())
	_ = f.Close()
	s.proc = cmd
	s.logs = append(s.logs, log)
	s.api.mu.Lock()
	s.api.hookURL = "https://127.0.0.1:" + s.Ports[2]
	s.api.mu.Unlock()
}

// Log returns the end of the last controller's output.
func (s *Sys) Log() string {
	if len(s.logs) == 0 {
		return ""
	}
	b, _ := os.ReadFile(s.logs[len(s.logs)-1])
	if len(b) > 2500 {
		b = b[len(b)-2500:]
	}
	return string(b)
}

// Kill ends the controller; it tells whether it ended in time.
func (s *Sys) Kill(sig syscall.Signal) bool {
	if s.proc == nil {
		return true
	}
	_ = s.proc.Process.Signal(sig)
	done := make(chan struct{})
	p := s.proc
	go func() { _ = p.Wait(); close(done) }()
	ok := true
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		ok = false
		_ = p.Process.Kill()
		<-done
	}
	s.proc = nil
	return ok
}

func (s *Sys) alive() bool {
	return s.proc != nil && syscall.Kill(s.proc.Process.Pid, 0) == nil
}

func (s *Sys) httpGet(port, path string) (int, string) {
	c := &http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{DisableKeepAlives: true, Proxy: nil}}
	r, err := c.Get("http://127.0.0.1:" + port + path)
	if err != nil {
		return 0, err.Error()
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	return r.StatusCode, string(b)
}

func (s *Sys) loop() {
	defer s.wg.Done()
	for n := 0; ; n++ {
		select {
		case <-s.stop:
			return
		case <-time.After(10 * time.Millisecond):
		}
		s.net.Mu.Lock()
		s.net.Step()
		s.net.Mu.Unlock()
		if n%5 == 0 {
			s.kube()
		}
	}
}

func hash(v any) string {
	b, _ := json.Marshal(v)
	h := fnv.New32a()
	_, _ = h.Write(b)
	return fmt.Sprintf("%08x", h.Sum32())
}

func podReady(s *mysim.Server) bool {
	if !s.Up {
		return false
	}
	if !s.ReadOnly {
		return true
	}
	return s.Src != nil && s.IOState() == "Yes" && s.SQLRun
}

// kube plays the StatefulSet controller and the kubelet.
func (s *Sys) kube() {
	var l appsv1.StatefulSetList
	s.api.List("", &l)
	for i := range l.Items {
		sts := &l.Items[i]
		name := strings.TrimPrefix(sts.Name, "moco-")
		var cl mocov1beta2.MySQLCluster
		if !s.api.Get(sts.Namespace, name, &cl) {
			continue
		}
		s.workload(sts, &cl)
	}
}

func (s *Sys) workload(sts *appsv1.StatefulSet, cl *mocov1beta2.MySQLCluster) {
	ns := sts.Namespace
	sk := ns + "/" + sts.Name
	rev := hash(sts.Spec.Template)
	if s.rev[sk] == "" {
		s.rev[sk] = rev
	}
	n := 0
	if sts.Spec.Replicas != nil {
		n = int(*sts.Spec.Replicas)
	}
	part := 0
	if ru := sts.Spec.UpdateStrategy.RollingUpdate; ru != nil && ru.Partition != nil {
		part = int(*ru.Partition)
	}
	ready := 0
	calm := true // the pods above are updated and ready
	for i := n - 1; i >= 0; i-- {
		pn := fmt.Sprintf("%s-%d", sts.Name, i)
		key := ns + "/" + pn
		for _, t := range sts.Spec.VolumeClaimTemplates {
			cn := t.Name + "-" + pn
			if !s.api.Get(ns, cn, &corev1.PersistentVolumeClaim{}) {
				c := t.DeepCopy()
				c.Namespace, c.Name = ns, cn
				if c.Labels == nil {
					c.Labels = map[string]string{}
				}
				for k, v := range sts.Spec.Selector.MatchLabels {
					c.Labels[k] = v
				}
				c.OwnerReferences = nil
				c.UID, c.ResourceVersion = "", ""
				_ = s.api.Create(c)
			}
		}
		var p corev1.Pod
		if !s.api.Get(ns, pn, &p) {
			var sec corev1.Secret
			if !s.api.Get(ns, "moco-"+cl.Name, &sec) {
				continue
			}
			yes := true
			calm = false
			of := s.rev[sk]
			if i >= part {
				of = rev
			}
			p = corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: pn, Labels: map[string]string{"controller-revision-hash": of}, Annotations: map[string]string{}, Finalizers: []string{"verif/kubelet"},
				OwnerReferences: []metav1.OwnerReference{{APIVersion: "apps/v1", Kind: "StatefulSet", Name: sts.Name, UID: sts.UID, Controller: &yes}}}, Spec: *sts.Spec.Template.Spec.DeepCopy()}
			for k, v := range sts.Spec.Template.Labels {
				p.Labels[k] = v
			}
			for k, v := range sts.Spec.Template.Annotations {
				p.Annotations[k] = v
			}
			if s.api.Create(&p) != nil {
				continue
			}
			s.net.Mu.Lock()
			x := s.inst[key]
			if x == nil {
				users := map[string]string{}
				for k, v := range map[string]string{"ADMIN_PASSWORD": "moco-admin", "REPLICATION_PASSWORD": "moco-repl", "CLONE_DONOR_PASSWORD": "moco-clone-donor", "AGENT_PASSWORD": "moco-agent"} {
					users[v] = string(sec.Data[k])
				}
				s.nextIP++
				x = s.net.Add(&mysim.Server{Name: key, Index: i, Host: fmt.Sprintf("%s.%s.%s.svc", pn, sts.Spec.ServiceName, ns), IP: fmt.Sprintf("10.0.%d.%d", 1+s.nextIP/200, 1+s.nextIP%200),
					ServerID: cl.Spec.ServerIDBase + int32(i), Users: users})
				s.inst[key] = x
			} else if !x.Up {
				x.Boot()
			}
			s.net.Mu.Unlock()
			_ = Edit(s.api, &corev1.Pod{}, ns, pn, func(p *corev1.Pod) bool {
				p.Status.PodIP = x.IP
				p.Status.Phase = corev1.PodRunning
				return true
			})
			continue
		}
		x := s.inst[key]
		if x == nil {
			continue
		}
		if t, ok := s.holdUp[key]; ok && time.Now().After(t) {
			delete(s.holdUp, key)
			s.net.Mu.Lock()
			if !x.Up {
				x.Boot()
			}
			s.net.Mu.Unlock()
		}
		if p.DeletionTimestamp != nil {
			calm = false
			if s.gone[key].IsZero() {
				s.gone[key] = time.Now().Add(4 * time.Second)
			}
			if time.Now().After(s.gone[key]) || cl.Status.CurrentPrimaryIndex != i {
				s.net.Mu.Lock()
				x.Crash()
				s.net.Mu.Unlock()
				delete(s.gone, key)
				_ = Edit(s.api, &corev1.Pod{}, ns, pn, func(p *corev1.Pod) bool { p.Finalizers = nil; return true })
			}
			continue
		}
		s.net.Mu.Lock()
		ok := podReady(x)
		s.net.Mu.Unlock()
		if ok {
			ready++
		}
		if i >= part && calm && p.Labels["controller-revision-hash"] != rev {
			calm = false
			_ = s.api.Remove(&p)
			continue
		}
		calm = calm && ok
		want := corev1.ConditionFalse
		if ok {
			want = corev1.ConditionTrue
		}
		if len(p.Status.Conditions) == 0 || p.Status.Conditions[0].Status != want {
			_ = Edit(s.api, &corev1.Pod{}, ns, pn, func(p *corev1.Pod) bool {
				p.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: want, LastTransitionTime: metav1.NewTime(time.Now().Add(-10 * time.Second))}}
				return true
			})
		}
	}
	var pods corev1.PodList
	s.api.List(ns, &pods)
	upd := 0
	for i := range pods.Items {
		if strings.HasPrefix(pods.Items[i].Name, sts.Name+"-") && pods.Items[i].Labels["controller-revision-hash"] == rev {
			upd++
		}
	}
	st := appsv1.StatefulSetStatus{ObservedGeneration: sts.Generation, Replicas: int32(n), ReadyReplicas: int32(ready), AvailableReplicas: int32(ready), CurrentReplicas: int32(n - upd), UpdatedReplicas: int32(upd),
		CurrentRevision: s.rev[sk], UpdateRevision: rev}
	if upd == n && ready == n {
		s.rev[sk] = rev
		st.CurrentRevision = rev
	}
	if s.rev[sk] == rev {
		st.CurrentReplicas = int32(upd)
	}
	if upd < n && time.Since(s.poked[sk]) > 500*time.Millisecond {
		// any event makes the controller look again; it would wait 30s otherwise
		s.poked[sk] = time.Now()
		_ = Edit(s.api, &corev1.Pod{}, ns, sts.Name+"-0", func(p *corev1.Pod) bool {
			if p.Annotations == nil {
				p.Annotations = map[string]string{}
			}
			p.Annotations["verif/event"] = fmt.Sprint(s.poked[sk].UnixMilli())
			return true
		})
	}
	if hash(st) != hash(sts.Status) {
		_ = Edit(s.api, &appsv1.StatefulSet{}, ns, sts.Name, func(x *appsv1.StatefulSet) bool {
			if x.Generation != sts.Generation {
				return false
			}
			x.Status = st
			return true
		})
	}
}

// servers of a cluster, in order.
func (s *Sys) servers(ns, name string, n int) []*mysim.Server {
	var r []*mysim.Server
	for i := 0; i < n; i++ {
		if x := s.inst[fmt.Sprintf("%s/moco-%s-%d", ns, name, i)]; x != nil {
			r = append(r, x)
		}
	}
	return r
}

var _ = types.UID("")
