// Package crt checks the certificate reloader and the connections to agents made with it.
package crt

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	agent "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/clustering"
	"github.com/cybozu-go/moco/pkg/cert"
	"github.com/go-logr/logr"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/peer"
	"pgregory.net/rapid"

	"verif/internal/vt"
)

const nCA = 3

type leaf struct {
	der      []byte
	crt, key []byte // PEM
	pair     tls.Certificate
}

type authority struct {
	crt  *x509.Certificate
	pem  []byte
	leaf map[string]leaf
}

var (
	cas  [nCA]authority
	once sync.Once
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// leaf kinds: common name and DNS names
var kinds = map[string]struct {
	cn  string
	dns []string
}{
	"controller":  {"moco-controller", nil},
	"controller2": {"moco-controller", nil},
	"agent":       {"moco-agent", []string{"*.moco-test.ns.svc"}},
	"agent-other": {"moco-agent", []string{"*.moco-other.ns.svc"}},
	"agent-ns":    {"moco-agent", []string{"*.moco-test.ns2.svc"}},
	"stranger":    {"someone", []string{"moco-controller"}},
	"nameless":    {"", nil},
	"longer":      {"moco-controller2", nil},
	"upper":       {"MOCO-Controller", nil},
}

func pki() {
	nb, na := time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2099, 1, 1, 0, 0, 0, 0, time.UTC)
	var serial int64 = 1
	for i := range cas {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		serial++
		tmpl := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: fmt.Sprintf("ca%d", i)}, NotBefore: nb, NotAfter: na,
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, k.Public(), k)
		must(err)
		c, err := x509.ParseCertificate(der)
		must(err)
		cas[i] = authority{crt: c, pem: pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), leaf: map[string]leaf{}}
		for name, kd := range kinds {
			lk, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			must(err)
			serial++
			lt := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: kd.cn}, DNSNames: kd.dns, NotBefore: nb, NotAfter: na,
				KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth}}
			ld, err := x509.CreateCertificate(rand.Reader, lt, c, lk.Public(), k)
			must(err)
			kb, err := x509.MarshalECPrivateKey(lk)
			must(err)
			l := leaf{der: ld, crt: pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ld}), key: pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})}
			l.pair, err = tls.X509KeyPair(l.crt, l.key)
			must(err)
			cas[i].leaf[name] = l
		}
	}
}

func pool(set []int) *x509.CertPool {
	p := x509.NewCertPool()
	for _, i := range set {
		p.AddCert(cas[i].crt)
	}
	return p
}

// File is the content of one of the files.
type File struct {
	CA   int    `json:"ca"`             // index of the authority
	Leaf string `json:"leaf,omitempty"` // kind of the leaf
	More int    `json:"more,omitempty"` // another authority in the bundle, plus one
	Bad  string `json:"bad,omitempty"`  // missing, empty, garbage, wrongtype, halved, dir
}

// Op changes files, lets time pass or connects.
type Op struct {
	Op   string `json:"op"` // write, tick, client, server, agent, race
	CA   *File  `json:"cacrt,omitempty"`
	Crt  *File  `json:"crt,omitempty"`
	Key  *File  `json:"key,omitempty"`
	Peer File   `json:"peer,omitempty"`
	I    int    `json:"i,omitempty"`
}

// Plan is a history of certificate files.
type Plan struct {
	Init Op   `json:"init"`
	Ops  []Op `json:"ops"`
}

func genFile(t *rapid.T, what string, ca int, lf string) *File {
	f := &File{CA: ca, Leaf: lf}
	if vt.Uni(t, "bad-"+what, 6) == 5 {
		f.Bad = []string{"missing", "empty", "garbage", "wrongtype", "halved", "dir"}[vt.Uni(t, "badkind", 6)]
	}
	if what == "ca" {
		f.Leaf = ""
		if vt.Uni(t, "bundle", 4) == 3 {
			f.More = 1 + vt.Uni(t, "more", nCA)
		}
	}
	return f
}

func genWrite(t *rapid.T) Op {
	o := Op{Op: "write"}
	ca := vt.Uni(t, "ca", nCA)
	lf := []string{"controller", "agent", "controller2"}[vt.Uni(t, "leaf", 3)]
	which := vt.Uni(t, "which", 8)
	if which >= 3 || which == 0 {
		o.CA = genFile(t, "ca", ca, "")
	}
	if which >= 3 || which == 1 {
		o.Crt = genFile(t, "crt", ca, lf)
	}
	if which >= 3 || which == 2 {
		o.Key = genFile(t, "key", ca, lf)
	}
	return o
}

func gen(t *rapid.T) Plan {
	peers := []string{"agent", "controller", "agent-other", "stranger", "nameless", "longer", "upper", "agent-ns", "none"}
	p := Plan{Init: genWrite(t)}
	if vt.Uni(t, "goodinit", 8) > 0 {
		k := vt.Uni(t, "ca0", nCA)
		lf := []string{"controller", "agent"}[vt.Uni(t, "leaf0", 2)]
		p.Init = Op{Op: "write", CA: &File{CA: k}, Crt: &File{CA: k, Leaf: lf}, Key: &File{CA: k, Leaf: lf}}
	}
	n := rapid.IntRange(1, 10).Draw(t, "n")
	for i := 0; i < n; i++ {
		switch vt.Uni(t, "op", 9) {
		case 0, 1, 2:
			p.Ops = append(p.Ops, genWrite(t))
			if vt.Uni(t, "ticknow", 3) > 0 {
				p.Ops = append(p.Ops, Op{Op: "tick"})
			}
		case 3:
			p.Ops = append(p.Ops, Op{Op: "tick"})
		case 4, 5:
			p.Ops = append(p.Ops, Op{Op: "client", Peer: File{CA: vt.Uni(t, "pca", nCA), Leaf: peers[vt.Uni(t, "ps", 3)]}})
		case 6:
			p.Ops = append(p.Ops, Op{Op: "server", Peer: File{CA: vt.Uni(t, "pca", nCA), Leaf: append([]string{"controller", "controller"}, peers...)[vt.Uni(t, "pc", len(peers)+2)]}})
		case 7:
			p.Ops = append(p.Ops, Op{Op: "agent", I: vt.Uni(t, "inst", 3), Peer: File{CA: vt.Uni(t, "pca", nCA), Leaf: []string{"agent", "agent", "agent", "agent-other", "agent-ns", "controller"}[vt.Uni(t, "pa", 6)]}})
		case 8:
			if vt.Uni(t, "race", 2) == 1 {
				k := vt.Uni(t, "rca", nCA)
				p.Ops = append(p.Ops, Op{Op: "race", CA: &File{CA: k}, Crt: &File{CA: k, Leaf: "controller"}, Key: &File{CA: k, Leaf: "controller"}})
			}
		}
	}
	return p
}

func (f *File) write(path, what string) {
	must(os.RemoveAll(path))
	var b []byte
	switch what {
	case "ca":
		b = bytes.Clone(cas[f.CA].pem)
		if f.More > 0 {
			b = append(b, cas[f.More-1].pem...)
		}
	case "crt":
		b = cas[f.CA].leaf[f.Leaf].crt
	case "key":
		b = cas[f.CA].leaf[f.Leaf].key
	}
	switch f.Bad {
	case "missing":
		return
	case "dir":
		must(os.Mkdir(path, 0o755))
		return
	case "empty":
		b = nil
	case "garbage":
		b = []byte("this is not a certificate\n")
	case "wrongtype":
		b = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: []byte("xxxx")})
	case "halved":
		b = b[:len(b)/2]
		if what == "ca" && f.More > 0 {
			b = b[:len(cas[f.CA].pem)/2]
		}
	}
	must(os.WriteFile(path, b, 0o600))
}

type loaded struct {
	ca   []int
	leaf leaf
}

func (l loaded) trusts(i int) bool {
	for _, x := range l.ca {
		if x == i {
			return true
		}
	}
	return false
}

type disk struct{ ca, crt, key *File }

func (d *disk) write(dir string, o Op) {
	if o.CA != nil {
		o.CA.write(filepath.Join(dir, "ca.crt"), "ca")
		d.ca = o.CA
	}
	if o.Crt != nil {
		o.Crt.write(filepath.Join(dir, "tls.crt"), "crt")
		d.crt = o.Crt
	}
	if o.Key != nil {
		o.Key.write(filepath.Join(dir, "tls.key"), "key")
		d.key = o.Key
	}
}

func (d *disk) load() (loaded, bool) {
	if d.ca == nil || d.crt == nil || d.key == nil || d.ca.Bad != "" || d.crt.Bad != "" || d.key.Bad != "" || d.crt.CA != d.key.CA || d.crt.Leaf != d.key.Leaf {
		return loaded{}, false
	}
	l := loaded{ca: []int{d.ca.CA}, leaf: cas[d.crt.CA].leaf[d.crt.Leaf]}
	if d.ca.More > 0 {
		l.ca = append(l.ca, d.ca.More-1)
	}
	return l, true
}

// shake runs a TLS handshake and returns both results and the leaves each side saw.
func shake(cc, sc *tls.Config) (cerr, serr error, seenByClient, seenByServer []byte) {
	a, b := net.Pipe()
	c, s := tls.Client(a, cc), tls.Server(b, sc)
	done := make(chan struct{})
	go func() {
		defer close(done)
		serr = s.Handshake()
		if serr == nil {
			_, serr = s.Write([]byte("x"))
		} else {
			b.Close()
		}
		if ps := s.ConnectionState().PeerCertificates; len(ps) > 0 {
			seenByServer = ps[0].Raw
		}
	}()
	cerr = c.Handshake()
	if cerr == nil {
		_, cerr = c.Read(make([]byte, 1))
	} else {
		a.Close()
	}
	<-done
	a.Close()
	b.Close()
	if ps := c.ConnectionState().PeerCertificates; len(ps) > 0 {
		seenByClient = ps[0].Raw
	}
	return
}

func all() []int { return []int{0, 1, 2} }

// client connects with the configuration of the reloader to a server.
func client(cfg *tls.Config, peer File, cur loaded) error {
	if cfg == nil {
		return errors.New("no client configuration")
	}
	cc := cfg.Clone()
	cc.ServerName = "moco-test-0.moco-test.ns.svc"
	cerr, serr, _, seen := shake(cc, &tls.Config{Certificates: []tls.Certificate{cas[peer.CA].leaf[peer.Leaf].pair}, ClientAuth: tls.RequireAndVerifyClientCert, ClientCAs: pool(all())})
	want := cur.trusts(peer.CA) && peer.Leaf == "agent"
	if want != (cerr == nil) {
		return fmt.Errorf("a connection to a server with the certificate %s of authority %d while %v are trusted: %v", peer.Leaf, peer.CA, cur.ca, cerr)
	}
	if want {
		if serr != nil {
			return fmt.Errorf("the server refused the client: %w", serr)
		}
		if !bytes.Equal(seen, cur.leaf.der) {
			return errors.New("the client presented another certificate than the newest one")
		}
	}
	return nil
}

func server(cfg *tls.Config, peer File, cur loaded) error {
	cc := &tls.Config{RootCAs: pool(all()), InsecureSkipVerify: true}
	if peer.Leaf != "none" {
		cc.Certificates = []tls.Certificate{cas[peer.CA].leaf[peer.Leaf].pair}
		// present it whatever authorities the server names
		cc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &cc.Certificates[0], nil }
	}
	_, serr, seen, _ := shake(cc, cfg)
	want := peer.Leaf != "none" && cur.trusts(peer.CA) && kinds[peer.Leaf].cn == "moco-controller"
	if want != (serr == nil) {
		return fmt.Errorf("a client with the certificate %s of authority %d while %v are trusted: %v", peer.Leaf, peer.CA, cur.ca, serr)
	}
	if want && !bytes.Equal(seen, cur.leaf.der) {
		return errors.New("the server presented another certificate than the newest one")
	}
	return nil
}

// ---- agents ----

type fixedResolver string

func (f fixedResolver) Resolve(context.Context, *mocov1beta2.MySQLCluster, int) (string, error) {
	return string(f), nil
}

type agentServer struct {
	agent.UnimplementedAgentServer
	mu   sync.Mutex
	seen []byte
	n    int
}

func (a *agentServer) Clone(ctx context.Context, _ *agent.CloneRequest) (*agent.CloneResponse, error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.n++
	if p, ok := peer.FromContext(ctx); ok {
		if ti, ok := p.AuthInfo.(credentials.TLSInfo); ok && len(ti.State.PeerCertificates) > 0 {
			a.seen = ti.State.PeerCertificates[0].Raw
		}
	}
	return &agent.CloneResponse{}, nil
}

func listen() (net.Listener, string, error) {
	var err error
	for i := 0; i < 50; i++ {
		pid := os.Getpid()
		ip := fmt.Sprintf("127.%d.%d.%d", 1+(pid>>8)%254, 1+pid%254, 2+i)
		l, e := net.Listen("tcp", ip+":9080")
		if e == nil {
			return l, ip, nil
		}
		err = e
	}
	return nil, "", err
}

func callAgent(rl *cert.Reloader, peer File, index int, cur loaded) error {
	l, ip, err := listen()
	if err != nil {
		return fmt.Errorf("%w: %v", vt.ErrInconclusive, err)
	}
	as := &agentServer{}
	gs := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{cas[peer.CA].leaf[peer.Leaf].pair}, ClientAuth: tls.RequireAndVerifyClientCert, ClientCAs: pool(all())})))
	agent.RegisterAgentServer(gs, as)
	done := make(chan struct{})
	go func() { defer close(done); _ = gs.Serve(l) }()
	defer func() { gs.Stop(); <-done }()
	cl := &mocov1beta2.MySQLCluster{}
	cl.Name, cl.Namespace = "test", "ns"
	cl.Spec.Replicas = 3
	conn, err := clustering.NewAgentFactory(fixedResolver(ip), rl).New(context.Background(), cl, index)
	if err != nil {
		return fmt.Errorf("connecting to the agent: %w", err)
	}
	defer conn.Close()
	_, err = conn.Clone(context.Background(), &agent.CloneRequest{})
	want := cur.trusts(peer.CA) && peer.Leaf == "agent"
	if want != (err == nil) {
		return fmt.Errorf("a request to instance %d of ns/test answered by a server with the certificate %s of authority %d while %v are trusted: %v", index, peer.Leaf, peer.CA, cur.ca, err)
	}
	as.mu.Lock()
	defer as.mu.Unlock()
	if want && !bytes.Equal(as.seen, cur.leaf.der) {
		return errors.New("the request to the agent was made with another certificate than the newest one")
	}
	if !want && as.n > 0 {
		return errors.New("a request reached a server that is not the agent")
	}
	return nil
}

const interval = time.Hour

func run(t *testing.T, p Plan) (c vt.Case, err error) {
	once.Do(pki)
	dir, e := os.MkdirTemp("", "verif-crt")
	must(e)
	defer os.RemoveAll(dir)
	class := map[string]bool{}
	berr := vt.Bubble(t, func() error {
		d := &disk{}
		d.write(dir, p.Init)
		cur, ok := d.load()
		rl, err := cert.NewReloader(dir, logr.Discard())
		if ok != (err == nil) {
			return fmt.Errorf("initial files %+v %+v %+v: %v", d.ca, d.crt, d.key, err)
		}
		if !ok {
			class["bad-start"] = true
			return nil
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		go rl.Run(ctx, interval)
		srv := rl.TLSServerConfig() // made once, used for all connections
		time.Sleep(interval / 2)
		tick := func() {
			time.Sleep(interval)
			if l, ok := d.load(); ok {
				if !bytes.Equal(l.leaf.der, cur.leaf.der) || fmt.Sprint(l.ca) != fmt.Sprint(cur.ca) {
					class["reloaded"] = true
				}
				cur = l
			} else {
				class["kept"] = true
			}
		}
		for i, o := range p.Ops {
			var err error
			switch o.Op {
			case "write":
				d.write(dir, o)
			case "tick":
				tick()
			case "client":
				class["client"] = true
				err = client(rl.TLSClientConfig(), o.Peer, cur)
			case "server":
				class["server"] = true
				err = server(srv, o.Peer, cur)
			case "agent":
				class["agent"] = true
				err = callAgent(rl, o.Peer, o.I, cur)
			case "race":
				class["race"] = true
				d.write(dir, o)
				next, _ := d.load()
				var wg sync.WaitGroup
				errs := make(chan error, 8)
				for g := range 4 {
					wg.Add(1)
					go func() {
						defer wg.Done()
						time.Sleep(interval / 2) // the moment of the reload
						for range 40 {
							if g == 0 {
								if e := raceServer(srv, cur, next); e != nil {
									errs <- e
									return
								}
								continue
							}
							for range 20 {
								if e := consistent(rl.TLSClientConfig(), cur, next); e != nil {
									errs <- e
									return
								}
							}
						}
					}()
				}
				wg.Wait()
				time.Sleep(interval / 2)
				cur = next
				select {
				case err = <-errs:
				default:
				}
				if err == nil {
					err = client(rl.TLSClientConfig(), File{CA: next.ca[0], Leaf: "agent"}, next)
				}
			}
			if err != nil {
				return fmt.Errorf("step %d (%s): %w", i, o.Op, err)
			}
		}
		// at the end everything is as the newest valid files say
		tick()
		for k := range nCA {
			if err := client(rl.TLSClientConfig(), File{CA: k, Leaf: "agent"}, cur); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
			if err := server(srv, File{CA: k, Leaf: "controller"}, cur); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
		}
		return nil
	})
	for k := range class {
		c.Classes = append(c.Classes, k)
	}
	c.Nontrivial = class["reloaded"] || class["kept"]
	return c, berr
}

func same(cfg *tls.Config, l loaded) bool {
	return cfg != nil && len(cfg.Certificates) > 0 && len(cfg.Certificates[0].Certificate) > 0 && bytes.Equal(cfg.Certificates[0].Certificate[0], l.leaf.der) &&
		cfg.RootCAs != nil && cfg.RootCAs.Equal(pool(l.ca))
}

func consistent(cfg *tls.Config, a, b loaded) error {
	if same(cfg, a) || same(cfg, b) {
		return nil
	}
	return errors.New("the client configuration seen during a reload is neither the old nor the new one")
}

func raceServer(cfg *tls.Config, a, b loaded) error {
	if cfg.GetConfigForClient == nil {
		return nil
	}
	cc := &tls.Config{InsecureSkipVerify: true}
	l := cas[b.ca[0]].leaf["controller2"]
	cc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &l.pair, nil }
	_, serr, seen, _ := shake(cc, cfg)
	old, new := bytes.Equal(seen, a.leaf.der), bytes.Equal(seen, b.leaf.der)
	switch {
	case !old && !new:
		return errors.New("a connection accepted during a reload saw neither the old nor the new certificate")
	case new && !old && serr != nil:
		return fmt.Errorf("a server with the new certificate refused a client of the new authority during a reload: %w", serr)
	case !new && serr == nil && !a.trusts(b.ca[0]):
		return errors.New("a server with the old certificate accepted a client of the new authority during a reload")
	}
	return nil
}

func TestP01(t *testing.T) { vt.Run(t, "P01", gen, run) }
