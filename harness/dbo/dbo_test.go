// Package dbo checks the SQL layer (pkg/dbop) against the simulated mysqld.
package dbo

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/dbop"
	"github.com/cybozu-go/moco/pkg/password"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"pgregory.net/rapid"

	"verif/internal/gtid"
	"verif/internal/mysim"
	"verif/internal/vt"
	"verif/internal/wire"
)

// sessions of these users and nobody else are spared
var systemUsers = map[string]bool{"moco-admin": true, "moco-agent": true, "moco-repl": true, "moco-clone-donor": true, "moco-exporter": true, "moco-backup": true}

var pwd *password.MySQLPassword

func init() {
	p, err := password.NewMySQLPassword()
	if err != nil {
		panic(err)
	}
	pwd = p
}

type resolver struct{ s []*mysim.Server }

func (r resolver) Resolve(_ context.Context, _ *mocov1beta2.MySQLCluster, i int) (string, error) {
	if i >= len(r.s) {
		return "", errors.New("no such instance")
	}
	return r.s[i].IP, nil
}

func cluster() *mocov1beta2.MySQLCluster {
	return &mocov1beta2.MySQLCluster{ObjectMeta: metav1.ObjectMeta{Namespace: "foo", Name: "test"}, Spec: mocov1beta2.MySQLClusterSpec{Replicas: 3}}
}

func newNet(n int, ver string) (*mysim.Net, []*mysim.Server, dbop.OperatorFactory) {
	net := mysim.New()
	var ss []*mysim.Server
	for i := 0; i < n; i++ {
		s := net.Add(&mysim.Server{Name: fmt.Sprintf("s%d", i), Index: i, Host: fmt.Sprintf("moco-test-%d.moco-test.foo.svc", i), IP: fmt.Sprintf("10.0.0.%d", i+1), ServerID: int32(100 + i), Ver: ver,
			Users: map[string]string{"moco-admin": pwd.Admin(), "moco-repl": pwd.Replicator()}})
		ss = append(ss, s)
	}
	return net, ss, dbop.NewFactory(resolver{ss})
}

// ---- D01 ----

// KillProc is a row of the process list and what happens when it is killed.
type KillProc struct {
	User string `json:"user"`
	Host string `json:"host"`
	Gap  int    `json:"gap"` // id distance from the previous row
	Err  int    `json:"err,omitempty"`
	Gone bool   `json:"gone,omitempty"` // ends on its own before it is killed
}

// KillPlan is one call of KillConnections.
type KillPlan struct {
	Procs   []KillProc `json:"procs"`
	ListErr bool       `json:"listErr,omitempty"`
}

func genKill(t *rapid.T) KillPlan {
	users := []string{"moco-admin", "moco-agent", "moco-repl", "moco-clone-donor", "moco-exporter", "moco-backup", "moco-readonly", "moco-readonly", "moco-writable", "moco-writable", "root", "app", "app2",
		"system user", "event_scheduler", "unauthenticated user", "moco", "moco-admin2", "Moco-Admin", "moco-backup-x", "system", "mysql.session", ""}
	hosts := []string{"localhost", "10.1.2.3:4000", "10.1.2.3:4001", "client.example.com:33000", "localhost.example.com:1", "localhosts:3", "", "[fd00::1]:5", "xlocalhost:9"}
	var p KillPlan
	n := rapid.IntRange(0, 12).Draw(t, "n")
	for i := 0; i < n; i++ {
		k := KillProc{Gap: rapid.SampledFrom([]int{1, 1, 2, 100, 70000, 100000000}).Draw(t, "gap")}
		if rapid.IntRange(0, 9).Draw(t, "rndUser") == 0 {
			k.User = rapid.StringMatching(`[a-z_-]{1,16}`).Draw(t, "u")
		} else {
			k.User = rapid.SampledFrom(users).Draw(t, "user")
		}
		k.Host = rapid.SampledFrom(hosts).Draw(t, "host")
		switch rapid.IntRange(0, 11).Draw(t, "what") {
		case 0, 1:
			k.Gone = true
		case 2:
			k.Err = rapid.SampledFrom([]int{1095, 1227, 1205, 1093, 1064}).Draw(t, "err")
		}
		p.Procs = append(p.Procs, k)
	}
	p.ListErr = rapid.IntRange(0, 19).Draw(t, "listErr") == 0
	return p
}

func runKill(t *testing.T, p KillPlan) (c vt.Case, err error) {
	err = vt.Bubble(t, func() error {
		net, ss, f := newNet(1, "8.0.36")
		defer net.Close()
		s := ss[0]
		id := uint32(100)
		want := map[uint32]bool{}
		var bad bool
		s.KillErr = map[uint32]*wire.SQLError{}
		kinds := map[string]bool{}
		spare := 0
		for _, k := range p.Procs {
			id += uint32(k.Gap)
			s.ExtraProcs = append(s.ExtraProcs, mysim.Proc{ID: id, User: k.User, Host: k.Host})
			kill := !systemUsers[k.User] && k.Host != "localhost" && k.User != "system user"
			if !kill {
				spare++
				continue
			}
			switch {
			case k.Gone:
				s.KillErr[id] = &wire.SQLError{Code: 1094, Msg: fmt.Sprintf("Unknown thread id: %d", id)}
				kinds["vanished"] = true
			case k.Err != 0:
				s.KillErr[id] = &wire.SQLError{Code: uint16(k.Err), Msg: "kill failed"}
				bad = true
				kinds["kill-error"] = true
			default:
				want[id] = true
				kinds["killed"] = true
			}
		}
		if p.ListErr {
			net.Fault = func(_ *mysim.Conn, stmt string) (error, error) {
				if strings.Contains(strings.ToUpper(stmt), "PROCESSLIST") {
					return &wire.SQLError{Code: 1227, Msg: "denied"}, nil
				}
				return nil, nil
			}
			bad = true
			kinds["list-error"] = true
		}
		op, e := f.New(context.Background(), cluster(), pwd, 0)
		if e != nil {
			return e
		}
		defer op.Close()
		kerr := op.KillConnections(context.Background())
		net.Mu.Lock()
		defer net.Mu.Unlock()
		got := map[uint32]bool{}
		for _, k := range s.Killed {
			got[k] = true
		}
		if spare > 0 {
			kinds["spared"] = true
		}
		for k := range kinds {
			c.Classes = append(c.Classes, k)
		}
		sort.Strings(c.Classes)
		c.Nontrivial = len(want) > 0 && (spare > 0 || bad || kinds["vanished"])
		for k := range got {
			if !want[k] {
				return fmt.Errorf("session %d must not be killed", k)
			}
		}
		if bad {
			if kerr == nil {
				return fmt.Errorf("a failure to close client connections was not reported")
			}
			return nil
		}
		if kerr != nil {
			return fmt.Errorf("KillConnections failed although every client connection was closed or already gone: %v", kerr)
		}
		for k := range want {
			if !got[k] {
				return fmt.Errorf("client session %d survived", k)
			}
		}
		return nil
	})
	return c, err
}

func TestD01(t *testing.T) { vt.Run(t, "D01", genKill, runKill) }

// ---- D02 ----

// OpPlan is one call of an operation in a given state.
type OpPlan struct {
	Ver      string   `json:"ver"`
	Op       string   `json:"op"`
	RO       int      `json:"ro"` // 0 writable, 1 read_only, 2 super_read_only
	SSM      bool     `json:"ssm,omitempty"`
	SSS      bool     `json:"sss,omitempty"`
	SSW      int      `json:"ssw"`
	Src      bool     `json:"src,omitempty"`
	IO       string   `json:"io,omitempty"`
	SQL      bool     `json:"sql,omitempty"`
	Executed string   `json:"executed"`
	Purged   string   `json:"purged"`
	Relay    string   `json:"relay"`
	Delay    *int64   `json:"delay,omitempty"`
	Wait     int      `json:"wait"`
	Clone    string   `json:"clone,omitempty"`
	Reps     []int32  `json:"reps,omitempty"`
	Host     string   `json:"host,omitempty"`
	Port     int      `json:"port,omitempty"`
	User     string   `json:"user,omitempty"`
	Password string   `json:"password,omitempty"`
	Flag     bool     `json:"flag,omitempty"`
	Count    int      `json:"count,omitempty"`
	Set1     string   `json:"set1,omitempty"`
	Set2     string   `json:"set2,omitempty"`
	Timeout  int      `json:"timeout,omitempty"`
	LagMs    int      `json:"lagMs,omitempty"`
	Sets     []string `json:"sets,omitempty"` // "executed|retrieved", "-" no replica status, "x" no status
	FaultAt  int      `json:"faultAt,omitempty"`
	Fault    string   `json:"fault,omitempty"`
	Busy     int      `json:"busy,omitempty"` // ms a client statement blocks read-only
}

var uuids = []string{"11111111-0000-11ee-8000-000000000001", "aaaaaaaa-0000-11ee-8000-000000000002", "ffffffff-0000-11ee-8000-000000000003"}

func genSet(t *rapid.T, label string) string {
	s := gtid.New()
	for _, u := range uuids {
		if rapid.Bool().Draw(t, label+"u") {
			continue
		}
		switch rapid.IntRange(0, 3).Draw(t, label+"k") {
		case 0, 1:
			s.AddIv(u, gtid.Iv{A: 1, B: rapid.Int64Range(1, 6).Draw(t, label+"b")})
		case 2:
			a := rapid.Int64Range(1, 6).Draw(t, label+"a")
			s.AddIv(u, gtid.Iv{A: a, B: a + rapid.Int64Range(0, 3).Draw(t, label+"l")})
		case 3:
			s.AddIv(u, gtid.Iv{A: 1, B: 2})
			s.AddIv(u, gtid.Iv{A: 4, B: rapid.Int64Range(4, 6).Draw(t, label+"c")})
		}
	}
	return s.String()
}

func genOp(t *rapid.T) OpPlan {
	p := OpPlan{Ver: rapid.SampledFrom([]string{"8.0.36", "8.0.28", "8.4.2", "8.4.0", "8.4.5"}).Draw(t, "ver")}
	if rapid.IntRange(0, 19).Draw(t, "oddver") == 0 {
		p.Ver = rapid.SampledFrom([]string{"9.0.1", "5.7.44", "8.3.0"}).Draw(t, "badver")
	}
	p.Op = rapid.SampledFrom([]string{"status", "status", "status", "readonly", "writable", "writable", "primary", "replica", "replica", "stopio", "wait", "wait", "subset", "subtract", "top", "top", "nop"}).Draw(t, "op")
	p.RO = rapid.IntRange(0, 2).Draw(t, "ro")
	p.SSM = rapid.Bool().Draw(t, "ssm")
	p.SSS = rapid.Bool().Draw(t, "sss")
	p.SSW = rapid.SampledFrom([]int{1, 1, 2, 3, 65535}).Draw(t, "ssw")
	p.Src = rapid.IntRange(0, 3).Draw(t, "src") > 0
	if p.Src {
		p.IO = rapid.SampledFrom([]string{"Yes", "Yes", "No", "Connecting"}).Draw(t, "io")
		p.SQL = rapid.IntRange(0, 3).Draw(t, "sql") > 0
	}
	p.Executed = genSet(t, "ex")
	if rapid.Bool().Draw(t, "hasPurged") {
		p.Purged = p.Executed
	}
	if p.Src {
		p.Relay = gtid.MustParse(genSet(t, "re")).Minus(gtid.MustParse(p.Executed)).String()
	}
	if rapid.Bool().Draw(t, "hasDelay") {
		d := rapid.Int64Range(0, 100000).Draw(t, "delay")
		p.Delay = &d
	}
	p.Wait = rapid.SampledFrom([]int{0, 0, 1, 7}).Draw(t, "waitSessions")
	p.Clone = rapid.SampledFrom([]string{"", "", "Completed", "In Progress", "Failed", "Not Started"}).Draw(t, "clone")
	for i := rapid.IntRange(0, 3).Draw(t, "nreps"); i > 0; i-- {
		p.Reps = append(p.Reps, rapid.Int32Range(1, 2147483647).Draw(t, "rep"))
	}
	str := rapid.StringOf(rapid.SampledFrom([]rune("abcXYZ019'\"\\ %?:;,()=-_#$\t\n\x00\x1aé漢`")))
	switch p.Op {
	case "replica":
		p.Host = rapid.SampledFrom([]string{"moco-test-1.moco-test.foo.svc", "mysql.example.com", "10.9.8.7", "fd00::1"}).Draw(t, "host")
		p.Port = rapid.SampledFrom([]int{3306, 3306, 13306, 1, 65535}).Draw(t, "port")
		p.User = str.Draw(t, "user")
		p.Password = str.Draw(t, "pw")
		p.Flag = rapid.Bool().Draw(t, "semi")
	case "primary":
		p.Count = rapid.SampledFrom([]int{1, 1, 2, 3, 4}).Draw(t, "count")
	case "subset", "subtract":
		p.Set1, p.Set2 = genSet(t, "s1"), genSet(t, "s2")
		if rapid.Bool().Draw(t, "related") {
			a := gtid.MustParse(p.Set1)
			a.Union(gtid.MustParse(p.Set2))
			p.Set2 = a.String()
		}
		if rapid.IntRange(0, 19).Draw(t, "badset") == 0 {
			p.Set2 = "junk"
		}
	case "wait":
		p.Timeout = rapid.SampledFrom([]int{0, 1, 5, 30, 50}).Draw(t, "timeout")
		p.LagMs = rapid.SampledFrom([]int{0, 0, 1500, 8000, 20000, 45000, 3600000}).Draw(t, "lag")
		switch rapid.IntRange(0, 3).Draw(t, "waitFor") {
		case 0:
			p.Set1 = p.Executed
		case 1:
			p.Set1 = genSet(t, "w")
		default:
			a := gtid.MustParse(p.Executed)
			a.Union(gtid.MustParse(p.Relay))
			p.Set1 = a.String()
		}
	case "top":
		base := gtid.MustParse(genSet(t, "base"))
		for i := rapid.IntRange(0, 5).Draw(t, "n"); i > 0; i-- {
			switch rapid.IntRange(0, 6).Draw(t, "kind") {
			case 0:
				p.Sets = append(p.Sets, rapid.SampledFrom([]string{"-", "x"}).Draw(t, "none"))
				continue
			case 1:
				p.Sets = append(p.Sets, genSet(t, "te")+"|"+genSet(t, "tr"))
				continue
			}
			// a chain: prefixes of base
			k := rapid.Int64Range(0, 6).Draw(t, "prefix")
			cut := gtid.New()
			for _, u := range uuids {
				for n := int64(1); n <= k; n++ {
					if base.Has(gtid.ID{UUID: u, N: n}) {
						cut.Add(gtid.ID{UUID: u, N: n})
					}
				}
			}
			ex, re := cut.Clone(), gtid.New()
			if rapid.Bool().Draw(t, "split") {
				ex, re = gtid.New(), gtid.New()
				h := rapid.Int64Range(0, 6).Draw(t, "half")
				for _, u := range uuids {
					for n := int64(1); n <= k; n++ {
						id := gtid.ID{UUID: u, N: n}
						if cut.Has(id) && n <= h {
							ex.Add(id)
						}
						if cut.Has(id) && (n > h || rapid.IntRange(0, 2).Draw(t, "both") == 0) {
							re.Add(id)
						}
					}
				}
			}
			p.Sets = append(p.Sets, ex.String()+"|"+re.String())
		}
	case "readonly":
		p.Busy = rapid.SampledFrom([]int{0, 0, 3000, 20000}).Draw(t, "busy")
	}
	if rapid.IntRange(0, 2).Draw(t, "fault") == 0 {
		p.FaultAt = rapid.IntRange(1, 7).Draw(t, "faultAt")
		p.Fault = rapid.SampledFrom([]string{"sql", "sql", "sql-after", "drop", "drop-after"}).Draw(t, "faultKind")
	}
	return p
}

func (p OpPlan) status() []*dbop.MySQLInstanceStatus {
	var r []*dbop.MySQLInstanceStatus
	for _, s := range p.Sets {
		switch s {
		case "x":
			r = append(r, nil)
		case "-":
			r = append(r, &dbop.MySQLInstanceStatus{GlobalVariables: dbop.GlobalVariables{ExecutedGTID: uuids[0] + ":1-1000"}})
		default:
			ex, re, _ := strings.Cut(s, "|")
			r = append(r, &dbop.MySQLInstanceStatus{ReplicaStatus: &dbop.ReplicaStatus{ExecutedGtidSet: ex, RetrievedGtidSet: re}})
		}
	}
	return r
}

func runOp(t *testing.T, p OpPlan) (c vt.Case, err error) {
	err = vt.Bubble(t, func() error {
		net, ss, f := newNet(2, p.Ver)
		stop := make(chan struct{})
		stopped := make(chan struct{})
		defer func() {
			close(stop)
			<-stopped
			net.Close()
		}()
		s := ss[0]
		s.Executed = gtid.MustParse(p.Executed)
		s.Purged = gtid.MustParse(p.Purged)
		s.ReadOnly, s.SuperRO = p.RO >= 1, p.RO == 2
		s.SSMaster, s.SSSlave, s.SSWait = p.SSM, p.SSS, p.SSW
		s.SSTimeout = 10000
		if p.Op == "wait" {
			s.SSMaster = false // nobody would acknowledge
		}
		s.Clone = p.Clone
		s.ExtraReplicas = p.Reps
		w := p.Wait
		s.OverrideWaitSessions = &w
		s.OverrideDelay, s.OverrideDelayNull = p.Delay, p.Delay == nil
		s.Lag = time.Duration(p.LagMs) * time.Millisecond
		start := time.Now()
		relay := gtid.MustParse(p.Relay)
		if p.Src {
			s.Src = &mysim.Source{Host: "10.99.99.99", User: "old", Password: "old", Port: 3307}
			if p.IO == "Yes" {
				s.Src.Host = ss[1].Host
				ss[1].Executed = s.Executed.Clone()
				ss[1].Executed.Union(relay)
			}
			s.SetIO(p.IO)
			s.SQLRun = p.SQL
			s.Retrieved = relay.Clone()
			for _, u := range uuids {
				for n := int64(1); n <= 12; n++ {
					if id := (gtid.ID{UUID: u, N: n}); relay.Has(id) {
						s.Relay = append(s.Relay, mysim.Txn{ID: id, Row: 1000 + n, At: start})
					}
				}
			}
		}
		if p.Op != "wait" {
			s.StopSQLApply = true
		}
		if p.Busy > 0 {
			net.Mu.Lock()
			cl := s.NewClient("app", "10.3.3.3:3")
			cl.BusyUntil = start.Add(time.Duration(p.Busy) * time.Millisecond)
			net.Mu.Unlock()
		}
		fired := false
		n := 0
		net.Fault = func(_ *mysim.Conn, stmt string) (error, error) {
			n++
			if n != p.FaultAt {
				return nil, nil
			}
			fired = true
			e := error(&wire.SQLError{Code: 1105, Msg: "injected"})
			if strings.HasPrefix(p.Fault, "drop") {
				e = wire.ErrDrop
			}
			if strings.HasSuffix(p.Fault, "-after") {
				return nil, e
			}
			return e, nil
		}
		go func() {
			defer close(stopped)
			for {
				select {
				case <-stop:
					return
				case <-time.After(100 * time.Millisecond):
				}
				if p.Op == "wait" {
					net.Mu.Lock()
					net.Step()
					net.Mu.Unlock()
				}
			}
		}()
		idx := 0
		if p.Op == "nop" {
			idx = 9
		}
		op, e := f.New(context.Background(), cluster(), pwd, idx)
		if e != nil {
			return fmt.Errorf("New failed: %v", e)
		}
		defer op.Close()
		if want := fmt.Sprintf("foo/moco-test-%d", idx); op.Name() != want {
			return fmt.Errorf("name of the operator is %q, not %q", op.Name(), want)
		}
		c.Classes = []string{p.Op}
		c.Nontrivial = true
		ctx := context.Background()
		var before snapshot
		net.Mu.Lock()
		before = snap(s)
		net.Mu.Unlock()

		var opErr error
		var verdict func(after snapshot) error
		switch p.Op {
		case "nop":
			if _, e := op.GetStatus(ctx); !errors.Is(e, dbop.ErrNop) {
				return fmt.Errorf("status of an instance without address: %v", e)
			}
			for i, e := range []error{op.SetReadOnly(ctx, true), op.SetReadOnly(ctx, false), op.ConfigurePrimary(ctx, 1), op.ConfigureReplica(ctx, dbop.AccessInfo{}, true), op.StopReplicaIOThread(ctx), op.WaitForGTID(ctx, "", 0), op.KillConnections(ctx)} {
				if e == nil {
					return fmt.Errorf("operation %d on an instance without address succeeds", i)
				}
			}
			return nil
		case "status":
			var st *dbop.MySQLInstanceStatus
			st, opErr = op.GetStatus(ctx)
			verdict = func(after snapshot) error {
				if e := before.same(after); e != nil {
					return fmt.Errorf("reading the status changed the instance: %v", e)
				}
				return p.judgeStatus(s, st)
			}
		case "readonly":
			opErr = op.SetReadOnly(ctx, true)
			verdict = func(after snapshot) error {
				want := before
				want.RO, want.SRO = true, true
				if e := want.same(after); e != nil {
					return e
				}
				if p.Busy > 0 && p.RO != 2 && time.Since(start) < time.Duration(p.Busy)*time.Millisecond {
					return fmt.Errorf("reported read-only while a client statement was still running")
				}
				return nil
			}
		case "writable":
			opErr = op.SetReadOnly(ctx, false)
			verdict = func(after snapshot) error {
				want := before
				want.RO, want.SRO, want.IO, want.SQL = false, false, "No", false
				want.Retrieved = ""
				want.Source = after.Source // RESET REPLICA may or may not keep the source
				if e := want.same(after); e != nil {
					return e
				}
				return nil
			}
		case "primary":
			opErr = op.ConfigurePrimary(ctx, p.Count)
			verdict = func(after snapshot) error {
				if after.Timeout < 24*3600*1000 {
					return fmt.Errorf("the primary falls back to asynchronous replication after %d ms", after.Timeout)
				}
				want := before
				want.SSM, want.SSW, want.Timeout = true, p.Count, after.Timeout
				return want.same(after)
			}
		case "replica":
			opErr = op.ConfigureReplica(ctx, dbop.AccessInfo{Host: p.Host, Port: p.Port, User: p.User, Password: p.Password}, p.Flag)
			if !strings.HasPrefix(p.Ver, "8.0.") && !strings.HasPrefix(p.Ver, "8.4.") {
				if opErr == nil {
					return fmt.Errorf("replication configured on unsupported version %s", p.Ver)
				}
				c.Classes = append(c.Classes, "unsupported-version")
				return nil
			}
			verdict = func(after snapshot) error {
				want := before
				want.SSM, want.SSS = false, p.Flag
				want.SQL = true
				want.IO = after.IO
				want.Retrieved = after.Retrieved
				want.Source = fmt.Sprintf("%q:%d user=%q password=%q auto=true key=true", p.Host, p.Port, p.User, p.Password)
				if after.IO == "No" {
					return fmt.Errorf("the receiver is not running")
				}
				return want.same(after)
			}
		case "stopio":
			opErr = op.StopReplicaIOThread(ctx)
			verdict = func(after snapshot) error {
				want := before
				want.IO = "No"
				return want.same(after)
			}
		case "wait":
			set := gtid.MustParse(p.Set1)
			opErr = op.WaitForGTID(ctx, p.Set1, p.Timeout)
			took := time.Since(start)
			if fired {
				break
			}
			var ready time.Duration = -1 // never
			all := gtid.MustParse(p.Executed)
			if set.SubsetOf(all) {
				ready = 0
			} else {
				all.Union(relay)
				if p.Src && set.SubsetOf(all) {
					ready = time.Duration(p.LagMs) * time.Millisecond
				}
			}
			if opErr == nil {
				net.Mu.Lock()
				defer net.Mu.Unlock()
				c.Classes = append(c.Classes, "waited")
				if !set.SubsetOf(s.Executed) {
					return fmt.Errorf("the wait for %s ended although only %s is executed", set, s.Executed)
				}
				return nil
			}
			to := time.Duration(p.Timeout) * time.Second
			if ready >= 0 && (p.Timeout == 0 || ready+time.Second < to) && ready < 50*time.Second {
				return fmt.Errorf("the wait failed (%v) after %v although the transactions are executed after %v", opErr, took, ready)
			}
			if p.Timeout > 0 && (ready < 0 || ready > to+time.Second) {
				c.Classes = append(c.Classes, "timeout")
				if !errors.Is(opErr, dbop.ErrTimeout) {
					return fmt.Errorf("a timeout is not reported as such: %v", opErr)
				}
				if took+time.Second < to {
					return fmt.Errorf("the wait of %v timed out after %v", to, took)
				}
			}
			return nil
		case "subset", "subtract":
			a, _ := gtid.Parse(p.Set1)
			b, berr := gtid.Parse(p.Set2)
			if p.Op == "subset" {
				var r bool
				r, opErr = op.IsSubsetGTID(ctx, p.Set1, p.Set2)
				verdict = func(snapshot) error {
					if r != a.SubsetOf(b) {
						return fmt.Errorf("IsSubsetGTID(%q, %q) = %v", p.Set1, p.Set2, r)
					}
					return nil
				}
			} else {
				var r string
				r, opErr = op.SubtractGTID(ctx, p.Set1, p.Set2)
				verdict = func(snapshot) error {
					g, e := gtid.Parse(r)
					if e != nil || g.String() != a.Minus(b).String() {
						return fmt.Errorf("SubtractGTID(%q, %q) = %q", p.Set1, p.Set2, r)
					}
					return nil
				}
			}
			if berr != nil {
				if opErr == nil {
					return fmt.Errorf("%s of a malformed set succeeds", p.Op)
				}
				return nil
			}
		case "top":
			var r int
			r, opErr = dbop.FindTopRunner(ctx, op, p.status())
			if fired {
				break
			}
			if e := p.judgeTop(&c, r, opErr); e != nil {
				return e
			}
			return nil
		}
		if fired {
			c.Classes = append(c.Classes, "fault")
			if opErr == nil {
				return fmt.Errorf("%s succeeds although statement %d failed (%s)", p.Op, p.FaultAt, p.Fault)
			}
			return nil
		}
		if opErr != nil {
			return fmt.Errorf("%s failed: %v", p.Op, opErr)
		}
		net.Mu.Lock()
		defer net.Mu.Unlock()
		if e := verdict(snap(s)); e != nil {
			return fmt.Errorf("%s: %v", p.Op, e)
		}
		return nil
	})
	return c, err
}

type snapshot struct {
	RO, SRO, SSM, SSS, SQL bool
	SSW                    int
	Timeout                int64
	IO, Retrieved, Source  string
	Executed, Purged       string
}

func snap(s *mysim.Server) snapshot {
	r := snapshot{RO: s.ReadOnly, SRO: s.SuperRO, SSM: s.SSMaster, SSS: s.SSSlave, SQL: s.SQLRun, SSW: s.SSWait, Timeout: s.SSTimeout, IO: s.IOState(), Retrieved: s.Retrieved.String(),
		Executed: s.Executed.String(), Purged: s.Purged.String()}
	if s.Src != nil {
		r.Source = fmt.Sprintf("%q:%d user=%q password=%q auto=%v key=%v", s.Src.Host, s.Src.Port, s.Src.User, s.Src.Password, s.Src.Auto, s.Src.GetKey)
	}
	return r
}

func (a snapshot) same(b snapshot) error {
	if a == b {
		return nil
	}
	var d []string
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	for i := 0; i < va.NumField(); i++ {
		if va.Field(i).Interface() != vb.Field(i).Interface() {
			d = append(d, fmt.Sprintf("%s should be %v, is %v", va.Type().Field(i).Name, va.Field(i).Interface(), vb.Field(i).Interface()))
		}
	}
	return fmt.Errorf("instance state: %s", strings.Join(d, "; "))
}

func (p OpPlan) judgeStatus(s *mysim.Server, st *dbop.MySQLInstanceStatus) error {
	g := st.GlobalVariables
	want := dbop.GlobalVariables{UUID: s.UUID, ExecutedGTID: s.Executed.String(), PurgedGTID: s.Purged.String(), ReadOnly: s.ReadOnly, SuperReadOnly: s.SuperRO, WaitForSlaveCount: s.SSWait,
		SemiSyncMasterEnabled: s.SSMaster, SemiSyncSlaveEnabled: s.SSSlave}
	if g != want {
		return fmt.Errorf("global variables: got %+v, want %+v", g, want)
	}
	if st.IsErrant {
		return fmt.Errorf("a plain status is errant")
	}
	if st.GlobalStatus == nil || st.GlobalStatus.SemiSyncMasterWaitSessions != p.Wait {
		return fmt.Errorf("wait sessions: %+v, want %d", st.GlobalStatus, p.Wait)
	}
	var ids []int32
	for _, h := range st.ReplicaHosts {
		ids = append(ids, h.ServerID)
	}
	if fmt.Sprint(ids) != fmt.Sprint(p.Reps) {
		return fmt.Errorf("replica hosts %v, want %v", ids, p.Reps)
	}
	if (st.ReplicaStatus != nil) != p.Src {
		return fmt.Errorf("replica status present: %v, configured: %v", st.ReplicaStatus != nil, p.Src)
	}
	if r := st.ReplicaStatus; r != nil {
		sqlr := "No"
		if p.SQL {
			sqlr = "Yes"
		}
		if r.SourceHost != s.Src.Host || r.RetrievedGtidSet != s.Retrieved.String() || r.ExecutedGtidSet != s.Executed.String() || r.ReplicaIORunning != p.IO || r.ReplicaSQLRunning != sqlr || r.SourceUser != s.Src.User || r.SourcePort != s.Src.Port {
			return fmt.Errorf("replica status %+v", *r)
		}
		if r.SecondsBehindSource.Valid != (p.Delay != nil) || p.Delay != nil && r.SecondsBehindSource.Int64 != *p.Delay {
			return fmt.Errorf("delay %+v, want %v", r.SecondsBehindSource, p.Delay)
		}
		if r.IsRunning() != (p.IO == "Yes" && p.SQL) {
			return fmt.Errorf("IsRunning() = %v with IO %s SQL %v", r.IsRunning(), p.IO, p.SQL)
		}
	}
	if (st.CloneStatus != nil) != (p.Clone != "") {
		return fmt.Errorf("clone status present: %v, clone %q", st.CloneStatus != nil, p.Clone)
	}
	if st.CloneStatus != nil && (!st.CloneStatus.State.Valid || st.CloneStatus.State.String != p.Clone) {
		return fmt.Errorf("clone status %+v, want %q", st.CloneStatus, p.Clone)
	}
	return nil
}

func (p OpPlan) judgeTop(c *vt.Case, r int, opErr error) error {
	sets := map[int]gtid.Set{}
	for i, s := range p.Sets {
		if s == "x" || s == "-" {
			continue
		}
		ex, re, _ := strings.Cut(s, "|")
		g := gtid.MustParse(ex)
		g.Union(gtid.MustParse(re))
		if !g.Empty() {
			sets[i] = g
		}
	}
	if len(sets) == 0 {
		if !errors.Is(opErr, dbop.ErrNoTopRunner) {
			return fmt.Errorf("FindTopRunner without candidates: %d, %v", r, opErr)
		}
		return nil
	}
	chain := true
	for i := range sets {
		for j := range sets {
			if !sets[i].SubsetOf(sets[j]) && !sets[j].SubsetOf(sets[i]) {
				chain = false
			}
		}
	}
	if opErr != nil {
		if chain {
			return fmt.Errorf("FindTopRunner fails (%v) although one instance has everything", opErr)
		}
		if !errors.Is(opErr, dbop.ErrErrantTransactions) {
			return fmt.Errorf("FindTopRunner on diverged instances: %v", opErr)
		}
		c.Classes = append(c.Classes, "diverged")
		return nil
	}
	if sets[r] == nil {
		return fmt.Errorf("FindTopRunner chose %d, which is no candidate", r)
	}
	for i := range sets {
		if !sets[i].SubsetOf(sets[r]) {
			return fmt.Errorf("FindTopRunner chose %d (%s), but %d has %s", r, sets[r], i, sets[i])
		}
	}
	c.Classes = append(c.Classes, "top-found")
	return nil
}

func TestD02(t *testing.T) { vt.Run(t, "D02", genOp, runOp) }
