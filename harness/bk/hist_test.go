package bk

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"pgregory.net/rapid"

	"verif/internal/gtid"
	"verif/internal/kapi"
	"verif/internal/vt"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_CHILD") != "" {
		os.Exit(m.Run())
	}
	stop := Setup()
	code := m.Run()
	stop()
	os.Exit(code)
}

// Step of a history.
type Step struct {
	Op     string `json:"op"`
	I      int    `json:"i,omitempty"`
	N      int    `json:"n,omitempty"`
	Schema string `json:"schema,omitempty"`
	// backup: writes and rotations while it runs
	During   int    `json:"during,omitempty"`   // before the snapshot is taken
	After    int    `json:"after,omitempty"`    // after the snapshot, before the dump ends
	Between  int    `json:"between,omitempty"`  // before the binary log is read
	RotateIn bool   `json:"rotateIn,omitempty"` // all instances rotate during the dump
	RotateBy int    `json:"rotateBy,omitempty"` // all instances rotate after this many of the After writes, 1 based
	Late     int    `json:"late,omitempty"`     // seconds the writes during the backup are later than its start
	Fault    *Fault `json:"fault,omitempty"`
}

// Restore describes one restore at the end of the history.
type Restore struct {
	Base    string `json:"base"` // backup, tx, start, end
	Idx     int    `json:"idx"`
	Delta   int    `json:"delta"`
	Schema  string `json:"schema,omitempty"`
	Users   string `json:"users,omitempty"`
	SameNS  bool   `json:"sameNS,omitempty"`
	NoPod   int    `json:"noPod,omitempty"` // seconds until the pod exists, has an address, ...
	NoIP    int    `json:"noIP,omitempty"`
	Down    int    `json:"down,omitempty"`
	Init    int    `json:"init,omitempty"` // ... becomes read-only
	Denied  int    `json:"denied,omitempty"`
	Threads int    `json:"threads,omitempty"`
	Fault   *Fault `json:"fault,omitempty"`
	// status queries that fail, as before the agent has granted the privileges
	NoStatus int `json:"noStatus,omitempty"`
}

// Plan of a history.
type Plan struct {
	N       int       `json:"n"`
	Ver     string    `json:"ver"`
	V6      bool      `json:"v6,omitempty"`
	First   int       `json:"first"` // number of the first binary log file
	Frac    int       `json:"frac"`  // milliseconds past the second
	Users   []string  `json:"users,omitempty"`
	Steps   []Step    `json:"steps"`
	Rest    []Restore `json:"restores"`
	Compat  bool      `json:"compat,omitempty"` // drop the UUID set from the status (written by an older version)
	Decoys  bool      `json:"decoys,omitempty"`
	Name    string    `json:"name"`
	Threads int       `json:"threads"`
	Cmd     string    `json:"cmd,omitempty"` // run the commands in child processes with this storage backend
}

var schemas = []string{"app", "shop", "log_1", "App"}

func genHist(t *rapid.T) Plan {
	p := Plan{N: []int{3, 1, 3, 5}[vt.Uni(t, "n", 4)], Ver: []string{"8.4.2", "8.0.36"}[vt.Uni(t, "ver", 2)], V6: vt.Uni(t, "v6", 4) == 3,
		First: []int{1, 8, 98, 999998, 1}[vt.Uni(t, "first", 5)], Frac: []int{0, 500, 999}[vt.Uni(t, "frac", 3)], Compat: vt.Uni(t, "compat", 8) == 7,
		Decoys: vt.Uni(t, "decoys", 2) == 1, Name: []string{"test", "a", "test-1"}[vt.Uni(t, "name", 3)], Threads: 1 + vt.Uni(t, "threads", 4)}
	all := []string{"alice@%", "bob@10.%", "bob@localhost", "carol@%", "alice2@%"}
	for _, u := range all {
		if vt.Uni(t, "user", 2) == 1 {
			p.Users = append(p.Users, u)
		}
	}
	write := func() Step {
		return Step{Op: "write", N: 1 + vt.Uni(t, "nw", 3), Schema: schemas[vt.Uni(t, "schema", len(schemas))]}
	}
	ops := []string{"write", "write", "write", "write", "rotate", "sleep", "sleep", "lag", "lag", "catch", "switch", "reinit", "unready", "ready", "down", "up", "purge"}
	step := func() Step {
		s := Step{Op: ops[vt.Uni(t, "op", len(ops))], I: vt.Uni(t, "i", p.N)}
		switch s.Op {
		case "write":
			return write()
		case "sleep":
			s.N = []int{1, 1, 5, 3600, 86400}[vt.Uni(t, "sleep", 5)]
		case "purge":
			s.N = 1 + vt.Uni(t, "np", 3)
		case "down":
			s.N = vt.Uni(t, "stale", 2)
		}
		return s
	}
	rounds := 2 + vt.Uni(t, "rounds", 4)
	for i := 0; i < rounds; i++ {
		for n := rapid.IntRange(0, 5).Draw(t, "steps"); n > 0; n-- {
			p.Steps = append(p.Steps, step())
		}
		if p.N > 1 && i > 0 && vt.Uni(t, "gap", 6) == 0 {
			// the source of the last backup goes away and the others miss files
			for k := 0; k < p.N; k++ {
				p.Steps = append(p.Steps, Step{Op: "rotate", I: k}, Step{Op: "purge", I: k, N: vt.Uni(t, "np", 3)})
			}
			p.Steps = append(p.Steps, Step{Op: []string{"unready", "down"}[vt.Uni(t, "gone", 2)], I: 1 + vt.Uni(t, "who", p.N-1)})
		}
		s := Step{Op: "backup"}
		if vt.Uni(t, "busy", 2) == 1 {
			s.During, s.After, s.Between = vt.Uni(t, "during", 3), vt.Uni(t, "after", 3), vt.Uni(t, "between", 3)
			s.RotateIn, s.Late = vt.Uni(t, "rot", 2) == 1, vt.Uni(t, "late", 3)
			s.RotateBy = vt.Uni(t, "rotby", s.After+1)
		}
		p.Steps = append(p.Steps, s)
		if vt.Uni(t, "then", 3) > 0 {
			p.Steps = append(p.Steps, write(), Step{Op: "sleep", N: 1 + vt.Uni(t, "pause", 3)}, write())
		}
	}
	m := 1 + vt.Uni(t, "restores", 3)
	for i := 0; i < m; i++ {
		r := Restore{Base: []string{"bin", "bin", "bin", "bin", "tx", "tx", "backup", "end", "start", "bin"}[vt.Uni(t, "base", 10)], Idx: vt.Uni(t, "idx", 64), Delta: []int{0, 1, 1, 2, -1, 30, -30, 3600}[vt.Uni(t, "delta", 8)], Threads: 1 + vt.Uni(t, "rthreads", 4)}
		if r.Base == "bin" {
			r.Delta = []int{1, 1, 1, 1, 0, 2, 3}[vt.Uni(t, "bdelta", 7)]
		}
		if vt.Uni(t, "filter", 3) == 2 {
			r.Schema = schemas[vt.Uni(t, "rschema", len(schemas))]
		}
		if vt.Uni(t, "ufilter", 3) == 2 {
			r.Users = []string{"alice@%", "bob", "bob@10.%,carol@%", "alice", "nobody@%"}[vt.Uni(t, "rusers", 5)]
		}
		r.SameNS = vt.Uni(t, "samens", 3) == 2
		if vt.Uni(t, "slow", 3) == 2 {
			r.NoPod, r.NoIP, r.Down, r.Init = vt.Uni(t, "nopod", 3), vt.Uni(t, "noip", 3), vt.Uni(t, "downs", 3), []int{0, 0, 2, 100}[vt.Uni(t, "init", 4)]
			r.Denied = vt.Uni(t, "denied", 2)
		}
		p.Rest = append(p.Rest, r)
	}
	return p
}

// backup as the oracle sees it.
type brec struct {
	T      int64
	Prefix int
	Bin    *BinRec // the binary log saved for it by the next backup
	Broken bool    // a failed backup left an incomplete dump
	BinBad bool    // a failed upload left an incomplete binary log
}

type runner struct {
	*W
	p     Plan
	ready []bool
	up    []bool
	recs  []*brec
	last  *brec // recorded in the status
	cls   map[string]bool
	stale bool // some pod looks ready although its instance is down
}

func (r *runner) class(f string) { r.cls[f] = true }

func start(p Plan) *runner {
	w := NewW("src-ns", p.Name, p.N, p.Ver, p.V6)
	w.Cmd, w.Run = p.Cmd, w.runCmd
	current.Store(w)
	r := &runner{W: w, p: p, cls: map[string]bool{}}
	for i, x := range w.Insts {
		x.num = p.First - 1
		if i > 0 {
			x.num += 3 * i
		}
		x.Rotate()
		for _, u := range p.Users {
			x.Users[u] = true
		}
		r.ready = append(r.ready, true)
		r.up = append(r.up, true)
	}
	w.Insts[0].S.SuperRO, w.Insts[0].S.ReadOnly = false, false
	c := &mocov1beta2.MySQLCluster{ObjectMeta: metav1.ObjectMeta{Namespace: w.NS, Name: p.Name}}
	c.Spec.Replicas = int32(p.N)
	w.API.Put("mysqlclusters", c)
	r.pods()
	if p.Decoys {
		// pods that are not instances of the cluster
		tr := true
		w.PutPod(w.NS, p.Name+"-2", 0, "10.0.9.1", &tr, false)
		w.PutPod("other", p.Name, 0, "10.0.9.2", &tr, false)
		w.PutPod("other", p.Name, 7, "10.0.9.3", &tr, false)
		oc := c.DeepCopy()
		oc.Namespace = "other"
		w.API.Put("mysqlclusters", oc)
		for _, k := range []string{"moco/src-ns/" + p.Name + "-2/20000101-000000/dump.tar", "moco/src-ns/" + p.Name + "/README", "moco/other/" + p.Name + "/20000101-000500/dump.tar",
			"moco/src-ns/" + p.Name + "/20000101000000/dump.tar"} {
			w.Objects[k] = []byte("decoy")
		}
	}
	return r
}

func (r *runner) pods() {
	for i, x := range r.Insts {
		b := r.ready[i] && r.up[i]
		r.PutPod(r.NS, r.Name, i, x.S.IP, &b, i%2 == 1)
	}
}

func (r *runner) setStatus(f func(*mocov1beta2.MySQLCluster)) {
	c := r.Cluster(r.NS, r.Name)
	f(c)
	r.API.Put("mysqlclusters", c)
}

// lock protects the world while the driver changes it.
func (r *runner) with(f func()) {
	r.Net.Mu.Lock()
	r.Mu.Lock()
	defer r.Net.Mu.Unlock()
	defer r.Mu.Unlock()
	f()
}

func (r *runner) step(s Step) error {
	x := r.Insts[s.I%r.p.N]
	i := s.I % r.p.N
	switch s.Op {
	case "write":
		if r.up[r.Primary] {
			r.with(func() { r.Commit(s.Schema, s.N, time.Now().Unix()) })
			time.Sleep(time.Duration(400*s.N) * time.Millisecond)
		}
	case "sleep":
		time.Sleep(time.Duration(s.N) * time.Second)
	case "rotate":
		r.with(func() { x.Rotate() })
	case "lag":
		x.Lag = i != r.Primary
	case "catch":
		r.with(func() { x.Lag = false; r.Replicate() })
	case "switch":
		if i == r.Primary || !r.up[i] {
			break
		}
		r.with(func() {
			x.Lag = false
			r.Replicate()
			r.Insts[r.Primary].S.SuperRO = true
			r.Primary = i
			x.S.SuperRO, x.S.ReadOnly = false, false
		})
		r.setStatus(func(c *mocov1beta2.MySQLCluster) { c.Status.CurrentPrimaryIndex = i })
		r.class("primary-changed")
	case "reinit":
		if i == r.Primary {
			break
		}
		r.with(func() {
			p := r.Insts[r.Primary]
			x.S.UUID = r.Net.NewUUID()
			x.S.Executed = p.S.Executed.Clone()
			x.State = map[string][]int{}
			for k, v := range p.State {
				x.State[k] = append([]int(nil), v...)
			}
			x.Applied, x.Purged, x.Lag = p.Applied, p.Applied, false
			x.S.Purged = p.S.Executed.Clone()
			x.Files, x.num = nil, 0
			x.Rotate()
		})
		r.class("reinitialised")
	case "unready", "ready":
		r.ready[i] = s.Op == "ready"
		r.pods()
		r.stale = false
	case "down", "up":
		r.up[i] = s.Op == "up"
		r.with(func() {
			if r.up[i] {
				if !x.S.Up {
					x.S.Boot()
					x.S.SuperRO = i != r.Primary
				}
			} else {
				x.S.Crash()
			}
		})
		// the pod of a stopped instance may still be seen as ready
		if s.Op == "up" || s.N == 0 {
			r.pods()
			r.stale = false
		} else {
			r.stale = true
		}
	case "purge":
		r.with(func() {
			for n := s.N; n > 0 && len(x.Files) > 1; n-- {
				for _, t := range x.Files[0].Tx {
					x.Purged = t.Seq
					x.S.Purged.Add(t.ID)
				}
				x.Files = x.Files[1:]
			}
			x.sync()
		})
	case "backup":
		return r.backup(s)
	}
	return nil
}

// due tells which instances continue the recorded binary log chain.
func (r *runner) due() []int {
	c := r.Cluster(r.NS, r.Name)
	lb := c.Status.Backup
	if lb.Time.IsZero() {
		return nil
	}
	set := lb.UUIDSet
	if len(set) == 0 {
		set = map[string]string{itoa(lb.SourceIndex): lb.SourceUUID}
	}
	var l []int
	for i, x := range r.Insts {
		if r.ready[i] && r.up[i] && set[itoa(i)] == x.S.UUID {
			l = append(l, i)
		}
	}
	return l
}

func (r *runner) backup(s Step) error {
	for _, x := range r.recs {
		if n := x.T + 1 - time.Now().Unix(); n > 0 {
			time.Sleep(time.Duration(n) * time.Second)
		}
	}
	if r.p.Compat {
		r.setStatus(func(c *mocov1beta2.MySQLCluster) { c.Status.Backup.UUIDSet = nil })
	}
	before := r.Cluster(r.NS, r.Name).Status.Backup
	due := r.due()
	nd, nb := len(r.Dumps), len(r.Bins)
	at := time.Now()
	ts := at.Unix() + int64(s.Late)
	r.OnTool = func(tc ToolCall, x *Inst, remote bool) {
		if !remote {
			r.Commit(schemas[0], s.During, ts)
		} else {
			r.Commit(schemas[1], s.Between, ts)
		}
		if s.RotateIn && !remote {
			for _, y := range r.Insts {
				y.Rotate()
			}
		}
	}
	r.AfterDump = func() {
		r.Commit(schemas[2], s.RotateBy, ts)
		if s.RotateBy > 0 {
			for _, y := range r.Insts {
				y.Rotate()
			}
		}
		r.Commit(schemas[2], s.After-s.RotateBy, ts)
	}
	if !r.up[r.Primary] {
		r.OnTool, r.AfterDump = nil, nil
	}
	objs := map[string]bool{}
	for k := range r.Objects {
		objs[k] = true
	}
	r.arm(s.Fault)
	err := r.Backup(r.p.Threads)
	hit := r.disarm()
	time.Sleep(time.Duration(s.Late) * time.Second)
	if errors.Is(err, vt.ErrInconclusive) {
		return err
	}
	if len(r.Stray) > 0 {
		return fmt.Errorf("%w: %s", vt.ErrInconclusive, r.Stray[0])
	}
	after := r.Cluster(r.NS, r.Name).Status.Backup
	if hit != nil {
		// retries may have delayed the start
		for k := range r.Objects {
			ts, e := time.Parse("20060102-150405", path.Base(path.Dir(k)))
			if !objs[k] && path.Base(k) == "dump.tar" && e == nil && ts.Unix() >= at.Unix() && ts.Before(at.Add(time.Hour)) {
				at = ts
			}
		}
		if time.Now().Before(at) {
			time.Sleep(time.Until(at))
		}
	}
	anyReady := false
	for i := range r.Insts {
		anyReady = anyReady || r.ready[i] && r.up[i]
	}
	statusPut := hit != nil && hit.Site == "api" && isStatus(hit.What)
	event := hit != nil && hit.Site == "api" && strings.HasPrefix(hit.What, "POST")
	late := hit != nil && hit.Objs > len(objs) // after the dump was stored
	var lastBin string
	if r.last != nil {
		lastBin = key(r.NS, r.Name, time.Unix(r.last.T, 0), "binlog.tar.zst")
	}
	if err != nil && !(statusPut && !reflect.DeepEqual(before, after) && strings.HasSuffix(s.Fault.Mode, "after")) {
		r.class("backup-failed")
		if !reflect.DeepEqual(before, after) {
			return fmt.Errorf("a failed backup (%v) changed the recorded backup from %+v to %+v", err, before, after)
		}
		if anyReady && !r.stale && hit == nil {
			return fmt.Errorf("backup failed although an instance is ready: %v", err)
		}
		if hit != nil && (event || statusPut && s.Fault.Mode == "conflict" || late && (hit.Site == "tool" || hit.Site == "put")) {
			return fmt.Errorf("backup failed because of %s %s, which should be tolerated: %v", hit.Site, hit.What, err)
		}
		// what the attempt left in the bucket
		if o, ok := r.Objects[key(r.NS, r.Name, at, "dump.tar")]; ok {
			x := &brec{T: at.Unix(), Broken: true}
			if len(r.Dumps) == nd+1 && checkDump(o, r.Dumps[nd]) == nil {
				x.Broken, x.Prefix = false, r.Dumps[nd].Prefix
			}
			r.recs = append(r.recs, x)
			r.class("orphan-dump")
		}
		if r.last != nil && len(r.Bins) == nb+1 {
			r.saved(lastBin, &r.Bins[nb])
		}
		return nil
	}
	r.class("backup")
	if err == nil && hit != nil && !late && (hit.Site == "tool" || hit.Site == "put") {
		return fmt.Errorf("backup succeeded although %s failed before the dump was stored", hit.What)
	}
	if len(r.Dumps) != nd+1 {
		return fmt.Errorf("a successful backup took %d dumps", len(r.Dumps)-nd)
	}
	d := r.Dumps[nd]
	rec := &brec{T: at.Unix(), Prefix: d.Prefix}
	if after.Time.Unix() != rec.T {
		return fmt.Errorf("backup started at %s is recorded as %s", at.UTC(), after.Time.UTC())
	}
	wantNew := map[string]bool{key(r.NS, r.Name, at, "dump.tar"): true}
	if e := checkDump(r.Objects[key(r.NS, r.Name, at, "dump.tar")], d); e != nil {
		return fmt.Errorf("stored dump: %w", e)
	}
	if after.DumpSize != int64(len(r.Objects[key(r.NS, r.Name, at, "dump.tar")])) {
		return fmt.Errorf("recorded dump size %d, stored %d", after.DumpSize, len(r.Objects[key(r.NS, r.Name, at, "dump.tar")]))
	}
	if after.GTIDSet != d.GTID || after.SourceUUID != d.Inst.S.UUID || r.Insts[after.SourceIndex] != d.Inst {
		return fmt.Errorf("recorded source %d %s %s, dump was taken from %s %s at %s", after.SourceIndex, after.SourceUUID, after.GTIDSet, d.Inst.S.Host, d.Inst.S.UUID, d.GTID)
	}
	if len(due) > 0 {
		bk := key(r.NS, r.Name, time.Unix(r.last.T, 0), "binlog.tar.zst")
		switch {
		case len(r.Bins) == nb+1:
			b := r.Bins[nb]
			if b.Inst != d.Inst {
				return fmt.Errorf("binary log taken from %s, dump from %s", b.Inst.S.Host, d.Inst.S.Host)
			}
			wantNew[bk] = true
			if hit != nil && len(after.Warnings) > 0 {
				r.saved(bk, &b)
				r.class("binlog-failed")
				break
			}
			if hit != nil && late && (hit.Site == "tool" || hit.Site == "put") {
				return fmt.Errorf("no warning is recorded although %s %s failed", hit.Site, hit.What)
			}
			if e := checkBin(r.Objects[bk], b); e != nil {
				return fmt.Errorf("stored binary log %s: %w", bk, e)
			}
			r.last.BinBad = false
			if after.BinlogSize != int64(len(r.Objects[bk])) {
				return fmt.Errorf("recorded binary log size %d, stored %d", after.BinlogSize, len(r.Objects[bk]))
			}
			if len(after.Warnings) > 0 {
				return fmt.Errorf("warnings after a complete backup: %v", after.Warnings)
			}
			r.last.Bin = &b
			r.class("binlog")
			if after.SourceIndex != before.SourceIndex {
				r.class("binlog-other-source")
			}
			if b.Gap {
				return fmt.Errorf("the binary log taken from %s misses transactions committed since the last backup and no warning is recorded", b.Inst.S.Host)
			}
		default:
			// the recorded file may be gone, or earlier files of another source
			if len(after.Warnings) == 0 {
				return fmt.Errorf("no binary log was saved and no warning recorded")
			}
			gone := true
			for _, f := range d.Inst.Files {
				gone = gone && f.Name != before.BinlogFilename
			}
			set, e := gtid.Parse(before.GTIDSet)
			if e != nil {
				return fmt.Errorf("recorded GTID set: %w", e)
			}
			missing := false
			for n := 1; n <= d.Inst.Purged && n <= len(r.Hist); n++ {
				missing = missing || !set.Has(r.Hist[n-1].ID)
			}
			if hit != nil {
				r.class("binlog-failed")
			} else if missing {
				r.class("binlog-gap")
			} else if !gone || after.SourceIndex != before.SourceIndex {
				return fmt.Errorf("the binary log since the last backup is available on %v but was not saved: %v", due, after.Warnings)
			}
			r.class("binlog-lost")
		}
	} else if len(r.Bins) != nb {
		return fmt.Errorf("a binary log was taken although no instance continues the chain")
	}
	for k := range r.Objects {
		if !objs[k] && !wantNew[k] {
			return fmt.Errorf("unexpected object %s", k)
		}
	}
	r.recs = append(r.recs, rec)
	r.last = rec
	return nil
}

// arm installs a fault for the next command.
func (r *runner) arm(f *Fault) {
	r.Mu.Lock()
	defer r.Mu.Unlock()
	r.F, r.HitF, r.Count = f, nil, map[string]int{}
}

func (r *runner) disarm() *Hit {
	r.Mu.Lock()
	defer r.Mu.Unlock()
	r.F, r.NoStatus = nil, 0
	if r.HitF != nil {
		r.class("fault-" + r.HitF.Site)
	}
	return r.HitF
}

// saved notes what a failed attempt left of the binary log of the last backup.
func (r *runner) saved(k string, b *BinRec) {
	o, ok := r.Objects[k]
	if !ok {
		return
	}
	if checkBin(o, *b) == nil {
		r.last.Bin, r.last.BinBad = b, b.Gap
	} else if r.last.Bin == nil || checkBin(o, *r.last.Bin) != nil {
		r.last.BinBad = true
	}
}

func untar(b []byte) (map[string][]byte, error) {
	m := map[string][]byte{}
	tr := tar.NewReader(bytes.NewReader(b))
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return m, nil
		}
		if err != nil {
			return nil, err
		}
		if h.Typeflag == tar.TypeReg {
			c, err := io.ReadAll(tr)
			if err != nil {
				return nil, err
			}
			m[strings.TrimPrefix(h.Name, "./")] = c
		}
	}
}

func checkDump(b []byte, d DumpRec) error {
	if b == nil {
		return fmt.Errorf("missing")
	}
	m, err := untar(b)
	if err != nil {
		return err
	}
	for n, c := range d.Files {
		if !bytes.Equal(m["dump/"+n], c) {
			return fmt.Errorf("file %s differs from the dump", n)
		}
	}
	if len(m) != len(d.Files) {
		return fmt.Errorf("%d files instead of %d", len(m), len(d.Files))
	}
	return nil
}

func checkBin(b []byte, rec BinRec) error {
	if b == nil {
		return fmt.Errorf("missing")
	}
	cmd := exec.Command("/usr/bin/zstd", "-d", "-c")
	cmd.Stdin = bytes.NewReader(b)
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("zstd: %w", err)
	}
	if len(out) < 1024 || !bytes.Equal(out[len(out)-512:], make([]byte, 512)) {
		return fmt.Errorf("not a complete archive: %d bytes", len(out))
	}
	m, err := untar(out)
	if err != nil {
		return err
	}
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool {
		return len(names[i]) < len(names[j]) || len(names[i]) == len(names[j]) && names[i] < names[j]
	})
	var got []int
	for _, n := range names {
		for _, l := range strings.Split(string(m[n]), "\n") {
			var t Tx
			if json.Unmarshal([]byte(l), &t) == nil {
				got = append(got, t.Seq)
			}
		}
	}
	var want []int
	for _, t := range rec.Tx {
		want = append(want, t.Seq)
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("holds transactions %v instead of %v", got, want)
	}
	return nil
}

// point computes the restore point in seconds.
func (r *runner) point(q Restore) int64 {
	var b int64
	switch q.Base {
	case "backup":
		if len(r.recs) > 0 {
			b = r.recs[q.Idx%len(r.recs)].T
		}
	case "tx":
		l := r.Hist
		for q.Idx%4 > 0 && len(l) > 1 && len(r.recs) > 0 && l[0].TS < r.recs[0].T {
			l = l[1:]
		}
		if len(l) > 0 {
			b = l[q.Idx/4%len(l)].TS
		}
	case "bin": // a transaction of a saved binary log
		var l []Tx
		for _, x := range r.recs {
			if x.Bin != nil {
				l = append(l, x.Bin.Tx...)
			}
		}
		if len(l) > 0 {
			b = l[q.Idx%len(l)].TS
		}
	case "end":
		b = time.Now().Unix()
	}
	if b == 0 {
		b = epoch.Unix() + 60
	}
	return b + int64(q.Delta)
}

var epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

type want struct {
	none   bool
	state  map[string][]int
	gtid   gtid.Set
	users  map[string]bool
	bin    bool
	broken bool
	rec    *brec
	steps  int
}

// expect is what a restore to second p must produce.
func (r *runner) expect(p int64, q Restore) want {
	var rec *brec
	for _, x := range r.recs {
		if x.T <= p && (rec == nil || x.T > rec.T) {
			rec = x
		}
	}
	w := want{none: rec == nil, state: map[string][]int{}, users: map[string]bool{}, gtid: gtid.New(), rec: rec}
	if rec == nil {
		return w
	}
	w.broken = rec.Broken || rec.BinBad && rec.T != p
	var txs []Tx
	txs = append(txs, r.Hist[:rec.Prefix]...)
	if rec.Bin != nil && rec.T != p {
		w.bin = true
		for _, t := range r.Hist[rec.Prefix:max(rec.Prefix, rec.Bin.Upto)] {
			if t.TS >= p {
				break
			}
			txs = append(txs, t)
			w.steps++
		}
	}
	for _, t := range txs {
		w.gtid.Add(t.ID)
		if q.Schema == "" || t.Schema == q.Schema {
			w.state[t.Schema] = append(w.state[t.Schema], t.Seq)
		}
	}
	for _, u := range r.p.Users {
		if q.Users == "" || userMatch(strings.Split(q.Users, ","), u) {
			w.users[u] = true
		}
	}
	return w
}

func (r *runner) newTarget(q Restore, k int) (ns, name string, x *Inst) {
	ns, name = "dst-ns", fmt.Sprintf("new-%d", k)
	if q.SameNS {
		ns = r.NS
	}
	x = r.newInst(ns, name, 0, r.p.V6)
	x.S.IP = fmt.Sprintf("10.0.7.%d", k+1)
	x.num = 0
	x.Rotate()
	r.Targets[name] = x
	c := &mocov1beta2.MySQLCluster{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}}
	c.Spec.Replicas = 3
	r.API.Put("mysqlclusters", c)
	return
}

func (r *runner) restore(q Restore, k int) error {
	p := r.point(q)
	w := r.expect(p, q)
	ns, name, x := r.newTarget(q, k)
	base := map[string]bool{}
	for u := range x.Users {
		base[u] = true
	}
	if q.NoPod == 0 {
		r.PutPod(ns, name, 0, map[bool]string{true: "", false: x.S.IP}[q.NoIP > 0], nil, false)
	}
	done := make(chan struct{})
	fin := make(chan struct{})
	if q.Down > 0 {
		r.with(func() { x.S.Crash() })
	}
	if q.Init > 0 {
		x.S.SuperRO, x.S.ReadOnly = false, false
	}
	if q.Denied > 0 {
		r.Mu.Lock()
		delete(x.S.Users, "moco-admin")
		r.Mu.Unlock()
	}
	go func() {
		defer close(fin)
		wait := func(s int) bool {
			select {
			case <-done:
				return false
			case <-time.After(time.Duration(s) * time.Second):
				return true
			}
		}
		if q.NoPod > 0 && wait(q.NoPod) {
			r.API.Mu.Lock()
			r.PutPod(ns, name, 0, "", nil, false)
			r.API.Mu.Unlock()
		}
		if wait(q.NoIP) {
			r.API.Mu.Lock()
			r.PutPod(ns, name, 0, x.S.IP, nil, false)
			r.API.Mu.Unlock()
		}
		if q.Denied > 0 && wait(q.Denied) {
			r.Net.Mu.Lock()
			x.S.Users["moco-admin"] = adminPW
			r.Net.Mu.Unlock()
		}
		if q.Down > 0 && wait(q.Down) {
			r.Net.Mu.Lock()
			x.S.Boot()
			if q.Init > 0 {
				x.S.SuperRO, x.S.ReadOnly = false, false
			}
			r.Net.Mu.Unlock()
		}
		if q.Init > 0 && wait(q.Init) {
			r.Net.Mu.Lock()
			x.S.SuperRO, x.S.ReadOnly = true, true
			r.Net.Mu.Unlock()
		}
	}()
	var atDone string
	r.OnChange = func(verb, res, cns, cname string, old, new kapi.Obj) {
		st, _ := new["status"].(kapi.Obj)
		if res != "mysqlclusters" || st == nil || st["restoredTime"] == nil {
			return
		}
		if cns != ns || cname != name {
			atDone = "the restore was recorded in " + cns + "/" + cname
			return
		}
		if e := r.judge(w, x, base, q); e != nil {
			atDone = "when the restore was recorded as done: " + e.Error()
		}
	}
	r.arm(q.Fault)
	r.Net.Mu.Lock()
	r.NoStatus = q.NoStatus
	r.Net.Mu.Unlock()
	err := r.Restore(ns, name, time.Unix(p, 0).UTC(), q.Schema, q.Users, q.Threads)
	hit := r.disarm()
	close(done)
	<-fin
	if errors.Is(err, vt.ErrInconclusive) {
		return err
	}
	r.OnChange = nil
	if len(r.Stray) > 0 {
		return fmt.Errorf("%w: %s", vt.ErrInconclusive, r.Stray[0])
	}
	c := r.Cluster(ns, name)
	pt := time.Unix(p, 0).UTC().Format("20060102-150405")
	statusPut := hit != nil && hit.Site == "api" && isStatus(hit.What)
	if err != nil && statusPut && c.Status.RestoredTime != nil && strings.HasSuffix(q.Fault.Mode, "after") {
		err = nil // it was recorded, only the answer was lost
	}
	if err != nil {
		if c.Status.RestoredTime != nil {
			return fmt.Errorf("a failed restore is recorded as done: %v", err)
		}
		if hit != nil {
			if hit.Site == "api" && (strings.HasPrefix(hit.What, "POST") || strings.HasPrefix(hit.What, "GET") && strings.Contains(hit.What, "pods")) && !w.none && !w.broken && q.NoStatus == 0 {
				return fmt.Errorf("restore to %s failed because of %s, which should be tolerated: %w", pt, hit.What, err)
			}
			r.class("restore-failed")
			return nil
		}
		if w.broken || q.NoStatus > 0 {
			r.class("restore-failed")
			return nil
		}
		if w.none {
			r.class("no-backup")
			if len(x.State) > 0 || x.Loads > 0 {
				return fmt.Errorf("data was loaded although there is no backup before %s", pt)
			}
			return nil
		}
		return fmt.Errorf("restore to %s failed: %w", pt, err)
	}
	if hit != nil && (hit.Site == "tool" || hit.Site == "get" || hit.Site == "list") {
		return fmt.Errorf("restore to %s succeeded although %s %s failed", pt, hit.Site, hit.What)
	}
	if w.none {
		return fmt.Errorf("restore to %s succeeded without a backup before it", pt)
	}
	if atDone != "" {
		return fmt.Errorf("restore to %s: %s", pt, atDone)
	}
	if c.Status.RestoredTime == nil {
		return fmt.Errorf("restore to %s succeeded but is not recorded", pt)
	}
	if e := r.judge(w, x, base, q); e != nil {
		return fmt.Errorf("restore to %s: %w", pt, e)
	}
	r.class("restored")
	if w.bin && w.steps > 0 {
		r.class("point-in-time")
	}
	if q.Schema != "" {
		r.class("schema-filter")
	}
	return nil
}

func (r *runner) judge(w want, x *Inst, base map[string]bool, q Restore) error {
	got := map[string][]int{}
	for s, l := range x.State {
		if len(l) > 0 {
			got[s] = l
		}
	}
	if !reflect.DeepEqual(got, w.state) {
		return fmt.Errorf("data %v, want %v (dump of %s with %d transactions, schema %q)", got, w.state, time.Unix(w.rec.T, 0).UTC(), w.rec.Prefix, q.Schema)
	}
	if !reflect.DeepEqual(x.S.Executed.String(), w.gtid.String()) {
		return fmt.Errorf("executed GTID set %s, want %s", x.S.Executed, w.gtid)
	}
	us := map[string]bool{}
	for u := range x.Users {
		if !base[u] {
			us[u] = true
		}
	}
	if !reflect.DeepEqual(us, w.users) {
		return fmt.Errorf("users %v, want %v", us, w.users)
	}
	if !x.S.SuperRO || x.S.LocalInfile {
		return fmt.Errorf("the instance is left with super_read_only=%v local_infile=%v", x.S.SuperRO, x.S.LocalInfile)
	}
	return nil
}

func runHist(t *testing.T, p Plan) (c vt.Case, err error) {
	var r *runner
	err = vt.Bubble(t, func() error {
		time.Sleep(time.Duration(p.Frac) * time.Millisecond)
		r = start(p)
		defer r.Net.Close()
		for i, s := range p.Steps {
			if e := r.step(s); e != nil {
				return fmt.Errorf("step %d (%s): %w", i+1, s.Op, e)
			}
			r.Mu.Lock()
			r.OnTool, r.AfterDump = nil, nil
			r.Mu.Unlock()
		}
		for k, q := range p.Rest {
			if e := r.restore(q, k); e != nil {
				return fmt.Errorf("restore %d: %w", k+1, e)
			}
		}
		return nil
	})
	if errors.Is(err, vt.ErrLeak) {
		err = nil // the process ends anyway
	}
	if r != nil {
		for k := range r.cls {
			c.Classes = append(c.Classes, k)
		}
		sort.Strings(c.Classes)
		c.Nontrivial = r.cls["restored"] && r.cls["binlog"]
	}
	return c, err
}

func genFault(t *rapid.T) Plan {
	p := genHist(t)
	if vt.Uni(t, "cmd", 5) == 4 {
		p.Cmd = []string{"s3", "gcs", "azure"}[vt.Uni(t, "backend", 3)]
		p.V6 = false
	}
	var bs []int
	for i, s := range p.Steps {
		if s.Op == "backup" {
			bs = append(bs, i)
		}
	}
	gen := func(restore bool) *Fault {
		sites := []string{"api", "api", "sql", "sql", "tool", "tool", "put"}
		if restore {
			sites = []string{"api", "sql", "sql", "tool", "tool", "get", "list"}
		}
		f := &Fault{Site: sites[vt.Uni(t, "site", len(sites))], Mode: []string{"before", "after", "drop", "dropafter", "partial", "conflict"}[vt.Uni(t, "mode", 6)]}
		if p.Cmd != "" && (f.Site == "put" || f.Site == "get" || f.Site == "list") {
			f.Site = "store"
			f.Mode = []string{"403", "500", "drop", "adrop", "trunc"}[vt.Uni(t, "smode", 5)]
		}
		n := map[string]int{"api": 12, "sql": 30, "tool": 5, "put": 2, "get": 2, "list": 1, "store": 5}[f.Site]
		f.At = 1 + vt.Uni(t, "at", n)
		return f
	}
	i := bs[vt.Uni(t, "which", len(bs))]
	if vt.Uni(t, "inBackup", 3) > 0 {
		p.Steps[i].Fault = gen(false)
		if vt.Uni(t, "then2", 2) == 1 {
			// another backup soon
			rest := append([]Step{{Op: "backup"}}, p.Steps[i+1:]...)
			p.Steps = append(p.Steps[:i+1:i+1], rest...)
		}
	}
	for k := range p.Rest {
		q := &p.Rest[k]
		if vt.Uni(t, "inRestore", 2) == 1 {
			q.Fault = gen(true)
		}
		if vt.Uni(t, "nostatus", 6) == 5 {
			q.NoStatus = 1 + vt.Uni(t, "ns", 10)
		}
		if p.Cmd != "" {
			q.NoPod, q.NoIP, q.Down, q.Init, q.Denied = 0, 0, 0, 0, 0
		}
	}
	if p.Cmd != "" && len(p.Rest) > 1 {
		p.Rest = p.Rest[:1]
	}
	return p
}

func runFault(t *testing.T, p Plan) (vt.Case, error) {
	c, err := runHist(t, p)
	c.Nontrivial = false
	for _, k := range c.Classes {
		c.Nontrivial = c.Nontrivial || strings.HasPrefix(k, "fault-")
	}
	if p.Cmd != "" {
		c.Classes = append(c.Classes, "command")
	}
	return c, err
}

func TestB05(t *testing.T) { vt.Run(t, "B05", genFault, runFault) }

func TestB01(t *testing.T) { vt.Run(t, "B01", genHist, runHist) }

// isStatus recognises an update of a cluster's status.
func isStatus(what string) bool {
	return (strings.HasPrefix(what, "PUT") || strings.HasPrefix(what, "PATCH")) && strings.Contains(what, "mysqlclusters/status")
}
