package clu

import (
	"fmt"
	"slices"
	"sort"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"pgregory.net/rapid"

	"verif/internal/gtid"
	"verif/internal/mysim"
	"verif/internal/world"
)

// Iv is an interval of transactions written by U (an instance index, 8: unknown server, 9: the external source).
type Iv struct {
	U int   `json:"u"`
	A int64 `json:"a"`
	B int64 `json:"b"`
}

// Inst is the state of one instance and its pod.
type Inst struct {
	Net     string `json:"net,omitempty"` // "", down, cut
	NoPod   bool   `json:"nopod,omitempty"`
	Term    bool   `json:"term,omitempty"`
	Demote  string `json:"demote,omitempty"`
	Prevent string `json:"prevent,omitempty"`
	Ready   bool   `json:"ready,omitempty"`
	Label   string `json:"label,omitempty"`
	Exec    []Iv   `json:"exec,omitempty"`
	Retr    []Iv   `json:"retr,omitempty"`
	Purged  []Iv   `json:"purged,omitempty"`
	RO      bool   `json:"ro,omitempty"`
	SRO     bool   `json:"sro,omitempty"`
	Src     int    `json:"src"` // -1: no replica status, 9: external, 8: some other host
	IO      string `json:"io,omitempty"`
	SQL     bool   `json:"sql,omitempty"`
	SSM     bool   `json:"ssm,omitempty"`
	SSS     bool   `json:"sss,omitempty"`
	SSWait  int    `json:"sswait,omitempty"`
	Wait    int    `json:"wait,omitempty"` // semi-sync wait sessions
	Clone   string `json:"clone,omitempty"`
	Delay   *int64 `json:"delay,omitempty"` // nil: NULL
	Hide    bool   `json:"hide,omitempty"`  // not in SHOW REPLICAS of the primary
}

// Snap is a cluster state.
type Snap struct {
	N        int     `json:"n"`
	Ver      string  `json:"ver"`
	Primary  int     `json:"primary"`
	Errants  []int   `json:"errants,omitempty"`
	Source   bool    `json:"source,omitempty"`
	Cloned   bool    `json:"cloned,omitempty"`
	Restore  bool    `json:"restore,omitempty"`
	Restored bool    `json:"restored,omitempty"`
	Offline  bool    `json:"offline,omitempty"`
	MaxDelay int64   `json:"maxDelay,omitempty"`
	IDBase   int32   `json:"idBase"`
	Extra    []int32 `json:"extra,omitempty"` // further server ids in SHOW REPLICAS, relative to IDBase
	I        []Inst  `json:"inst"`
}

// SnapBias gives weights to perturbations.
type SnapBias map[string]int

var snapAll = SnapBias{"down": 5, "cut": 2, "notready": 5, "empty": 5, "errant": 5, "foreign": 2, "ahead": 3, "behind": 2, "writable": 3, "half": 2, "readonly": 4,
	"nosrc": 4, "othersrc": 3, "io": 3, "sqloff": 2, "wait": 4, "hide": 4, "clone": 2, "delay": 3, "label": 2, "prevent": 2, "term": 2, "demote": 2, "purge": 2,
	"errlist": 4, "extra": 3, "offline": 1, "restore": 2, "cloned": 2, "maxdelay": 3, "nopod": 1, "ssm": 1, "sss": 1}

// healthySnap is a healthy cluster.
func healthySnap(n, primary int, source bool) Snap {
	s := Snap{N: n, Ver: "8.0.36", Primary: primary, IDBase: 100, Source: source, Cloned: source}
	w := primary
	if source {
		w = 9
	}
	for i := 0; i < n; i++ {
		z := int64(0)
		in := Inst{Ready: true, Exec: []Iv{{w, 1, 10}}, Src: primary, IO: "Yes", SQL: true, RO: true, SRO: true, SSS: !source, Label: "replica", Delay: &z, SSWait: 1}
		if i == primary {
			in.Label = "primary"
			in.Delay = nil
			in.SSS = false
			if source {
				in.Src = 9
			} else {
				in.Src, in.IO, in.SQL, in.RO, in.SRO = -1, "", false, false, false
				if n > 1 {
					in.SSM, in.SSWait = true, n/2
				}
			}
		} else {
			in.Retr = []Iv{{w, 1, 10}}
		}
		s.I = append(s.I, in)
	}
	return s
}

func genSnap(t *rapid.T, bias SnapBias, sizes []int, minPert, maxPert int) Snap {
	n := rapid.SampledFrom(sizes).Draw(t, "n")
	prim := rapid.IntRange(0, n-1).Draw(t, "primary")
	source := rapid.IntRange(0, 5).Draw(t, "source") == 0
	s := healthySnap(n, prim, source)
	s.Ver = rapid.SampledFrom([]string{"8.0.36", "8.4.3"}).Draw(t, "ver")
	s.IDBase = rapid.SampledFrom([]int32{1, 100, 2000}).Draw(t, "idbase")
	cnt := rapid.IntRange(minPert, maxPert).Draw(t, "perturbations")
	w := Weights(bias)
	for k := 0; k < cnt; k++ {
		perturb(t, &s, pick(t, w))
	}
	return s
}

func perturb(t *rapid.T, s *Snap, kind string) {
	i := rapid.IntRange(0, s.N-1).Draw(t, "i")
	if rapid.IntRange(0, 3).Draw(t, "onprimary") == 0 {
		i = s.Primary
	}
	in := &s.I[i]
	var rep *Inst // a replica
	ri := i
	if i == s.Primary {
		ri = (i + 1) % s.N
	}
	rep = &s.I[ri]
	switch kind {
	case "down":
		in.Net = "down"
	case "cut":
		in.Net = "cut"
	case "notready":
		in.Ready = false
	case "empty":
		in.Exec, in.Retr = nil, nil
	case "errant":
		rep.Exec = append(rep.Exec, Iv{ri, 1, rapid.Int64Range(1, 3).Draw(t, "n")})
	case "foreign":
		in.Exec = append(in.Exec, Iv{8, 1, rapid.Int64Range(1, 3).Draw(t, "n")})
	case "ahead": // the replica is ahead of what the primary shows
		in.Exec = append(in.Exec, Iv{s.Primary, 11, rapid.Int64Range(11, 13).Draw(t, "n")})
	case "behind":
		if len(rep.Exec) > 0 && rep.Exec[0].A == 1 {
			rep.Exec[0].B = rapid.Int64Range(1, 9).Draw(t, "n")
		}
	case "retr":
		rep.Retr = []Iv{{s.Primary, 1, rapid.Int64Range(5, 15).Draw(t, "n")}}
	case "writable":
		in.RO, in.SRO = false, false
	case "half":
		in.RO, in.SRO = true, false
	case "readonly":
		in.RO, in.SRO = true, true
	case "nosrc":
		in.Src, in.IO, in.SQL, in.Delay, in.Retr = -1, "", false, nil, nil
	case "othersrc":
		in.Src = rapid.SampledFrom([]int{(i + 1) % s.N, (i + 2) % s.N, 8, 9}).Draw(t, "src")
		if in.Src == i {
			in.Src = 8
		}
		if in.IO == "" {
			in.IO = "Yes"
		}
	case "io":
		if in.Src >= 0 {
			in.IO = rapid.SampledFrom([]string{"No", "Connecting"}).Draw(t, "io")
		}
	case "sqloff":
		in.SQL = false
	case "wait":
		in.Wait = rapid.IntRange(1, 3).Draw(t, "n")
	case "hide":
		rep.Hide = true
	case "clone":
		s.I[s.Primary].Clone = rapid.SampledFrom([]string{"Not Started", "In Progress", "Completed", "Failed"}).Draw(t, "clone")
	case "delay":
		if in.Src >= 0 {
			d := rapid.SampledFrom([]int64{0, 1, 9, 10, 11, 60, 100000}).Draw(t, "delay")
			in.Delay = &d
		}
	case "nulldelay":
		in.Delay = nil
	case "label":
		in.Label = rapid.SampledFrom([]string{"", "primary", "replica"}).Draw(t, "label")
	case "prevent":
		in.Prevent = rapid.SampledFrom([]string{"true", "false"}).Draw(t, "prevent")
	case "term":
		in.Term = true
	case "demote":
		in.Demote = rapid.SampledFrom([]string{"true", "true", "false"}).Draw(t, "demote")
	case "purge":
		p := &s.I[s.Primary]
		if len(p.Exec) > 0 {
			e := p.Exec[0]
			e.B = min(e.B, rapid.Int64Range(1, 10).Draw(t, "n"))
			p.Purged = []Iv{e}
		}
	case "errlist":
		if ri != s.Primary {
			for _, e := range s.Errants {
				if e == ri {
					return
				}
			}
			s.Errants = append(s.Errants, ri)
			sort.Ints(s.Errants)
		}
	case "extra":
		s.Extra = append(s.Extra, rapid.SampledFrom([]int32{-1, 0, 1, int32(s.N) - 1, int32(s.N), 5000}).Draw(t, "id"))
	case "offline":
		s.Offline = true
	case "restore":
		s.Restore = true
		s.Restored = rapid.Bool().Draw(t, "restored")
	case "cloned":
		s.Source = true
		s.Cloned = rapid.Bool().Draw(t, "cloned")
		if rapid.Bool().Draw(t, "noClone") {
			s.I[s.Primary].Clone = ""
		}
	case "maxdelay":
		s.MaxDelay = rapid.SampledFrom([]int64{0, 1, 10, 60}).Draw(t, "maxDelay")
	case "nopod":
		in.NoPod = true
		in.Net = "down"
	case "ssm":
		in.SSM, in.SSWait = rapid.Bool().Draw(t, "ssm"), rapid.IntRange(1, 3).Draw(t, "w")
	case "sss":
		in.SSS = rapid.Bool().Draw(t, "sss")
	}
}

// setOf makes a GTID set.
func setOf(w *world.World, ivs []Iv) gtid.Set {
	s := gtid.New()
	for _, v := range ivs {
		s.AddIv(uuidOf(w, v.U), gtid.Iv{v.A, v.B})
	}
	return s
}

const foreignUUID = "ffffffff-1111-11ee-8000-00000000ffff"

func uuidOf(w *world.World, u int) string {
	switch {
	case u == 9 && w.Source != nil:
		return w.Source.UUID
	case u >= 8:
		return foreignUUID[:len(foreignUUID)-1] + fmt.Sprint(u)
	}
	return w.S[u].UUID
}

// Build creates the world in that state.
func (s Snap) Build(interval time.Duration) *world.World {
	cfg := world.Config{N: s.N, Interval: interval, Ver: s.Ver, MaxDelayDel: s.MaxDelay, ServerIDBase: s.IDBase, WithSource: s.Source, Offline: s.Offline}
	for i, in := range s.I {
		if in.NoPod {
			cfg.NoPods = append(cfg.NoPods, i)
		}
	}
	w := world.New(cfg)
	w.FreezeReady = true
	w.UpdateSpec(func(c *mocov1beta2.MySQLCluster) {
		if s.Restore {
			c.Spec.Restore = &mocov1beta2.RestoreSpec{SourceName: "a", SourceNamespace: "b"}
		}
	})
	w.UpdateStatus(func(c *mocov1beta2.MySQLCluster) {
		c.Status.CurrentPrimaryIndex = s.Primary
		c.Status.ErrantReplicaList = s.Errants
		c.Status.ErrantReplicas = len(s.Errants)
		c.Status.Cloned = s.Cloned
		if s.Restored {
			now := metav1.Now()
			c.Status.RestoredTime = &now
		}
	})
	w.SetPrimary(s.Primary)
	w.Net.Mu.Lock()
	rows := map[string]int64{}
	row := func(id gtid.ID) int64 {
		k := id.String()
		if _, ok := rows[k]; !ok {
			rows[k] = int64(len(rows) + 1_000_000)
		}
		return rows[k]
	}
	for i, in := range s.I {
		x := w.S[i]
		x.Executed = setOf(w, in.Exec)
		x.Purged = setOf(w, in.Purged)
		x.Retrieved = setOf(w, in.Retr)
		old := time.Now().Add(-time.Hour)
		for _, id := range ids(x.Executed) {
			x.Rows[row(id)] = true
			if !x.Purged.Has(id) {
				x.Binlog = append(x.Binlog, mysim.Txn{ID: id, Row: row(id), At: old})
			}
		}
		for _, id := range ids(x.Retrieved) {
			if !x.Executed.Has(id) {
				x.Relay = append(x.Relay, mysim.Txn{ID: id, Row: row(id), At: old})
			}
		}
		x.ReadOnly, x.SuperRO = in.RO, in.SRO
		x.SSMaster, x.SSSlave, x.SSWait, x.SSTimeout = in.SSM, in.SSS, in.SSWait, 86400000
		x.Clone = in.Clone
		if in.Wait > 0 {
			k := in.Wait
			x.OverrideWaitSessions = &k
		}
		if in.Src >= 0 {
			x.Src = &mysim.Source{Host: srcHost(w, in.Src), Port: 3306, User: "moco-repl", Password: world.Pw.Replicator(), Auto: true}
			if in.Src == 9 && w.Source != nil {
				x.Src.User, x.Src.Password = "donor", "donorpw"
			}
			x.SetIO(in.IO)
			x.SQLRun = in.SQL
			if in.Delay != nil {
				d := *in.Delay
				x.OverrideDelay = &d
			} else {
				x.OverrideDelayNull = true
			}
		}
		if in.Net == "down" {
			x.Crash()
		}
		if in.Net == "cut" {
			w.Net.CtrlCut[x.Name] = true
		}
	}
	p := w.S[s.Primary]
	for i, in := range s.I {
		if in.Hide {
			if p.HideReplicas == nil {
				p.HideReplicas = map[int32]bool{}
			}
			p.HideReplicas[w.S[i].ServerID] = true
		}
	}
	for _, e := range s.Extra {
		p.ExtraReplicas = append(p.ExtraReplicas, s.IDBase+e)
	}
	w.Net.Mu.Unlock()
	for i, in := range s.I {
		if in.NoPod {
			continue
		}
		w.EditPod(i, func(p *corev1.Pod) {
			if in.Label != "" {
				p.Labels["moco.cybozu.com/role"] = in.Label
			}
			p.Annotations = map[string]string{}
			if in.Demote != "" {
				p.Annotations[world.AnnDemote] = in.Demote
			}
			if in.Prevent != "" {
				p.Annotations[world.AnnPrevent] = in.Prevent
			}
		})
		w.SetReady(i, in.Ready)
		if in.Term {
			w.MarkDeleted(i)
		}
	}
	w.Net.Trace = nil
	return w
}

func ids(s gtid.Set) []gtid.ID {
	var us []string
	for u := range s {
		us = append(us, u)
	}
	sort.Strings(us)
	var r []gtid.ID
	for _, u := range us {
		for _, iv := range s[u] {
			for n := iv.A; n <= iv.B; n++ {
				r = append(r, gtid.ID{UUID: u, N: n})
			}
		}
	}
	return r
}

func srcHost(w *world.World, i int) string {
	switch {
	case i == 9:
		return "source.example.com"
	case i >= 8:
		return "other.example.com"
	}
	return w.Host(i)
}

// ---- reference ----

// Ref is what docs/clustering.md says about a snapshot.
type Ref struct {
	Missing    bool // some pod is missing: nothing is judged
	State      string
	Errants    []int
	Candidates []int
	OK         []int // replicas that count for a failover
	Ready      int
	Prevent    bool
	Answers    []bool
	LostData   bool
	Cloning    bool
}

// ivsOf is the inverse of setOf.
func ivsOf(w *world.World, set gtid.Set) (out []Iv) {
	for u := 0; u < 10; u++ {
		if u < 8 && u >= len(w.S) {
			continue
		}
		for _, x := range set[uuidOf(w, u)] {
			out = append(out, Iv{U: u, A: x.A, B: x.B})
		}
	}
	return out
}

// settled is the snapshot after replication went as far as it can.
func (s Snap) settled() Snap {
	m := s
	m.I = append([]Inst(nil), s.I...)
	for range 2 * s.N {
		for i := range m.I {
			in := &m.I[i]
			if in.Net == "down" || in.NoPod || in.Src < 0 || !in.SQL {
				continue
			}
			in.Exec = addIvs(in.Exec, in.Retr...)
			switch {
			case in.IO != "Yes" && in.IO != "Connecting":
			case in.Src == 9 && s.Source:
				in.Exec = addIvs(in.Exec, Iv{U: 9, A: 1, B: 10})
			case in.Src < s.N && m.I[in.Src].Net != "down" && !m.I[in.Src].NoPod:
				in.Exec = addIvs(in.Exec, m.I[in.Src].Exec...)
			}
		}
	}
	return m
}

func addIvs(a []Iv, b ...Iv) []Iv {
	a = slices.Clone(a)
	for _, x := range b {
		if !slices.Contains(a, x) {
			a = append(a, x)
		}
	}
	return a
}

func set(n int, ivs []Iv) gtid.Set {
	s := gtid.New()
	for _, v := range ivs {
		s.AddIv(fmt.Sprintf("%08d-0000-0000-0000-000000000000", v.U), gtid.Iv{v.A, v.B})
	}
	return s
}

func uname(u int) string { return fmt.Sprintf("%08d-0000-0000-0000-000000000000", u) }

func (s Snap) ref() Ref {
	var r Ref
	r.Answers = make([]bool, s.N)
	for i, in := range s.I {
		if in.NoPod {
			r.Missing = true
		} else if in.Ready {
			r.Ready++
		}
		r.Answers[i] = in.Net == "" && !in.NoPod
	}
	pi := s.I[s.Primary]
	pans := r.Answers[s.Primary]
	pexec := set(s.N, pi.Exec)
	if !pans {
		pexec = gtid.New()
	}
	errant := map[int]bool{}
	if !pexec.Empty() {
		for i, in := range s.I {
			if i == s.Primary || !r.Answers[i] {
				continue
			}
			diff := set(s.N, in.Exec).Minus(pexec)
			for u := range diff {
				if u != uname(s.Primary) && !diff.Only(u).Empty() {
					errant[i] = true
				}
			}
		}
		// an errant instance that does not answer is neither re-initialised nor known to be fine again
		for _, e := range s.Errants {
			if e != s.Primary && !r.Answers[e] {
				errant[e] = true
			}
		}
	} else {
		for _, e := range s.Errants {
			errant[e] = true
		}
	}
	for i := 0; i < s.N; i++ {
		if errant[i] {
			r.Errants = append(r.Errants, i)
		}
	}
	// delay
	for i, in := range s.I {
		if i != s.Primary && r.Answers[i] && in.Src >= 0 && in.Delay != nil && *in.Delay > s.MaxDelay && s.MaxDelay > 0 {
			r.Prevent = true
		}
	}
	// alive: answers and does not hang
	alive := append([]bool(nil), r.Answers...)
	for i, in := range s.I {
		if i != s.Primary && in.Wait > 0 {
			alive[i] = false
		}
	}
	if pexec.Empty() {
		for i, in := range s.I {
			if i != s.Primary && alive[i] && len(in.Exec) > 0 {
				r.LostData = true
			}
		}
	}
	primaryGood := pans && (s.Source && pi.SRO || !s.Source && !pi.RO)
	connected := func(i int) bool { // according to the replica
		in := s.I[i]
		return alive[i] && in.Src == s.Primary && in.SRO && !errant[i]
	}
	seen := 0
	if pans {
		for i, in := range s.I {
			if i != s.Primary && in.Net != "down" && !in.NoPod && in.Src == s.Primary && in.IO == "Yes" && !in.Hide {
				seen++
			}
		}
		for _, e := range s.Extra {
			if e >= 0 && e < int32(s.N) {
				seen++
			}
		}
	}
	for i, in := range s.I {
		if i != s.Primary && alive[i] && in.Src >= 0 && !errant[i] && len(in.Exec) > 0 {
			r.OK = append(r.OK, i)
		}
	}
	good, goodReady := 0, 0
	for i := range s.I {
		if i != s.Primary && connected(i) {
			good++
			if s.I[i].Ready {
				goodReady++
				r.Candidates = append(r.Candidates, i)
			}
		}
	}
	cloning := false
	if s.Source && !s.Cloned {
		switch {
		case !pans:
			cloning = true
		case pi.Clone != "":
			cloning = pi.Clone != "Completed"
		default:
			cloning = len(pi.Exec) == 0
		}
	}
	r.Cloning = cloning
	switch {
	case s.Offline:
		r.State = "Offline"
	case cloning:
		r.State = "Cloning"
	case s.Restore && !s.Restored:
		r.State = "Restoring"
	case r.Ready == s.N && good == s.N-1 && seen == s.N-1 && primaryGood:
		r.State = "Healthy"
	case pi.Ready && !r.LostData && primaryGood && seen >= s.N/2 && goodReady >= s.N/2 && goodReady != s.N-1:
		r.State = "Degraded"
	case (!pans || r.LostData) && len(r.OK) > s.N/2:
		r.State = "Failed"
	case !pans || r.LostData:
		r.State = "Lost"
	default:
		r.State = "Incomplete"
	}
	return r
}
