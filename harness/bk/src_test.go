package bk

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"pgregory.net/rapid"

	"verif/internal/gtid"
	"verif/internal/vt"
)

// SrcInst is an instance at the time of a backup.
type SrcInst struct {
	Ready string `json:"ready"` // true, false, unknown, none, stale (ready but the instance is down)
	ID    string `json:"id"`    // same, changed, unrecorded
	Purge int    `json:"purge,omitempty"`
	Num   int    `json:"num"`
}

// SrcPlan is a state in which a backup starts.
type SrcPlan struct {
	Insts    []SrcInst `json:"insts"`
	Primary  int       `json:"primary"`
	Offline  bool      `json:"offline,omitempty"`
	PodDelta int       `json:"podDelta,omitempty"` // pods missing or left over
	Recorded bool      `json:"recorded"`
	Last     int       `json:"last"`
	NoSet    bool      `json:"noSet,omitempty"`
	Before   int       `json:"before"` // transactions before the last backup
	After    int       `json:"after"`  // and after it
	Rot      []int     `json:"rot"`    // after which transactions the files rotate
	Decoys   bool      `json:"decoys,omitempty"`
	Name     string    `json:"name"`
	Ver      string    `json:"ver"`
	Extra    bool      `json:"extra,omitempty"` // records of instances that do not exist
	Threads  int       `json:"threads"`
}

func genSrc(t *rapid.T) SrcPlan {
	n := []int{3, 1, 3, 5, 3}[vt.Uni(t, "n", 5)]
	p := SrcPlan{Primary: vt.Uni(t, "primary", n), Recorded: vt.Uni(t, "recorded", 4) > 0, Last: vt.Uni(t, "last", n), NoSet: vt.Uni(t, "noset", 4) == 3,
		Before: vt.Uni(t, "before", 4), After: vt.Uni(t, "after", 5), Decoys: vt.Uni(t, "decoys", 3) == 2, Name: []string{"test", "a", "a-1", "x-3"}[vt.Uni(t, "name", 4)],
		Ver: []string{"8.4.2", "8.0.36"}[vt.Uni(t, "ver", 2)], Extra: vt.Uni(t, "extra", 4) == 3, Threads: 1 + vt.Uni(t, "threads", 4)}
	switch vt.Uni(t, "bad", 12) {
	case 10:
		p.Offline = true
	case 11:
		p.PodDelta = []int{-1, 1, 2}[vt.Uni(t, "delta", 3)]
	}
	for i := 0; i < n; i++ {
		in := SrcInst{Ready: []string{"true", "true", "true", "true", "false", "false", "unknown", "none", "stale"}[vt.Uni(t, "ready", 9)],
			ID: []string{"same", "same", "same", "changed", "unrecorded"}[vt.Uni(t, "id", 5)], Num: []int{0, 7, 97, 999997}[vt.Uni(t, "num", 4)]}
		if vt.Uni(t, "purges", 4) == 3 {
			in.Purge = 1 + vt.Uni(t, "purge", 3)
		}
		p.Insts = append(p.Insts, in)
	}
	for i := vt.Uni(t, "rots", 5); i > 0; i-- {
		p.Rot = append(p.Rot, vt.Uni(t, "rot", 8))
	}
	return p
}

func runSrc(t *testing.T, p SrcPlan) (c vt.Case, err error) {
	cls := map[string]bool{}
	err = vt.Bubble(t, func() error {
		n := len(p.Insts)
		w := NewW("src-ns", p.Name, n, p.Ver, false)
		current.Store(w)
		defer w.Net.Close()
		w.Primary = p.Primary
		for i, x := range w.Insts {
			x.num = p.Insts[i].Num
			x.Rotate()
			x.S.SuperRO, x.S.ReadOnly = i != p.Primary, i != p.Primary
			x.Users["alice@%"] = true
		}
		cl := &mocov1beta2.MySQLCluster{ObjectMeta: metav1.ObjectMeta{Namespace: w.NS, Name: p.Name}}
		cl.Spec.Replicas = int32(n)
		cl.Spec.Offline = p.Offline
		cl.Status.CurrentPrimaryIndex = p.Primary
		rot := map[int]bool{}
		for _, k := range p.Rot {
			rot[k] = true
		}
		commit := func(k int) {
			w.Commit(schemas[k%len(schemas)], 1, time.Now().Unix()+int64(k))
			if rot[k] {
				for _, x := range w.Insts {
					x.Rotate()
				}
			}
		}
		for k := 0; k < p.Before; k++ {
			commit(k)
		}
		lb := &cl.Status.Backup
		lastAt := time.Now().Add(-time.Hour).Truncate(time.Second)
		if p.Recorded {
			x := w.Insts[p.Last]
			lb.Time = metav1.NewTime(lastAt)
			lb.SourceIndex, lb.SourceUUID = p.Last, x.S.UUID
			lb.GTIDSet = x.S.Executed.String()
			lb.BinlogFilename = x.Files[len(x.Files)-1].Name
			if !p.NoSet {
				lb.UUIDSet = map[string]string{}
				for i, y := range w.Insts {
					if p.Insts[i].ID != "unrecorded" || i == p.Last {
						lb.UUIDSet[itoa(i)] = y.S.UUID
					}
				}
				if p.Extra {
					lb.UUIDSet["7"] = w.Insts[0].S.UUID
				}
			}
			lb.DumpSize, lb.BinlogSize = 12345, 678
			lb.Warnings = []string{"from the last backup"}
		}
		for k := 0; k < p.After; k++ {
			commit(p.Before + k)
		}
		before := lb.DeepCopy()
		set, _ := gtid.Parse(lb.GTIDSet)
		for i, x := range w.Insts {
			for k := p.Insts[i].Purge; k > 0 && len(x.Files) > 1; k-- {
				for _, tx := range x.Files[0].Tx {
					x.Purged = tx.Seq
					x.S.Purged.Add(tx.ID)
				}
				x.Files = x.Files[1:]
			}
			x.sync()
			if p.Insts[i].ID == "changed" {
				x.S.UUID = w.Net.NewUUID()
			}
		}
		w.API.Put("mysqlclusters", cl)
		count := n + p.PodDelta
		for i := 0; i < count; i++ {
			st := "false"
			ip := fmt.Sprintf("10.0.5.%d", i)
			if i < n {
				st, ip = p.Insts[i].Ready, w.Insts[i].S.IP
			}
			var rd *bool
			tr, fa := true, false
			switch st {
			case "true", "stale":
				rd = &tr
			case "false", "unknown":
				rd = &fa
			}
			w.PutPod(w.NS, p.Name, i, ip, rd, i%2 == 1)
			if st == "unknown" {
				pod := &corev1.Pod{}
				w.API.Get("pods", w.NS, fmt.Sprintf("moco-%s-%d", p.Name, i), pod)
				for k := range pod.Status.Conditions {
					if pod.Status.Conditions[k].Type == corev1.PodReady {
						pod.Status.Conditions[k].Status = corev1.ConditionUnknown
					}
				}
				w.API.Put("pods", pod)
			}
			if st == "stale" && i < n {
				w.Insts[i].S.Crash()
			}
		}
		if p.Decoys {
			tr := true
			w.PutPod(w.NS, p.Name+"-2", 0, "10.0.9.1", &tr, false)
			w.PutPod("other", p.Name, 0, "10.0.9.2", &tr, false)
			pod := &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: w.NS, Name: "moco-backup-" + p.Name + "-1", Labels: map[string]string{"app.kubernetes.io/name": "mysql-backup", "app.kubernetes.io/instance": p.Name, "app.kubernetes.io/created-by": "moco"}}}
			w.API.Put("pods", pod)
		}

		var readyRep, cand []int
		readyPrim, stale := false, false
		usable := map[string]string{}
		for i, in := range p.Insts {
			rec := ""
			if p.Recorded {
				rec = lb.UUIDSet[itoa(i)]
				if p.NoSet && i == p.Last {
					rec = lb.SourceUUID
				}
			}
			switch in.Ready {
			case "true":
				usable[itoa(i)] = w.Insts[i].S.UUID
				if i == p.Primary {
					readyPrim = true
				} else {
					readyRep = append(readyRep, i)
				}
				if rec == w.Insts[i].S.UUID {
					cand = append(cand, i)
				}
			case "stale":
				stale = true
			}
		}
		at := time.Now()
		e := w.Backup(p.Threads)
		if len(w.Stray) > 0 {
			return fmt.Errorf("%w: %s", vt.ErrInconclusive, w.Stray[0])
		}
		after := w.Cluster(w.NS, p.Name).Status.Backup
		for _, d := range w.Dumps {
			i := d.Inst.S.Index
			if !has([]string{"true"}, p.Insts[i].Ready) {
				return fmt.Errorf("dumped instance %d, whose pod is not ready (%s)", i, p.Insts[i].Ready)
			}
		}
		impossible := p.Offline || p.PodDelta != 0 || len(readyRep) == 0 && !readyPrim
		if e != nil {
			if !reflect.DeepEqual(&after, before) {
				return fmt.Errorf("a failed backup (%v) changed the record from %+v to %+v", e, before, after)
			}
			if impossible {
				cls["impossible"] = true
				return nil
			}
			if stale {
				// a pod that looks ready was tried
				cls["stale"] = true
				return nil
			}
			return fmt.Errorf("backup failed with ready replicas %v, ready primary %v: %v", readyRep, readyPrim, e)
		}
		if impossible {
			return fmt.Errorf("backup succeeded (source %d) although the cluster is offline (%v), has %d of %d pods, or no pod is ready", after.SourceIndex, p.Offline, count, n)
		}
		if len(w.Dumps) != 1 {
			return fmt.Errorf("%d dumps were taken", len(w.Dumps))
		}
		d := w.Dumps[0]
		src := d.Inst.S.Index
		isRep := src != p.Primary
		hasInt := func(l []int, k int) bool {
			for _, v := range l {
				if v == k {
					return true
				}
			}
			return false
		}
		state := fmt.Sprintf("(ready replicas %v, ready primary %v, primary %d, last %d, unchanged %v)", readyRep, readyPrim, p.Primary, p.Last, cand)
		wantBin := false
		switch {
		case !p.Recorded || len(cand) == 0:
			if !isRep && len(readyRep) > 0 {
				return fmt.Errorf("the primary was chosen although a replica is ready %s", state)
			}
		default:
			wantBin = true
			var cr []int
			for _, i := range cand {
				if i != p.Primary {
					cr = append(cr, i)
				}
			}
			switch {
			case hasInt(cr, p.Last):
				if src != p.Last {
					return fmt.Errorf("instance %d was chosen instead of the last source %s", src, state)
				}
				cls["last-source"] = true
			case len(cr) > 0:
				if !hasInt(cr, src) {
					return fmt.Errorf("instance %d was chosen, not one of %v %s", src, cr, state)
				}
				cls["other-replica"] = true
			default:
				if src != p.Primary {
					return fmt.Errorf("instance %d was chosen, only the primary keeps the binary log chain %s", src, state)
				}
				cls["primary"] = true
			}
		}
		if after.SourceIndex != src || after.SourceUUID != d.Inst.S.UUID || after.GTIDSet != d.GTID {
			return fmt.Errorf("recorded source %d %s %s, dump taken from %d %s %s", after.SourceIndex, after.SourceUUID, after.GTIDSet, src, d.Inst.S.UUID, d.GTID)
		}
		if !reflect.DeepEqual(after.UUIDSet, usable) {
			return fmt.Errorf("recorded identities %v, want %v", after.UUIDSet, usable)
		}
		if after.Time.Unix() < at.Unix() || after.BinlogFilename != d.Inst.Files[len(d.Inst.Files)-1].Name {
			return fmt.Errorf("recorded time %s (started %s), file %s", after.Time, at, after.BinlogFilename)
		}
		obj := w.Objects[key(w.NS, p.Name, after.Time.Time, "dump.tar")]
		if e := checkDump(obj, d); e != nil {
			return fmt.Errorf("stored dump: %w", e)
		}
		bk := key(w.NS, p.Name, lastAt, "binlog.tar.zst")
		bin, stored := w.Objects[bk]
		if !wantBin {
			if len(w.Bins) > 0 || stored || after.BinlogSize != 0 {
				return fmt.Errorf("a binary log was saved from instance %d, which does not continue the chain %s", src, state)
			}
			if p.Recorded && len(after.Warnings) == 0 {
				return fmt.Errorf("the binary log was skipped without a warning %s", state)
			}
			cls["no-chain"] = p.Recorded
			if !p.Recorded {
				cls["first"] = true
				if len(after.Warnings) > 0 {
					return fmt.Errorf("warnings after the first backup: %v", after.Warnings)
				}
			}
		} else {
			// what must be in the binary log
			var want []int
			missing := false
			for _, tx := range w.Hist[:d.Inst.Applied] {
				if set.Has(tx.ID) {
					continue
				}
				if tx.Seq <= d.Inst.Purged {
					missing = true
				}
				want = append(want, tx.Seq)
			}
			gone := src == p.Last
			for _, f := range d.Inst.Files {
				gone = gone && f.Name != before.BinlogFilename
			}
			switch {
			case missing || gone:
				cls["binlog-unavailable"] = true
				if len(after.Warnings) == 0 || stored {
					return fmt.Errorf("the binary log of instance %d lacks transactions (warnings %v, stored %v)", src, after.Warnings, stored)
				}
			default:
				cls["binlog"] = true
				if !stored || len(after.Warnings) > 0 {
					return fmt.Errorf("the binary log of instance %d is complete but not saved (%v): %v", src, stored, after.Warnings)
				}
				var txs []Tx
				for _, s := range want {
					txs = append(txs, w.Hist[s-1])
				}
				if e := checkBin(bin, BinRec{Tx: txs}); e != nil {
					return fmt.Errorf("stored binary log: %w", e)
				}
				if after.BinlogSize != int64(len(bin)) {
					return fmt.Errorf("recorded binary log size %d, stored %d", after.BinlogSize, len(bin))
				}
			}
		}
		if after.DumpSize != int64(len(obj)) {
			return fmt.Errorf("recorded dump size %d, stored %d", after.DumpSize, len(obj))
		}
		for k := range w.Objects {
			if k != bk && !strings.HasSuffix(k, "/dump.tar") || len(w.Objects) > 2 {
				return fmt.Errorf("unexpected object %s", k)
			}
		}
		// how much there was to choose from
		kinds := map[string]bool{}
		for i, in := range p.Insts {
			kinds[fmt.Sprint(in.Ready, in.ID, i == p.Primary, i == p.Last)] = true
		}
		c.Nontrivial = len(kinds) > 1
		return nil
	})
	for k, v := range cls {
		if v {
			c.Classes = append(c.Classes, k)
		}
	}
	sort.Strings(c.Classes)
	return c, err
}

func TestB02(t *testing.T) { vt.Run(t, "B02", genSrc, runSrc) }
