package bk

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"testing"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"pgregory.net/rapid"

	"verif/internal/gtid"
	"verif/internal/vt"
)

// Obj is an object in the bucket. Dump and binary log objects carry a number that shows up in the restored data.
type Obj struct {
	Owner string `json:"owner"` // own, or the pattern of a foreign cluster
	At    int    `json:"at"`    // seconds after the base time
	Kind  string `json:"kind"`
}

// FindPlan is a bucket and a restore point.
type FindPlan struct {
	NS    string `json:"ns"`
	Name  string `json:"name"`
	Base  int64  `json:"base"`
	Objs  []Obj  `json:"objs"`
	Point int    `json:"point"`
}

var foreign = []string{"other/NAME", "NS/NAME-2", "NS/xNAME", "NS-2/NAME", "NAME/NSx"}

var offsets = []int{0, 1, 59, 60, 3599, 3600, 86399, 86400, 31 * 86400, 366 * 86400}

func genFind(t *rapid.T) FindPlan {
	p := FindPlan{NS: []string{"default", "a", "prod-1"}[vt.Uni(t, "ns", 3)], Name: []string{"test", "a", "20240101"}[vt.Uni(t, "name", 3)],
		Base: []int64{time.Date(2023, 12, 31, 23, 59, 0, 0, time.UTC).Unix(), time.Date(2024, 2, 28, 10, 0, 0, 0, time.UTC).Unix(), time.Date(1999, 12, 31, 12, 0, 0, 0, time.UTC).Unix()}[vt.Uni(t, "base", 3)]}
	at := func() int { return offsets[vt.Uni(t, "at", len(offsets))] + vt.Uni(t, "jit", 2) }
	n := rapid.IntRange(0, 7).Draw(t, "n")
	for i := 0; i < n; i++ {
		a := at()
		switch vt.Uni(t, "what", 4) {
		case 0, 1:
			p.Objs = append(p.Objs, Obj{"own", a, "dump"}, Obj{"own", a, "binlog"})
		case 2:
			p.Objs = append(p.Objs, Obj{"own", a, "dump"})
		case 3:
			p.Objs = append(p.Objs, Obj{"own", a, "binlog"})
		}
	}
	m := rapid.IntRange(0, 5).Draw(t, "m")
	kinds := []string{"dump", "binlog", "xdump", "xbinlog", "dump.bak", "readme", "badtime", "nodir", "marker", "badmonth"}
	for i := 0; i < m; i++ {
		o := Obj{Owner: "own", At: at(), Kind: kinds[vt.Uni(t, "kind", len(kinds))]}
		if i%2 == 0 || o.Kind == "dump" || o.Kind == "binlog" {
			o.Owner = foreign[vt.Uni(t, "owner", len(foreign))]
		}
		p.Objs = append(p.Objs, o)
	}
	p.Point = at()
	if len(p.Objs) > 0 && vt.Uni(t, "near", 3) > 0 {
		p.Point = p.Objs[vt.Uni(t, "which", len(p.Objs))].At + []int{0, 1, -1, 30, 3600}[vt.Uni(t, "delta", 5)]
	}
	return p
}

func mktar(files map[string][]byte) []byte {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		must(tw.WriteHeader(&tar.Header{Name: n, Mode: 0o644, Size: int64(len(files[n])), Typeflag: tar.TypeReg}))
		_, err := tw.Write(files[n])
		must(err)
	}
	must(tw.Close())
	return b.Bytes()
}

func zstd(b []byte) []byte {
	cmd := exec.Command("/usr/bin/zstd", "-q", "-c", "-1")
	cmd.Stdin = bytes.NewReader(b)
	out, err := cmd.Output()
	must(err)
	return out
}

func (p FindPlan) key(o Obj) string {
	dir := p.NS + "/" + p.Name
	if o.Owner != "own" {
		dir = strings.NewReplacer("NS", p.NS, "NAME", p.Name).Replace(o.Owner)
	}
	ts := time.Unix(p.Base+int64(o.At), 0).UTC()
	d := "moco/" + dir + "/" + ts.Format("20060102-150405") + "/"
	switch o.Kind {
	case "dump":
		return d + "dump.tar"
	case "binlog":
		return d + "binlog.tar.zst"
	case "xdump":
		return d + "old-dump.tar"
	case "xbinlog":
		return d + "copy.binlog.tar.zst"
	case "dump.bak":
		return d + "dump.tar.bak"
	case "readme":
		return "moco/" + dir + "/README.md"
	case "badtime":
		return "moco/" + dir + "/" + ts.Format("2006-01-02T15:04:05Z") + "/dump.tar"
	case "badmonth":
		return "moco/" + dir + "/" + ts.Format("2006") + "1301-000000/dump.tar"
	case "nodir":
		return "moco/" + dir + "/dump.tar"
	}
	return d
}

func runFind(t *testing.T, p FindPlan) (c vt.Case, err error) {
	cls := map[string]bool{}
	err = vt.Bubble(t, func() error {
		w := NewW(p.NS, p.Name, 0, "8.4.2", false)
		current.Store(w)
		defer w.Net.Close()
		dumps, bins := map[int64]int{}, map[int64]int{}
		junk := 0
		for i, o := range p.Objs {
			n := i + 1
			k := p.key(o)
			if _, ok := w.Objects[k]; ok {
				continue
			}
			at := p.Base + int64(o.At)
			g := fmt.Sprintf("00000000-0000-0000-0000-%012d:1-%d", 1, n)
			switch {
			case strings.HasSuffix(k, "dump.tar") || o.Kind == "dump.bak":
				data, _ := json.Marshal(dumpData{Schemas: map[string][]int{"dump": {n}}})
				w.Objects[k] = mktar(map[string][]byte{"dump/@.json": []byte(`{"gtidExecuted":"` + g + `"}`), "dump/@.done.json": []byte("{}"), "dump/data.json": data})
			case strings.HasSuffix(k, "binlog.tar.zst"):
				tx, _ := json.Marshal(Tx{Seq: n, ID: gtid.ID{UUID: "00000000-0000-0000-0000-000000000002", N: int64(n)}, TS: at, Schema: "binlog"})
				w.Objects[k] = zstd(mktar(map[string][]byte{"binlog/binlog.000001": []byte("\xfebin\n" + string(tx) + "\n")}))
			default:
				w.Objects[k] = []byte("x")
			}
			if o.Owner == "own" && o.Kind == "dump" {
				dumps[at] = n
			} else if o.Owner == "own" && o.Kind == "binlog" {
				bins[at] = n
			} else {
				junk++
			}
		}
		point := p.Base + int64(p.Point)
		var best int64 = -1
		later := false
		for at := range dumps {
			if at <= point && at > best {
				best = at
			}
			later = later || at > point
		}
		orphan := false
		for at := range bins {
			orphan = orphan || dumps[at] == 0
		}
		x := w.newInst("dst", "target", 0, false)
		x.S.IP = "10.0.7.1"
		x.Rotate()
		w.Targets["target"] = x
		tc := &mocov1beta2.MySQLCluster{ObjectMeta: metav1.ObjectMeta{Namespace: "dst", Name: "target"}}
		tc.Spec.Replicas = 3
		w.API.Put("mysqlclusters", tc)
		w.PutPod("dst", "target", 0, x.S.IP, nil, false)
		var names []string
		for k := range w.Objects {
			names = append(names, k)
		}
		sort.Strings(names)
		desc := fmt.Sprintf("restoring %s/%s to %s from %q", p.NS, p.Name, time.Unix(point, 0).UTC().Format("20060102-150405"), names)
		e := w.Restore("dst", "target", time.Unix(point, 0).UTC(), "", "", 1)
		if len(w.Stray) > 0 {
			return fmt.Errorf("%w: %s", vt.ErrInconclusive, w.Stray[0])
		}
		if best < 0 {
			cls["none"] = true
			if e == nil || len(x.State) > 0 || w.Cluster("dst", "target").Status.RestoredTime != nil {
				return fmt.Errorf("%s: no backup qualifies, but the result is %v, data %v", desc, e, x.State)
			}
			return nil
		}
		if e != nil {
			return fmt.Errorf("%s: %w", desc, e)
		}
		name := func(n int) string {
			if n == 0 {
				return "none"
			}
			return p.key(p.Objs[n-1])
		}
		if got := x.State["dump"]; len(got) != 1 || got[0] != dumps[best] {
			return fmt.Errorf("%s: loaded dump %s, want %s", desc, name(first(got)), name(dumps[best]))
		}
		want := bins[best]
		if best == point {
			want = 0
		}
		if got := x.State["binlog"]; len(got) > 1 || first(got) != want {
			return fmt.Errorf("%s: applied binary log %s, want %s", desc, name(first(got)), name(want))
		}
		cls["restored"] = true
		if want != 0 {
			cls["with-binlog"] = true
		}
		if best == point {
			cls["exact"] = true
		}
		if later {
			cls["later-dump"] = true
		}
		if orphan {
			cls["binlog-without-dump"] = true
		}
		if junk > 0 {
			cls["foreign-or-garbage"] = true
		}
		c.Nontrivial = len(dumps) > 1 || orphan || junk > 0
		return nil
	})
	for k := range cls {
		c.Classes = append(c.Classes, k)
	}
	sort.Strings(c.Classes)
	return c, err
}

func first(l []int) int {
	if len(l) == 0 {
		return 0
	}
	return l[0]
}

func TestB03(t *testing.T) { vt.Run(t, "B03", genFind, runFind) }
