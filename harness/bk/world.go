// Package bk runs the backup and restore managers with simulated instances, stand-ins
// for the MySQL tools, an in-memory bucket and an in-process Kubernetes API.
package bk

import (
	"bufio"
	"bytes"
	"context"
	_ "embed"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/backup"
	"github.com/go-logr/logr"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/rest"
	ctrl "sigs.k8s.io/controller-runtime"

	"verif/internal/gtid"
	"verif/internal/kapi"
	"verif/internal/mysim"
	"verif/internal/wire"
)

//go:embed tool.go.txt
var toolSrc []byte

const (
	adminPW  = "admin-pw"
	backupPW = "backup-pw"
)

var (
	scratch string
	current atomic.Pointer[W]
)

// Setup builds the stand-in executables and starts answering them.
func Setup() func() {
	ctrl.SetLogger(logr.Discard())
	dir, err := os.MkdirTemp("", "bk")
	if err != nil {
		panic(err)
	}
	scratch = dir
	bin := filepath.Join(dir, "bin")
	src := filepath.Join(dir, "src")
	must(os.MkdirAll(bin, 0o755))
	must(os.MkdirAll(src, 0o755))
	must(os.WriteFile(filepath.Join(src, "main.go"), toolSrc, 0o644))
	cmd := exec.Command("go", "build", "-o", filepath.Join(bin, "tool"), "main.go")
	cmd.Dir = src
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GO111MODULE=off", "CGO_ENABLED=0")
	if out, err := cmd.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("building the tool: %v\n%s", err, out))
	}
	for _, n := range []string{"mysqlsh", "mysqlbinlog", "mysql", "tar", "zstd"} {
		must(os.Symlink("tool", filepath.Join(bin, n)))
	}
	sock := filepath.Join(dir, "s")
	if len(sock) > 100 {
		d, err := os.MkdirTemp("/tmp", "bk")
		must(err)
		sock = filepath.Join(d, "s")
	}
	l, err := net.Listen("unix", sock)
	must(err)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go serveTool(c)
		}
	}()
	os.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	os.Setenv("VERIF_TOOL_SOCK", sock)
	os.Setenv("TZ", "JST-9") // what the tools see unless told otherwise
	time.Local = time.FixedZone("JST", 9*3600)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && os.Getenv("VERIF_VERBOSE") == "" {
		os.Stderr = null
	}
	return func() {
		l.Close()
		os.RemoveAll(dir)
		if filepath.Dir(sock) != dir {
			os.RemoveAll(filepath.Dir(sock))
		}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ToolCall is one invocation of an external command.
type ToolCall struct {
	Name   string   `json:"name"`
	Args   []string `json:"args"`
	TZ     string   `json:"tz"`
	Run    string   `json:"run"`
	TmpDir string   `json:"tmpdir"`
	Home   string   `json:"home"`
	Cwd    string   `json:"cwd"`
	Stdin  []byte   `json:"stdin"`
}

type toolReply struct {
	Stdout []byte `json:"stdout"`
	Exit   int    `json:"exit"`
	Real   string `json:"real"`
	Limit  int    `json:"limit"`
}

func serveTool(c net.Conn) {
	defer c.Close()
	var n uint32
	r := bufio.NewReader(c)
	if binary.Read(r, binary.BigEndian, &n) != nil {
		return
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return
	}
	var tc ToolCall
	if json.Unmarshal(b, &tc) != nil {
		return
	}
	rep := toolReply{Exit: 96, Limit: -1}
	if w := current.Load(); w != nil && (tc.Run == "" || tc.Run == os.Getenv("VERIF_RUN")) { // otherwise a left-over of a failed run
		rep = w.tool(tc)
	}
	b, _ = json.Marshal(rep)
	_, _ = c.Write(b)
}

// Tx is a committed transaction.
type Tx struct {
	Seq    int
	ID     gtid.ID
	TS     int64 // seconds
	Schema string
}

// File is a binary log file.
type File struct {
	Name string
	Tx   []Tx
}

// Inst is one mysqld with its data.
type Inst struct {
	S       *mysim.Server
	Files   []*File
	State   map[string][]int // per schema: transactions in the order they were applied
	Users   map[string]bool
	Applied int // prefix of the history
	Lag     bool
	Purged  int // highest transaction that is executed but not in the binary log any more
	num     int
	Loads   int
	Pumped  int
}

func (i *Inst) sync() {
	i.S.BinlogFiles = nil
	for _, f := range i.Files {
		i.S.BinlogFiles = append(i.S.BinlogFiles, f.Name)
	}
}

// Rotate starts a new binary log file.
func (i *Inst) Rotate() {
	i.num++
	i.Files = append(i.Files, &File{Name: fmt.Sprintf("binlog.%06d", i.num)})
	i.sync()
}

func (i *Inst) apply(t Tx) {
	i.State[t.Schema] = append(i.State[t.Schema], t.Seq)
	f := i.Files[len(i.Files)-1]
	f.Tx = append(f.Tx, t)
	i.S.Executed.Add(t.ID)
	i.Applied = t.Seq
}

// Fault makes one external call fail.
type Fault struct {
	Site string `json:"site"` // api, sql, tool, put, get, list
	At   int    `json:"at"`   // 1-based number of the call of this kind
	Mode string `json:"mode"` // before, after, partial, drop, conflict
}

// Hit describes a call a fault was applied to.
type Hit struct {
	Site, What string
	Objs       int // objects in the bucket at that time
}

// W is the world.
type W struct {
	Mu      sync.Mutex
	API     *kapi.Server
	Net     *mysim.Net
	Insts   []*Inst
	Targets map[string]*Inst
	Hist    []Tx
	Primary int
	Objects map[string][]byte
	NS      string
	Name    string
	Ver     string
	now     time.Time
	// OnTool is called (Mu held) when a tool starts.
	OnTool func(tc ToolCall, inst *Inst, remote bool)
	// LateDump: the snapshot of the dump is taken at its end.
	AfterDump func()
	Dumps     []DumpRec
	Bins      []BinRec
	Loads     []string // log of what was loaded
	Gets      []string
	Stray     []string // protocol misuse noticed by the stand-ins
	F         *Fault
	Count     map[string]int
	HitF      *Hit
	Calls     []string
	OnChange  func(verb, res, ns, name string, old, new kapi.Obj)
	work      string
	Cmd       string // storage backend if the commands run in child processes
	NoStatus  int    // status queries on restore targets that fail
	Run       func(backend, password string, args ...string) error
}

// DumpRec is a dump taken by mysqlsh.
type DumpRec struct {
	Inst    *Inst
	Prefix  int
	GTID    string
	Files   map[string][]byte
	Stopped bool
}

// BinRec is a binary log dump.
type BinRec struct {
	Inst *Inst
	Gap  bool
	Upto int
	Tx   []Tx
	From string
}

// NewW makes a world with n instances of the source cluster.
func NewW(ns, name string, n int, ver string, v6 bool) *W {
	w := &W{API: kapi.New(), Net: mysim.New(), Objects: map[string][]byte{}, NS: ns, Name: name, Ver: ver, Targets: map[string]*Inst{}, Count: map[string]int{}}
	w.Net.NoTrace = true
	w.API.Hook = func(r kapi.Req) kapi.Verdict {
		w.tick()
		what := r.String()
		if r.Discovery {
			what = "discovery"
		}
		m, hit := w.fault("api", what)
		if !hit {
			return kapi.Verdict{}
		}
		switch m {
		case "after":
			return kapi.Verdict{After: 500}
		case "conflict":
			if r.Verb == "PUT" || r.Verb == "PATCH" {
				return kapi.Verdict{Before: 409}
			}
		case "drop":
			return kapi.Verdict{Drop: true}
		case "dropafter":
			return kapi.Verdict{Drop: true, After: 500}
		}
		return kapi.Verdict{Before: 500}
	}
	w.API.OnChange = func(verb, res, ns, name string, old, new kapi.Obj) {
		if w.OnChange != nil {
			w.OnChange(verb, res, ns, name, old, new)
		}
	}
	w.Net.Fault = func(c *mysim.Conn, stmt string) (error, error) {
		w.tick()
		if w.NoStatus > 0 && strings.Contains(strings.ToUpper(stmt), " STATUS") {
			w.NoStatus--
			return &wire.SQLError{Code: 1227, Msg: "Access denied"}, nil
		}
		m, hit := w.fault("sql", c.S.Name+": "+stmt)
		if !hit {
			return nil, nil
		}
		switch m {
		case "after":
			return nil, &wire.SQLError{Code: 1105, Msg: "injected"}
		case "drop":
			return wire.ErrDrop, nil
		case "dropafter":
			return nil, wire.ErrDrop
		}
		return &wire.SQLError{Code: 1227, Msg: "injected"}, nil
	}
	for i := 0; i < n; i++ {
		w.Insts = append(w.Insts, w.newInst(ns, name, i, v6))
	}
	return w
}

func (w *W) tick() {
	w.Mu.Lock()
	w.now = time.Now()
	w.Mu.Unlock()
}

func (w *W) fault(site, what string) (string, bool) {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	return w.faultLocked(site, what)
}

func (w *W) faultLocked(site, what string) (string, bool) {
	w.Count[site]++
	w.Calls = append(w.Calls, site+" "+what)
	if w.F != nil && w.F.Site == site && w.F.At == w.Count[site] {
		w.HitF = &Hit{site, what, len(w.Objects)}
		return w.F.Mode, true
	}
	return "", false
}

func (w *W) newInst(ns, name string, i int, v6 bool) *Inst {
	k := len(w.Net.List) + 1
	ip := fmt.Sprintf("10.0.%d.%d", len(w.Targets), i+1)
	if v6 {
		ip = fmt.Sprintf("fd00::%d:%d", len(w.Targets)+1, i+1)
	}
	s := w.Net.Add(&mysim.Server{Name: fmt.Sprintf("s%d", k), Index: i, Host: fmt.Sprintf("moco-%s-%d.moco-%s.%s.svc", name, i, name, ns), IP: ip, Ver: w.Ver, ServerID: int32(k),
		Users: map[string]string{"moco-admin": adminPW, "moco-backup": backupPW}})
	x := &Inst{S: s, State: map[string][]int{}, Users: map[string]bool{"moco-admin@%": true, "moco-agent@localhost": true, "moco-backup@%": true, "moco-readonly@%": true, "moco-writable@%": true,
		"moco-repl@%": true, "moco-clone-donor@%": true, "moco-exporter@localhost": true}}
	return x
}

// Commit writes n transactions at second ts on the primary.
func (w *W) Commit(schema string, n int, ts int64) {
	p := w.Insts[w.Primary]
	for ; n > 0; n-- {
		if len(w.Hist) > 0 && ts < w.Hist[len(w.Hist)-1].TS {
			ts = w.Hist[len(w.Hist)-1].TS
		}
		seq := len(w.Hist) + 1
		t := Tx{Seq: seq, ID: gtid.ID{UUID: p.S.UUID, N: p.S.Executed.Max(p.S.UUID) + 1}, TS: ts, Schema: schema}
		w.Hist = append(w.Hist, t)
		p.apply(t)
	}
	w.Replicate()
}

// Replicate brings the replicas that do not lag up to date.
func (w *W) Replicate() {
	for i, x := range w.Insts {
		if i == w.Primary || x.Lag {
			continue
		}
		for x.Applied < len(w.Hist) {
			x.apply(w.Hist[x.Applied])
		}
	}
}

func (w *W) byHost(h string) *Inst {
	for _, x := range w.Insts {
		if x.S.IP == h || x.S.Host == h {
			return x
		}
	}
	for _, x := range w.Targets {
		if x.S.IP == h || x.S.Host == h {
			return x
		}
	}
	return nil
}

func (w *W) misuse(f string, a ...any) toolReply {
	w.Stray = append(w.Stray, fmt.Sprintf(f, a...))
	return toolReply{Exit: 1}
}

func (w *W) login(host, port, user, pw string) (*Inst, bool) {
	x := w.byHost(strings.Trim(host, "[]"))
	if x == nil || !x.S.Up || port != "3306" && port != "" {
		return nil, false
	}
	p, ok := x.S.Users[user]
	return x, ok && p == pw
}

type dumpData struct {
	Schemas map[string][]int `json:"schemas"`
	Users   []string         `json:"users"`
}

func (w *W) tool(tc ToolCall) toolReply {
	w.Net.Mu.Lock()
	defer w.Net.Mu.Unlock()
	w.Mu.Lock()
	defer w.Mu.Unlock()
	what := tc.Name
	switch tc.Name {
	case "tar", "zstd":
		dir := "pack"
		for _, a := range tc.Args {
			if a == "-x" || a == "-d" || a == "--extract" || a == "--decompress" {
				dir = "unpack"
			}
		}
		what += " " + dir
	case "mysqlsh":
		for _, a := range tc.Args {
			if a == "dump-instance" || a == "load-dump" {
				what += " " + a
			}
		}
	case "mysqlbinlog":
		if local(tc.Args) {
			what += " local"
		} else {
			what += " remote"
		}
	}
	mode, hit := w.faultLocked("tool", what)
	if tc.Name == "tar" || tc.Name == "zstd" {
		rep := toolReply{Real: "/usr/bin/" + tc.Name, Limit: -1}
		if hit {
			switch mode {
			case "partial":
				rep.Limit, rep.Exit = 700, 1
				if strings.Contains(what, "unpack") && tc.Name == "tar" {
					return toolReply{Exit: 2}
				}
			case "after":
				rep.Limit, rep.Exit = 1<<30, 1
			default:
				return toolReply{Exit: 2}
			}
		}
		return rep
	}
	if hit && (mode == "before" || mode == "drop" || mode == "conflict") {
		return toolReply{Exit: 1}
	}
	partial := hit && mode == "partial"
	var rep toolReply
	switch tc.Name {
	case "mysqlsh":
		rep = w.mysqlsh(tc, partial)
	case "mysqlbinlog":
		rep = w.mysqlbinlog(tc, partial)
	case "mysql":
		rep = w.mysql(tc, partial)
	}
	if hit && rep.Exit == 0 {
		rep.Exit = 1
	}
	return rep
}

func (w *W) mysqlsh(tc ToolCall, partial bool) toolReply {
	var uri, pw string
	var rest []string
	opts := map[string]string{}
	for i := 0; i < len(tc.Args); i++ {
		a := tc.Args[i]
		switch {
		case a == "--":
			rest = tc.Args[i+1:]
			i = len(tc.Args)
		case strings.HasPrefix(a, "mysql://"):
			uri = strings.TrimPrefix(a, "mysql://")
		case strings.HasPrefix(a, "-p"):
			pw = a[2:]
		case strings.HasPrefix(a, "--password="):
			pw = strings.TrimPrefix(a, "--password=")
		case a == "-C":
			i++
		}
	}
	user, hp, _ := strings.Cut(uri, "@")
	host, port, err := net.SplitHostPort(hp)
	if err != nil {
		return w.misuse("mysqlsh: bad uri %q", uri)
	}
	x, ok := w.login(host, port, user, pw)
	if !ok {
		return toolReply{Exit: 1}
	}
	if len(rest) < 3 || rest[0] != "util" {
		return w.misuse("mysqlsh: bad command %q", rest)
	}
	var pos []string
	for _, a := range rest[2:] {
		if strings.HasPrefix(a, "--") {
			k, v, _ := strings.Cut(a[2:], "=")
			opts[k] = v
		} else {
			pos = append(pos, a)
		}
	}
	if len(pos) != 1 {
		return w.misuse("mysqlsh: bad arguments %q", rest)
	}
	dir := pos[0]
	if !filepath.IsAbs(dir) {
		dir = filepath.Join(tc.Cwd, dir)
	}
	switch rest[1] {
	case "dump-instance":
		if _, err := os.Stat(dir); err == nil {
			if es, _ := os.ReadDir(dir); len(es) > 0 {
				return w.misuse("mysqlsh: the dump directory is not empty")
			}
		}
		if w.OnTool != nil {
			w.OnTool(tc, x, false)
		}
		ex := map[string]bool{}
		for _, u := range strings.Split(opts["excludeUsers"], ",") {
			ex[strings.Trim(u, "'` ")] = true
		}
		d := dumpData{Schemas: x.State}
		for u := range x.Users {
			n, _, _ := strings.Cut(u, "@")
			if !ex[u] && !ex[n] {
				d.Users = append(d.Users, u)
			}
		}
		sort.Strings(d.Users)
		data, _ := json.Marshal(d)
		g, _ := json.Marshal(map[string]any{"gtidExecuted": x.S.Executed.String(), "dumper": "mysqlsh", "version": "2.0.1", "gtidExecutedInconsistent": false})
		files := map[string][]byte{"@.json": g, "@.done.json": []byte("{}"), "data.json": data, "app@t@@0.tsv.zst": bytes.Repeat([]byte("x"), 300+37*x.Applied%4000)}
		rec := DumpRec{Inst: x, Prefix: x.Applied, GTID: x.S.Executed.String(), Files: files}
		for n, b := range files {
			if partial && n != "@.json" && n != "app@t@@0.tsv.zst" {
				continue
			}
			if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
				return w.misuse("mysqlsh: %v", err)
			}
		}
		rec.Stopped = partial
		w.Dumps = append(w.Dumps, rec)
		if w.AfterDump != nil {
			w.AfterDump()
		}
		return toolReply{}
	case "load-dump":
		if !x.S.LocalInfile || x.S.SuperRO {
			return toolReply{Exit: 1}
		}
		if len(x.State) > 0 {
			return toolReply{Exit: 1} // duplicate objects
		}
		data, err := os.ReadFile(filepath.Join(dir, "data.json"))
		var d dumpData
		if err != nil || json.Unmarshal(data, &d) != nil {
			return toolReply{Exit: 1}
		}
		if _, err := os.Stat(filepath.Join(dir, "@.done.json")); err != nil {
			return toolReply{Exit: 1}
		}
		var g struct{ GtidExecuted string }
		gb, _ := os.ReadFile(filepath.Join(dir, "@.json"))
		if json.Unmarshal(gb, &g) != nil {
			return toolReply{Exit: 1}
		}
		x.Loads++
		w.Loads = append(w.Loads, "dump")
		for s, tx := range d.Schemas {
			if in := opts["includeSchemas"]; in != "" && !has(strings.Split(in, ","), s) {
				continue
			}
			if has(strings.Split(opts["excludeSchemas"], ","), s) {
				continue
			}
			if partial {
				tx = tx[:len(tx)/2]
			}
			x.State[s] = append([]int(nil), tx...)
		}
		if opts["loadUsers"] == "true" && !partial {
			for _, u := range d.Users {
				if in := opts["includeUsers"]; in != "" && !userMatch(strings.Split(in, ","), u) {
					continue
				}
				if strings.HasPrefix(u, "moco-") {
					return toolReply{Exit: 1} // exists already
				}
				x.Users[u] = true
			}
		}
		if opts["skipBinlog"] != "true" {
			x.S.Executed.Add(gtid.ID{UUID: x.S.UUID, N: x.S.Executed.Max(x.S.UUID) + 1})
		}
		if m := opts["updateGtidSet"]; (m == "replace" || m == "append") && !partial {
			set, err := gtid.Parse(g.GtidExecuted)
			if err != nil {
				return toolReply{Exit: 1}
			}
			if m == "replace" {
				x.S.Executed = set
			} else {
				x.S.Executed.Union(set)
			}
		}
		return toolReply{}
	}
	return w.misuse("mysqlsh: unknown command %q", rest)
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// userMatch: a name without host stands for all accounts of that name.
func userMatch(l []string, u string) bool {
	n, _, _ := strings.Cut(u, "@")
	return has(l, u) || has(l, n)
}

func local(args []string) bool {
	for _, a := range args {
		if strings.HasPrefix(a, "--read-from-remote") || a == "-R" {
			return false
		}
	}
	return true
}

// getopt splits the arguments of the classic clients.
func getopt(args []string, withValue string) (map[string]string, []string) {
	o := map[string]string{}
	var pos []string
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case strings.HasPrefix(a, "--"):
			k, v, eq := strings.Cut(a[2:], "=")
			if !eq && has([]string{"host", "port", "user", "database", "stop-datetime", "start-datetime", "result-file", "exclude-gtids", "protocol"}, k) && i+1 < len(args) {
				i++
				v = args[i]
			}
			o[k] = v
		case len(a) > 1 && a[0] == '-':
			k := a[1:2]
			if k == "p" { // password: attached only
				o[k] = a[2:]
				continue
			}
			if strings.Contains(withValue, k) {
				if len(a) > 2 {
					o[k] = a[2:]
				} else if i+1 < len(args) {
					i++
					o[k] = args[i]
				}
				continue
			}
			for _, c := range a[1:] {
				o[string(c)] = ""
			}
		default:
			pos = append(pos, a)
		}
	}
	for s, l := range map[string]string{"h": "host", "P": "port", "u": "user", "p": "password", "d": "database", "t": "to-last-log", "r": "result-file"} {
		if v, ok := o[s]; ok {
			o[l] = v
		}
	}
	return o, pos
}

func (w *W) mysqlbinlog(tc ToolCall, partial bool) toolReply {
	o, pos := getopt(tc.Args, "hPudr")
	if !local(tc.Args) {
		x, ok := w.login(o["host"], o["port"], o["user"], o["password"])
		if !ok {
			return toolReply{Exit: 1}
		}
		if w.OnTool != nil {
			w.OnTool(tc, x, true)
		}
		if len(pos) != 1 {
			return w.misuse("mysqlbinlog: bad arguments %q", tc.Args)
		}
		start := -1
		for i, f := range x.Files {
			if f.Name == pos[0] {
				start = i
			}
		}
		if start < 0 {
			return toolReply{Exit: 1} // could not find first log file name in binary log index file
		}
		ex, err := gtid.Parse(o["exclude-gtids"])
		if err != nil {
			return toolReply{Exit: 1}
		}
		if _, raw := o["raw"]; !raw || o["result-file"] == "" {
			return w.misuse("mysqlbinlog: not raw: %q", tc.Args)
		}
		_, last := o["to-last-log"]
		rec := BinRec{Inst: x, Upto: x.Applied, From: pos[0]}
		n := 0
		for i := start; i < len(x.Files); i++ {
			if i > start && (!last || partial) {
				break
			}
			var b bytes.Buffer
			b.WriteString("\xfebin\n")
			for _, t := range x.Files[i].Tx {
				if ex.Has(t.ID) {
					continue
				}
				j, _ := json.Marshal(t)
				b.Write(append(j, '\n'))
				rec.Tx = append(rec.Tx, t)
				n++
			}
			if err := os.WriteFile(o["result-file"]+x.Files[i].Name, b.Bytes(), 0o644); err != nil {
				return w.misuse("mysqlbinlog: %v", err)
			}
		}
		for s := 1; s <= x.Purged && s <= len(w.Hist); s++ {
			if !ex.Has(w.Hist[s-1].ID) {
				rec.Gap = true
			}
		}
		if !partial {
			w.Bins = append(w.Bins, rec)
		}
		return toolReply{}
	}
	if st, err := os.Stat(tc.TmpDir); tc.TmpDir != "" && (err != nil || !st.IsDir()) {
		return toolReply{Exit: 1}
	}
	var stop int64 = 1 << 60
	if s, ok := o["stop-datetime"]; ok {
		t, err := time.Parse("2006-01-02 15:04:05", s)
		if err != nil {
			return w.misuse("mysqlbinlog: bad stop-datetime %q", s)
		}
		stop = t.Unix() - offset(tc.TZ)
	}
	var out bytes.Buffer
	n := 0
	for _, f := range pos {
		b, err := os.ReadFile(f)
		if err != nil || !bytes.HasPrefix(b, []byte("\xfebin\n")) {
			return toolReply{Stdout: out.Bytes(), Exit: 1}
		}
		for _, l := range strings.Split(string(b[5:]), "\n") {
			if l == "" {
				continue
			}
			var t Tx
			if json.Unmarshal([]byte(l), &t) != nil {
				return toolReply{Stdout: out.Bytes(), Exit: 1}
			}
			if t.TS >= stop {
				return toolReply{Stdout: out.Bytes()}
			}
			if n++; partial && n > 1 {
				return toolReply{Stdout: out.Bytes(), Exit: 1}
			}
			if db := o["database"]; db != "" && t.Schema != db {
				t.Schema = ""
			}
			j, _ := json.Marshal(t)
			out.Write(append(j, '\n'))
		}
	}
	return toolReply{Stdout: out.Bytes()}
}

// offset of a POSIX or well-known time zone from UTC in seconds.
func offset(tz string) int64 {
	switch tz {
	case "", "UTC", "UTC0", "Etc/UTC", ":UTC", "GMT", "Etc/GMT", "Etc/UCT", "Zulu", "Etc/Zulu", "Universal":
		return 0
	}
	return 9 * 3600
}

func (w *W) mysql(tc ToolCall, partial bool) toolReply {
	o, _ := getopt(tc.Args, "hPuD")
	x, ok := w.login(o["host"], o["port"], o["user"], o["password"])
	if !ok {
		return toolReply{Exit: 1}
	}
	n := 0
	w.Loads = append(w.Loads, "binlog")
	x.Pumped++
	for _, l := range strings.Split(string(tc.Stdin), "\n") {
		if l == "" {
			continue
		}
		var t Tx
		if json.Unmarshal([]byte(l), &t) != nil {
			return toolReply{Exit: 1}
		}
		if x.S.SuperRO {
			return toolReply{Exit: 1}
		}
		if n++; partial && n > 1 {
			return toolReply{Exit: 1}
		}
		if x.S.Executed.Has(t.ID) {
			continue
		}
		x.S.Executed.Add(t.ID)
		if t.Schema != "" {
			x.State[t.Schema] = append(x.State[t.Schema], t.Seq)
		}
	}
	return toolReply{}
}

// ---- bucket ----

var errBucket = errors.New("injected bucket failure")

type failingReader struct {
	r io.Reader
	n int
}

func (f *failingReader) Read(p []byte) (int, error) {
	if f.n <= 0 {
		return 0, errBucket
	}
	if len(p) > f.n {
		p = p[:f.n]
	}
	n, err := f.r.Read(p)
	f.n -= n
	return n, err
}

// Put implements bucket.Bucket.
func (w *W) Put(_ context.Context, key string, data io.Reader, _ int64) error {
	m, hit := w.fault("put", key)
	if hit && m != "after" && m != "partial" && m != "dropafter" {
		return errBucket
	}
	if hit && m == "partial" {
		_, _ = io.ReadFull(data, make([]byte, 100))
		return errBucket
	}
	b, err := io.ReadAll(data)
	if err != nil {
		return err
	}
	w.Mu.Lock()
	w.Objects[key] = b
	w.Mu.Unlock()
	if hit {
		return errBucket
	}
	return nil
}

// Get implements bucket.Bucket.
func (w *W) Get(_ context.Context, key string) (io.ReadCloser, error) {
	m, hit := w.fault("get", key)
	w.Mu.Lock()
	b, ok := w.Objects[key]
	w.Gets = append(w.Gets, key)
	w.Mu.Unlock()
	if !ok {
		return nil, fmt.Errorf("no such key: %s", key)
	}
	if hit {
		switch m {
		case "after", "partial", "dropafter":
			return io.NopCloser(&failingReader{bytes.NewReader(b), len(b) / 2}), nil
		}
		return nil, errBucket
	}
	return io.NopCloser(bytes.NewReader(b)), nil
}

// List implements bucket.Bucket.
func (w *W) List(_ context.Context, prefix string) ([]string, error) {
	if _, hit := w.fault("list", prefix); hit {
		return nil, errBucket
	}
	w.Mu.Lock()
	defer w.Mu.Unlock()
	var r []string
	for k := range w.Objects {
		if strings.HasPrefix(k, prefix) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	// a listing is not sorted by time
	for i := range r {
		j := (i*7 + len(r)/2) % len(r)
		r[i], r[j] = r[j], r[i]
	}
	return r, nil
}

// ---- running ----

func (w *W) cfg() *rest.Config {
	return &rest.Config{Host: "http://api.invalid", Transport: w.API, ContentConfig: rest.ContentConfig{ContentType: "application/json"}, QPS: -1}
}

var runs atomic.Int64

func (w *W) workDir() string {
	os.Setenv("VERIF_RUN", strconv.FormatInt(runs.Add(1), 10))
	d, err := os.MkdirTemp(scratch, "work")
	must(err)
	w.work = d
	return d
}

func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok && errors.Is(e, backup.ErrBadConnection) {
				err = e
				return
			}
			panic(r)
		}
	}()
	return f()
}

// Backup runs the backup manager once.
func (w *W) Backup(threads int) error {
	w.tick()
	if w.Cmd != "" {
		return w.Run(w.Cmd, backupPW, "backup", "--threads="+itoa(threads), "bkt", w.NS, w.Name)
	}
	dir := w.workDir()
	defer os.RemoveAll(dir)
	bm, err := backup.NewBackupManager(w.cfg(), w, dir, w.NS, w.Name, backupPW, threads)
	if err != nil {
		return err
	}
	return bm.Backup(context.Background())
}

// Restore runs the restore manager once.
func (w *W) Restore(ns, name string, point time.Time, schema, users string, threads int) error {
	w.tick()
	if w.Cmd != "" {
		return w.Run(w.Cmd, adminPW, "restore", "--threads="+itoa(threads), "bkt", w.NS, w.Name, ns, name, point.UTC().Format("20060102-150405"), schema, users)
	}
	dir := w.workDir()
	defer os.RemoveAll(dir)
	rm, err := backup.NewRestoreManager(w.cfg(), w, dir, w.NS, w.Name, ns, name, adminPW, threads, point, schema, users)
	if err != nil {
		return err
	}
	return guard(func() error { return rm.Restore(context.Background()) })
}

func appLabels(name string) map[string]string {
	return map[string]string{"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": name, "app.kubernetes.io/created-by": "moco"}
}

// PutPod stores the pod of an instance.
func (w *W) PutPod(ns, name string, i int, ip string, ready *bool, extra bool) {
	p := &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: fmt.Sprintf("moco-%s-%d", name, i), Labels: appLabels(name)}}
	p.Status.PodIP = ip
	if extra {
		p.Status.Conditions = append(p.Status.Conditions, corev1.PodCondition{Type: corev1.ContainersReady, Status: corev1.ConditionTrue}, corev1.PodCondition{Type: corev1.PodInitialized, Status: corev1.ConditionTrue})
	}
	if ready != nil {
		st := corev1.ConditionFalse
		if *ready {
			st = corev1.ConditionTrue
		}
		p.Status.Conditions = append(p.Status.Conditions, corev1.PodCondition{Type: corev1.PodReady, Status: st})
	}
	w.API.Put("pods", p)
}

// Cluster reads a MySQLCluster.
func (w *W) Cluster(ns, name string) *mocov1beta2.MySQLCluster {
	c := &mocov1beta2.MySQLCluster{}
	if !w.API.Get("mysqlclusters", ns, name, c) {
		return nil
	}
	return c
}

func key(ns, name string, t time.Time, file string) string {
	return "moco/" + ns + "/" + name + "/" + t.UTC().Format("20060102-150405") + "/" + file
}

func itoa(i int) string { return strconv.Itoa(i) }
