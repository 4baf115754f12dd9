// Package mysim simulates mysqld instances: GTID replication with AFTER_SYNC
// semi-synchronous acknowledgement, read-only modes, relay logs, clone,
// restarts and network cuts.  Instances are reached through the real
// go-sql-driver over the MySQL wire protocol (package wire).
package mysim

import (
	"context"
	"fmt"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-sql-driver/mysql"

	"verif/internal/gtid"
	"verif/internal/wire"
)

// Txn is a transaction in a binary or relay log.
type Txn struct {
	ID  gtid.ID
	Row int64 // identity of the change (independent of the GTID)
	At  time.Time
}

// Write is a client write.
type Write struct {
	Txn     Txn
	Server  *Server
	Conn    *Conn
	Acked   bool
	AckedAt time.Time
	Err     string
	Done    bool
	Started time.Time
	Gen     int // restart generation of the server
}

type pending struct {
	txn   Txn
	acks  map[string]bool
	since time.Time
	w     *Write // nil for the SQL thread
}

// Source is the replication source configuration.
type Source struct {
	Host, User, Password string
	Port                 int
	Auto                 bool
	GetKey               bool
}

// Conn is a connection to a server (from the controller over the wire, or a simulated client).
type Conn struct {
	ID     uint32
	User   string
	Host   string
	S      *Server
	Gen    int // controller generation (0 for clients)
	Closed bool
	pipe   net.Conn
	// Running long statement (blocks SET super_read_only) until this time.
	BusyUntil time.Time
}

// Server is one mysqld.
type Server struct {
	N        *Net
	Name     string // unique
	Index    int    // index in its cluster (-1: external)
	Host     string
	IP       string
	ServerID int32
	Ver      string
	Users    map[string]string
	Strict   bool

	Up    bool
	Gen   int    // restart generation
	Clone string // performance_schema.clone_status state ("" = no row)

	// persistent
	UUID      string
	Binlog    []Txn // retained part
	Executed  gtid.Set
	Purged    gtid.Set
	Rows      map[int64]bool
	Relay     []Txn
	Retrieved gtid.Set
	Src       *Source

	// volatile
	ReadOnly, SuperRO    bool
	SSMaster, SSSlave    bool
	SSWait               int
	SSTimeout            int64 // ms
	LocalInfile          bool
	IORunning, SQLRun    bool
	ioState              string // No, Connecting, Yes
	ioPos                int
	ioSemi               bool
	ioSrcGen             int
	ioBase               int // number of retained binlog entries dropped at source since start (for purge)
	ioNext               time.Time
	LastIOErrno          int
	LastIOError          string
	Pending              []*pending
	roPending            int
	Conns                map[uint32]*Conn
	nextN                int64
	Lag                  time.Duration // SQL thread delay
	StopSQLApply         bool          // SQL thread stuck
	BadRelay             bool
	OverrideDelay        *int64 // fixed Seconds_Behind_Source (nil: computed)
	OverrideDelayNull    bool
	OverrideWaitSessions *int
	ExtraReplicas        []int32 // additional server ids in SHOW REPLICAS
	HideReplicas         map[int32]bool
	ExtraProcs           []Proc
	KillErr              map[uint32]*wire.SQLError
	Killed               []uint32
	Waited               []string // GTID sets passed to WAIT_FOR_EXECUTED_GTID_SET

	// BinlogFiles is used by backup scenarios only.
	BinlogFiles []string
}

// Proc is an extra row of the process list.
type Proc struct {
	ID         uint32
	User, Host string
}

// Event is something observable that happened.
type Event struct {
	At     time.Time
	Kind   string
	Server *Server
	Detail string
}

// Net is a set of servers and the network between them.
type Net struct {
	OnStmt  func(s *Server, stmt string) // Mu held
	Mu      sync.Mutex
	List    []*Server
	cut     map[[2]string]bool
	CtrlCut map[string]bool
	Fenced  map[int]bool
	Latency time.Duration
	// StmtLatency is the round trip time of a controller statement.
	StmtLatency time.Duration
	closed      bool
	connSeq     uint32
	rowSeq      int64
	uuidSeq     int
	Trace       []Event
	NoTrace     bool
	// OnEvent is called with Mu held.
	OnEvent func(Event)
	// Fault is called with Mu held, before a statement of the controller runs.
	Fault func(c *Conn, stmt string) (before, after error)
	// Stmts counts statements by the controller.
	Stmts int
	wg    sync.WaitGroup
}

var current atomic.Pointer[Net]

func init() {
	mysql.RegisterDialContext("tcp", func(ctx context.Context, addr string) (net.Conn, error) {
		n := current.Load()
		if n == nil {
			return nil, fmt.Errorf("no network")
		}
		return n.dial(ctx, addr)
	})
}

// New creates a network and makes it the one the SQL driver dials.
func New() *Net {
	n := &Net{cut: map[[2]string]bool{}, CtrlCut: map[string]bool{}, Fenced: map[int]bool{}, Latency: 20 * time.Millisecond}
	current.Store(n)
	return n
}

// NewUUID returns a fresh UUID.
func (n *Net) NewUUID() string {
	n.uuidSeq++
	// spread the first digits so that the order of UUIDs is not the order of creation
	return fmt.Sprintf("%08x-0000-11ee-8000-%012x", (uint32(n.uuidSeq)*2654435761)>>1, n.uuidSeq)
}

// Add adds a fresh (initialised, empty) server.
func (n *Net) Add(s *Server) *Server {
	s.N = n
	if s.Ver == "" {
		s.Ver = "8.0.36"
	}
	s.Wipe()
	s.Up = true
	n.List = append(n.List, s)
	return s
}

// Wipe makes the server a freshly initialised instance.
func (s *Server) Wipe() {
	s.UUID = s.N.NewUUID()
	s.Binlog = nil
	s.Executed = gtid.New()
	s.Purged = gtid.New()
	s.Rows = map[int64]bool{}
	s.Relay = nil
	s.Retrieved = gtid.New()
	s.Src = nil
	s.Clone = ""
	s.nextN = 0
	s.Pending = nil
	s.resetVolatile()
}

func (s *Server) resetVolatile() {
	s.ReadOnly, s.SuperRO = true, true
	s.SSMaster, s.SSSlave = false, false
	s.SSWait, s.SSTimeout = 1, 10000
	s.LocalInfile = false
	s.IORunning, s.SQLRun = false, false
	s.ioState = "No"
	s.LastIOErrno, s.LastIOError = 0, ""
	s.roPending = 0
	s.Gen++
	if s.Conns == nil {
		s.Conns = map[uint32]*Conn{}
	}
}

// Crash stops the server (Mu held). Data, including unacknowledged binlog entries, is kept.
func (s *Server) Crash() {
	if !s.Up {
		return
	}
	s.Up = false
	s.Gen++
	for _, c := range s.Conns {
		c.close()
	}
	s.Conns = map[uint32]*Conn{}
	s.event("crash", "")
}

// Boot starts the server again (Mu held).
func (s *Server) Boot() {
	if s.Up {
		return
	}
	// binary log recovery commits what was written to the binlog
	for _, p := range s.Pending {
		s.Executed.Add(p.txn.ID)
		s.Rows[p.txn.Row] = true
		if p.w != nil && !p.w.Done {
			p.w.Done, p.w.Err = true, "connection lost"
		}
	}
	s.Pending = nil
	s.resetVolatile()
	s.Up = true
	s.event("boot", "")
}

func (c *Conn) close() {
	if c.Closed {
		return
	}
	c.Closed = true
	if c.pipe != nil {
		c.pipe.Close()
	}
}

func (s *Server) event(kind, detail string) {
	e := Event{At: time.Now(), Kind: kind, Server: s, Detail: detail}
	if !s.N.NoTrace && kind != "ack" {
		s.N.Trace = append(s.N.Trace, e)
	}
	if s.N.OnEvent != nil {
		s.N.OnEvent(e)
	}
}

// Close shuts the network down; all connections end.
func (n *Net) Close() {
	n.Mu.Lock()
	n.closed = true
	for _, s := range n.List {
		for _, c := range s.Conns {
			c.close()
		}
	}
	n.Mu.Unlock()
	n.wg.Wait()
}

func key(a, b string) [2]string {
	if a > b {
		a, b = b, a
	}
	return [2]string{a, b}
}

// SetCut cuts or heals the link between two servers (Mu held).
func (n *Net) SetCut(a, b string, cut bool) {
	if cut {
		n.cut[key(a, b)] = true
	} else {
		delete(n.cut, key(a, b))
	}
}

// HealAll removes all cuts (Mu held).
func (n *Net) HealAll() {
	n.cut = map[[2]string]bool{}
	n.CtrlCut = map[string]bool{}
}

// Fence cuts off a controller generation (Mu held).
func (n *Net) Fence(gen int) {
	n.Fenced[gen] = true
	for _, s := range n.List {
		for _, c := range s.Conns {
			if c.Gen == gen {
				c.close()
			}
		}
	}
}

func (n *Net) byAddr(host string) *Server {
	for _, s := range n.List {
		if s.IP == host || s.Host == host {
			return s
		}
	}
	return nil
}

// ctlAddr: the controller resolves instance addresses as <IP> with the second
// octet replaced by its generation; 10.0.x.y is generation 0.
func (n *Net) resolveCtl(host string) (*Server, int) {
	f := strings.Split(host, ".")
	if len(f) == 4 {
		if g, err := strconv.Atoi(f[1]); err == nil && g > 0 {
			f[1] = "0"
			return n.byAddr(strings.Join(f, ".")), g
		}
	}
	return n.byAddr(host), 0
}

// CtlIP returns the address generation gen uses for the server.
func (s *Server) CtlIP(gen int) string {
	f := strings.Split(s.IP, ".")
	f[1] = strconv.Itoa(gen)
	return strings.Join(f, ".")
}

func (n *Net) dial(ctx context.Context, addr string) (net.Conn, error) {
	host, _, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, err
	}
	for {
		n.Mu.Lock()
		s, gen := n.resolveCtl(host)
		cut := s != nil && n.CtrlCut[s.Name]
		if n.closed || n.Fenced[gen] {
			n.Mu.Unlock()
			return nil, fmt.Errorf("dial tcp %s: network is unreachable", addr)
		}
		if s == nil {
			n.Mu.Unlock()
			return nil, fmt.Errorf("dial tcp %s: no route to host", addr)
		}
		if !cut {
			if !s.Up {
				n.Mu.Unlock()
				return nil, fmt.Errorf("dial tcp %s: connect: connection refused", addr)
			}
			n.connSeq++
			a, b := net.Pipe()
			c := &Conn{ID: n.connSeq, S: s, Gen: gen, pipe: b, Host: "10.255.0.1:4000"}
			s.Conns[c.ID] = c
			n.wg.Add(1)
			n.Mu.Unlock()
			go func() {
				defer n.wg.Done()
				wire.Serve(b, &session{c})
				n.Mu.Lock()
				c.Closed = true
				delete(s.Conns, c.ID)
				n.Mu.Unlock()
			}()
			return a, nil
		}
		n.Mu.Unlock()
		select {
		case <-ctx.Done():
			return nil, fmt.Errorf("dial tcp %s: i/o timeout", addr)
		case <-time.After(100 * time.Millisecond):
		}
	}
}

// Dial connects to a server as the SQL driver does.
func (n *Net) Dial(ctx context.Context, addr string) (net.Conn, error) { return n.dial(ctx, addr) }

type session struct{ c *Conn }

func (h *session) Password(user string) (string, bool) {
	s := h.c.S
	s.N.Mu.Lock()
	defer s.N.Mu.Unlock()
	pw, ok := s.Users[user]
	return pw, ok
}
func (h *session) Version() string { return h.c.S.Ver }
func (h *session) ConnID() uint32  { return h.c.ID }
func (h *session) Authenticated(user string) {
	h.c.S.N.Mu.Lock()
	h.c.User = user
	h.c.S.N.Mu.Unlock()
}

// BeforeReply holds replies back while the controller is cut off.
func (h *session) BeforeReply() bool {
	n := h.c.S.N
	for {
		n.Mu.Lock()
		ok := n.CtrlCut[h.c.S.Name]
		dead := h.c.Closed || n.closed
		n.Mu.Unlock()
		if dead {
			return false
		}
		if !ok {
			return true
		}
		time.Sleep(50 * time.Millisecond)
	}
}

func (h *session) Query(q string) (*wire.Result, error) {
	if !h.BeforeReply() {
		return nil, wire.ErrDrop
	}
	s := h.c.S
	n := s.N
	if n.StmtLatency > 0 {
		time.Sleep(n.StmtLatency)
	}
	n.Mu.Lock()
	defer n.Mu.Unlock()
	if h.c.Closed || !s.Up {
		return nil, wire.ErrDrop
	}
	stmt := normalize(q)
	n.Stmts++
	var after error
	if n.Fault != nil {
		before, aft := n.Fault(h.c, stmt)
		if h.c.Closed || !s.Up {
			return nil, wire.ErrDrop
		}
		if before != nil {
			return nil, before
		}
		after = aft
	}
	gen := s.Gen
	if n.OnStmt != nil {
		n.OnStmt(s, stmt)
	}
	r, err := s.exec(h.c, stmt)
	if s.Gen != gen {
		return nil, wire.ErrDrop
	}
	if after != nil {
		return nil, after
	}
	return r, err
}

// wait releases the lock until cond holds, the deadline passes (returns false) or the server dies.
func (s *Server) wait(deadline time.Time, cond func() bool) (ok, dead bool) {
	gen := s.Gen
	for {
		if s.Gen != gen || s.N.closed {
			return false, true
		}
		if cond() {
			return true, false
		}
		if !deadline.IsZero() && !time.Now().Before(deadline) {
			return false, false
		}
		s.N.Mu.Unlock()
		time.Sleep(20 * time.Millisecond)
		s.N.Mu.Lock()
	}
}

// Step advances replication (Mu held).  Call it regularly.
func (n *Net) Step() {
	now := time.Now()
	for _, s := range n.List {
		if !s.Up {
			continue
		}
		// long statements that finish on their own become writes by the caller; nothing to do here
		s.stepTimeout(now)
		s.stepIO(now)
		s.stepSQL(now)
	}
	for _, s := range n.List {
		if s.Up {
			s.stepAcks()
		}
	}
}

func (n *Net) reachable(a, b *Server) bool { return !n.cut[key(a.Name, b.Name)] }

func (s *Server) stepIO(now time.Time) {
	if !s.IORunning || s.Src == nil {
		s.ioState = "No"
		return
	}
	src := s.N.byAddr(s.Src.Host)
	if src == nil || !src.Up || !s.N.reachable(s, src) || (s.ioState == "Yes" && s.ioSrcGen != src.Gen) {
		if s.ioState == "Yes" {
			s.ioNext = now.Add(10 * time.Second)
		}
		s.ioState = "Connecting"
		if src == nil || !src.Up || !s.N.reachable(s, src) {
			return
		}
	}
	if s.ioState != "Yes" {
		if now.Before(s.ioNext) {
			return
		}
		s.ioNext = now.Add(10 * time.Second)
		pw, ok := src.Users[s.Src.User]
		if !ok || pw != s.Src.Password || s.Src.Port != 3306 && src.Index >= 0 {
			s.LastIOErrno, s.LastIOError = 1045, "Access denied"
			return
		}
		have := s.Executed.Clone()
		have.Union(s.Retrieved)
		if !s.Src.Auto || !src.Purged.SubsetOf(have) {
			s.IORunning, s.ioState = false, "No"
			s.LastIOErrno, s.LastIOError = 1236, "Got fatal error 1236 from source when reading data from binary log"
			s.event("io-fatal", "purged")
			return
		}
		srcAll := src.Executed.Clone()
		for _, t := range src.Binlog {
			srcAll.Add(t.ID)
		}
		if !have.Only(src.UUID).SubsetOf(srcAll) {
			s.IORunning, s.ioState = false, "No"
			s.LastIOErrno, s.LastIOError = 1236, "replica has more GTIDs than the source has using the source's SERVER_UUID"
			s.event("io-fatal", "more gtids")
			return
		}
		s.ioState = "Yes"
		s.ioPos = 0
		s.ioSemi = s.SSSlave && src.SSInstalled()
		s.ioSrcGen = src.Gen
		s.event("io-connect", src.Name)
	}
	// receive
	for s.ioPos < len(src.Binlog) {
		t := src.Binlog[s.ioPos]
		if now.Sub(t.At) < s.N.Latency {
			break
		}
		s.ioPos++
		if !s.Executed.Has(t.ID) && !s.Retrieved.Has(t.ID) {
			s.Relay = append(s.Relay, t)
			s.Retrieved.Add(t.ID)
		}
		if s.ioSemi {
			for _, p := range src.Pending {
				if p.txn.ID == t.ID {
					p.acks[s.Name] = true
				}
			}
		}
	}
	src.stepAcks()
}

// SSInstalled tells whether the semi-sync plugin is there (external sources have none).
func (s *Server) SSInstalled() bool { return true }

func (s *Server) stepTimeout(now time.Time) {
	if len(s.Pending) == 0 {
		return
	}
	if s.SSMaster && now.Sub(s.Pending[0].since) < time.Duration(s.SSTimeout)*time.Millisecond {
		return
	}
	if s.SSMaster {
		s.event("semisync-timeout", "")
	}
	for len(s.Pending) > 0 {
		s.commitHead()
	}
}

func (s *Server) stepAcks() {
	for len(s.Pending) > 0 && (len(s.Pending[0].acks) >= s.SSWait || !s.SSMaster) {
		s.commitHead()
	}
}

func (s *Server) commitHead() {
	p := s.Pending[0]
	s.Pending = s.Pending[1:]
	s.Executed.Add(p.txn.ID)
	s.Rows[p.txn.Row] = true
	if p.w != nil {
		s.finish(p.w)
	}
}

func (s *Server) finish(w *Write) {
	w.Done = true
	if w.Conn.Closed {
		w.Err = "connection killed"
		return
	}
	w.Acked = true
	w.AckedAt = time.Now()
	s.event("ack", fmt.Sprint(w.Txn.Row))
}

func (s *Server) stepSQL(now time.Time) {
	if !s.SQLRun || s.StopSQLApply {
		return
	}
	for len(s.Relay) > 0 {
		if len(s.Pending) > 0 {
			return
		}
		t := s.Relay[0]
		if now.Sub(t.At) < s.Lag {
			return
		}
		s.Relay = s.Relay[1:]
		if s.Executed.Has(t.ID) {
			continue
		}
		s.Binlog = append(s.Binlog, Txn{t.ID, t.Row, now})
		if s.SSMaster {
			s.Pending = append(s.Pending, &pending{txn: t, acks: map[string]bool{}, since: now})
			return
		}
		s.Executed.Add(t.ID)
		s.Rows[t.Row] = true
	}
}

// NewClient opens a client connection (Mu held); nil if the server is down.
func (s *Server) NewClient(user, host string) *Conn {
	if !s.Up {
		return nil
	}
	s.N.connSeq++
	c := &Conn{ID: s.N.connSeq, S: s, User: user, Host: host}
	s.Conns[c.ID] = c
	return c
}

// ClientWrite executes one autocommit write of a client (Mu held).
func (s *Server) ClientWrite(c *Conn) *Write {
	w := &Write{Server: s, Conn: c, Started: time.Now(), Gen: s.Gen}
	switch {
	case !s.Up || c.Closed:
		w.Done, w.Err = true, "connection lost"
	case s.ReadOnly || s.SuperRO:
		w.Done, w.Err = true, "read only"
	case s.roPending > 0:
		w.Done, w.Err = true, "waiting for global read lock"
	default:
		s.commit(w)
	}
	return w
}

func (s *Server) nextGTID() gtid.ID {
	m := s.Executed.Max(s.UUID)
	for _, p := range s.Pending {
		if p.txn.ID.UUID == s.UUID && p.txn.ID.N > m {
			m = p.txn.ID.N
		}
	}
	return gtid.ID{UUID: s.UUID, N: m + 1}
}

func (s *Server) commit(w *Write) {
	s.N.rowSeq++
	w.Txn = Txn{ID: s.nextGTID(), Row: s.N.rowSeq, At: time.Now()}
	s.Binlog = append(s.Binlog, w.Txn)
	if s.SSMaster {
		s.Pending = append(s.Pending, &pending{txn: w.Txn, acks: map[string]bool{}, since: time.Now(), w: w})
		return
	}
	s.Executed.Add(w.Txn.ID)
	s.Rows[w.Txn.Row] = true
	s.finish(w)
}

// LocalCommit commits a transaction directly on the instance (an operator at the console; Mu held).
func (s *Server) LocalCommit() Txn {
	s.N.rowSeq++
	t := Txn{ID: s.nextGTID(), Row: s.N.rowSeq, At: time.Now()}
	s.Binlog = append(s.Binlog, t)
	s.Executed.Add(t.ID)
	s.Rows[t.Row] = true
	return t
}

// PurgeBinlog purges the first k retained binlog entries that are executed (Mu held).
func (s *Server) PurgeBinlog(k int) {
	for k > 0 && len(s.Binlog) > 0 && s.Executed.Has(s.Binlog[0].ID) {
		s.Purged.Add(s.Binlog[0].ID)
		s.Binlog = s.Binlog[1:]
		k--
		for _, r := range s.N.List {
			if r.Src != nil && r.Src.Host == s.Host && r.ioPos > 0 {
				r.ioPos--
			} else if r.Src != nil && r.Src.Host == s.Host && r.ioState == "Yes" {
				r.ioSrcGen = -1 // lost position: reconnect
			}
		}
	}
}

// CloneFrom replaces the data by the donor's (Mu held).
func (s *Server) CloneFrom(d *Server) {
	s.Binlog = nil
	s.Executed = d.Executed.Clone()
	s.Purged = d.Executed.Clone()
	s.Rows = map[int64]bool{}
	for r := range d.Rows {
		s.Rows[r] = true
	}
	s.Relay = nil
	s.Retrieved = gtid.New()
	s.Src = nil
	s.Clone = "Completed"
}

// WaitSessions is Rpl_semi_sync_master_wait_sessions.
func (s *Server) WaitSessions() int {
	if s.OverrideWaitSessions != nil {
		return *s.OverrideWaitSessions
	}
	return len(s.Pending)
}

// Connected lists the servers replicating from s right now.
func (s *Server) Connected() []*Server {
	var r []*Server
	for _, x := range s.N.List {
		if x.Up && x.Src != nil && x.Src.Host == s.Host && x.ioState == "Yes" {
			r = append(r, x)
		}
	}
	return r
}

// IOState is Replica_IO_Running.
func (s *Server) IOState() string {
	if !s.IORunning {
		return "No"
	}
	return s.ioState
}

// SetIO forces the IO thread state (snapshot scenarios).
func (s *Server) SetIO(state string) {
	s.ioState = state
	s.IORunning = state != "No"
	if src := s.N.byAddr(s.srcHost()); src != nil {
		s.ioSrcGen = src.Gen
	}
	s.ioSemi = s.SSSlave
}

func (s *Server) srcHost() string {
	if s.Src == nil {
		return ""
	}
	return s.Src.Host
}

// SecondsBehind is Seconds_Behind_Source (nil = NULL).
func (s *Server) SecondsBehind() any {
	if s.OverrideDelayNull {
		return nil
	}
	if s.OverrideDelay != nil {
		return *s.OverrideDelay
	}
	if !s.SQLRun || s.IOState() != "Yes" {
		return nil
	}
	if len(s.Relay) == 0 {
		return int64(0)
	}
	return int64(time.Since(s.Relay[0].At) / time.Second)
}

func sortedConns(m map[uint32]*Conn) []*Conn {
	r := make([]*Conn, 0, len(m))
	for _, c := range m {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}
