package mysim

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"verif/internal/gtid"
	"verif/internal/wire"
)

type token struct {
	s   string // identifiers upper-cased in key, original in s
	str bool   // quoted string
}

func (t token) key() string {
	if t.str {
		return "'"
	}
	return strings.ToUpper(t.s)
}

func tokenize(q string) []token {
	var r []token
	i := 0
	for i < len(q) {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '\'' || c == '"' || c == '`':
			quote := c
			i++
			var b strings.Builder
			for i < len(q) {
				if q[i] == '\\' && quote != '`' && i+1 < len(q) {
					i++
					switch q[i] {
					case 'n':
						b.WriteByte('\n')
					case 'r':
						b.WriteByte('\r')
					case 't':
						b.WriteByte('\t')
					case '0':
						b.WriteByte(0)
					case 'Z':
						b.WriteByte(26)
					default:
						b.WriteByte(q[i])
					}
					i++
					continue
				}
				if q[i] == quote {
					if i+1 < len(q) && q[i+1] == quote {
						b.WriteByte(quote)
						i += 2
						continue
					}
					break
				}
				b.WriteByte(q[i])
				i++
			}
			i++
			r = append(r, token{b.String(), quote != '`'})
		case strings.IndexByte("(),=;*", c) >= 0:
			r = append(r, token{string(c), false})
			i++
		default:
			j := i
			for j < len(q) && strings.IndexByte(" \t\n\r'\"`(),=;*", q[j]) < 0 {
				j++
			}
			r = append(r, token{q[i:j], false})
			i = j
		}
	}
	for len(r) > 0 && r[len(r)-1].key() == ";" {
		r = r[:len(r)-1]
	}
	return r
}

// normalize collapses white space outside of quotes.
func normalize(q string) string {
	var b strings.Builder
	var quote byte
	space := false
	for i := 0; i < len(q); i++ {
		c := q[i]
		if quote != 0 {
			b.WriteByte(c)
			if c == '\\' && i+1 < len(q) {
				i++
				b.WriteByte(q[i])
			} else if c == quote {
				quote = 0
			}
			continue
		}
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			space = true
			continue
		}
		if space && b.Len() > 0 {
			b.WriteByte(' ')
		}
		space = false
		if c == '\'' || c == '"' || c == '`' {
			quote = c
		}
		b.WriteByte(c)
	}
	return strings.TrimRight(b.String(), "; ")
}

func match(ts []token, pat ...string) bool {
	if len(ts) < len(pat) {
		return false
	}
	for i, p := range pat {
		ok := false
		for _, alt := range strings.Split(p, "|") {
			if ts[i].key() == alt {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// Mutating tells whether a statement changes the instance.
func Mutating(stmt string) bool {
	ts := tokenize(stmt)
	if len(ts) == 0 {
		return false
	}
	switch ts[0].key() {
	case "SELECT", "SHOW", "KILL":
		return ts[0].key() == "KILL"
	case "SET":
		return !match(ts, "SET", "NAMES")
	}
	return true
}

func truthy(t token) (bool, bool) {
	switch t.key() {
	case "1", "ON", "TRUE":
		return true, true
	case "0", "OFF", "FALSE":
		return false, true
	}
	if t.str {
		return truthy(token{t.s, false})
	}
	return false, false
}

func b2i(b bool) any {
	if b {
		return 1
	}
	return 0
}

func (s *Server) variable(name string) (any, bool) {
	name = strings.ToLower(strings.TrimPrefix(name, "@@"))
	name = strings.TrimPrefix(name, "global.")
	name = strings.ReplaceAll(strings.ReplaceAll(name, "semi_sync_source", "semi_sync_master"), "semi_sync_replica", "semi_sync_slave")
	name = strings.ReplaceAll(name, "wait_for_replica_count", "wait_for_slave_count")
	switch name {
	case "server_uuid":
		return s.UUID, true
	case "server_id":
		return s.ServerID, true
	case "gtid_executed":
		return s.Executed.String(), true
	case "gtid_purged":
		return s.Purged.String(), true
	case "read_only":
		return b2i(s.ReadOnly), true
	case "super_read_only":
		return b2i(s.SuperRO), true
	case "rpl_semi_sync_master_wait_for_slave_count":
		return s.SSWait, true
	case "rpl_semi_sync_master_enabled":
		return b2i(s.SSMaster), true
	case "rpl_semi_sync_slave_enabled":
		return b2i(s.SSSlave), true
	case "rpl_semi_sync_master_timeout":
		return s.SSTimeout, true
	case "local_infile":
		return b2i(s.LocalInfile), true
	case "version":
		return s.Ver, true
	case "hostname":
		return s.Host, true
	}
	return nil, false
}

func sqlErr(code uint16, format string, a ...any) error {
	return &wire.SQLError{Code: code, Msg: fmt.Sprintf(format, a...)}
}

func (s *Server) exec(c *Conn, stmt string) (*wire.Result, error) {
	ts := tokenize(stmt)
	if len(ts) == 0 {
		return nil, sqlErr(1065, "Query was empty")
	}
	if Mutating(stmt) {
		s.event("sql", stmt)
	}
	switch {
	case match(ts, "SET", "NAMES"):
		return nil, nil
	case match(ts, "SET"):
		return nil, s.execSet(c, ts[1:])
	case match(ts, "STOP", "REPLICA|SLAVE"):
		io, sq := true, true
		for _, t := range ts[2:] {
			switch t.key() {
			case "IO_THREAD":
				sq = false
			case "SQL_THREAD":
				io = false
			}
		}
		if io {
			s.IORunning, s.ioState = false, "No"
			s.LastIOErrno, s.LastIOError = 0, ""
		}
		if sq {
			s.SQLRun = false
		}
		s.event("stop-replica", fmt.Sprintf("io=%v sql=%v", io, sq))
		return nil, nil
	case match(ts, "START", "REPLICA|SLAVE"):
		if s.Src == nil {
			return nil, sqlErr(1200, "The server is not configured as replica")
		}
		io, sq := true, true
		for _, t := range ts[2:] {
			switch t.key() {
			case "IO_THREAD":
				sq = false
			case "SQL_THREAD":
				io = false
			}
		}
		if io {
			if !s.IORunning {
				s.IORunning, s.ioState = true, "Connecting"
				s.ioNext = time.Now()
				s.stepIO(time.Now())
			}
		}
		if sq {
			s.SQLRun = true
		}
		s.event("start-replica", s.Src.Host)
		return nil, nil
	case match(ts, "RESET", "REPLICA|SLAVE"):
		if s.IORunning || s.SQLRun {
			return nil, sqlErr(3081, "This operation cannot be performed with running replication threads")
		}
		s.Relay = nil
		s.Retrieved = gtid.New()
		if len(ts) > 2 && ts[2].key() == "ALL" {
			s.Src = nil
		}
		s.event("reset-replica", "")
		return nil, nil
	case match(ts, "RESET", "MASTER"), match(ts, "RESET", "BINARY", "LOGS", "AND", "GTIDS"):
		s.Executed, s.Purged, s.Binlog = gtid.New(), gtid.New(), nil
		return nil, nil
	case match(ts, "CHANGE", "MASTER", "TO"):
		if strings.HasPrefix(s.Ver, "8.4") {
			return nil, sqlErr(1064, "You have an error in your SQL syntax; near 'MASTER TO'")
		}
		return nil, s.execChange(ts[3:])
	case match(ts, "CHANGE", "REPLICATION", "SOURCE", "TO"):
		return nil, s.execChange(ts[4:])
	case match(ts, "KILL"):
		t := ts[len(ts)-1]
		id, err := strconv.ParseUint(t.s, 10, 32)
		if err != nil {
			return nil, sqlErr(1064, "bad id")
		}
		return nil, s.kill(uint32(id))
	case match(ts, "SHOW", "REPLICAS"), match(ts, "SHOW", "SLAVE", "HOSTS"):
		return s.showReplicas(), nil
	case match(ts, "SHOW", "REPLICA|SLAVE", "STATUS"):
		return s.showReplicaStatus(), nil
	case match(ts, "SHOW", "BINARY|MASTER", "LOGS"):
		r := &wire.Result{Cols: []string{"Log_name", "File_size", "Encrypted"}}
		for _, f := range s.BinlogFiles {
			r.Rows = append(r.Rows, []any{f, 1000, "No"})
		}
		return r, nil
	case match(ts, "SHOW", "MASTER", "STATUS"), match(ts, "SHOW", "BINARY", "LOG", "STATUS"):
		if ts[1].key() == "MASTER" && strings.HasPrefix(s.Ver, "8.4") {
			return nil, sqlErr(1064, "You have an error in your SQL syntax; near 'MASTER STATUS'")
		}
		if ts[1].key() == "BINARY" && !strings.HasPrefix(s.Ver, "8.4") {
			return nil, sqlErr(1064, "You have an error in your SQL syntax; near 'LOG STATUS'")
		}
		f := ""
		if len(s.BinlogFiles) > 0 {
			f = s.BinlogFiles[len(s.BinlogFiles)-1]
		}
		return &wire.Result{Cols: []string{"File", "Position", "Binlog_Do_DB", "Binlog_Ignore_DB", "Executed_Gtid_Set"},
			Rows: [][]any{{f, 157, "", "", s.Executed.String()}}}, nil
	case match(ts, "SELECT"):
		return s.execSelect(c, stmt, ts[1:])
	}
	return nil, s.unknown(stmt)
}

func (s *Server) unknown(stmt string) error {
	s.event("unknown-sql", stmt)
	return sqlErr(1064, "simulator: unsupported statement %q", stmt)
}

func (s *Server) kill(id uint32) error {
	if e := s.KillErr[id]; e != nil {
		return e
	}
	c := s.Conns[id]
	if c == nil {
		for i, p := range s.ExtraProcs {
			if p.ID == id {
				s.ExtraProcs = append(append([]Proc{}, s.ExtraProcs[:i]...), s.ExtraProcs[i+1:]...)
				s.Killed = append(s.Killed, id)
				return nil
			}
		}
		return sqlErr(1094, "Unknown thread id: %d", id)
	}
	s.Killed = append(s.Killed, id)
	s.event("kill", c.User)
	c.BusyUntil = time.Time{}
	delete(s.Conns, id)
	c.close()
	return nil
}

func (s *Server) execSet(c *Conn, ts []token) error {
	for len(ts) > 0 {
		if match(ts, ",") {
			ts = ts[1:]
			continue
		}
		if match(ts, "GLOBAL") || match(ts, "PERSIST") {
			ts = ts[1:]
		}
		if len(ts) < 3 || ts[1].key() != "=" {
			return s.unknown("SET " + fmt.Sprint(ts))
		}
		name := strings.ToLower(ts[0].s)
		name = strings.TrimPrefix(strings.TrimPrefix(name, "@@"), "global.")
		name = strings.ReplaceAll(strings.ReplaceAll(name, "semi_sync_source", "semi_sync_master"), "semi_sync_replica", "semi_sync_slave")
		name = strings.ReplaceAll(name, "wait_for_replica_count", "wait_for_slave_count")
		val := ts[2]
		ts = ts[3:]
		on, isBool := truthy(val)
		num, numErr := strconv.ParseInt(val.s, 10, 64)
		switch name {
		case "super_read_only", "read_only":
			if !isBool {
				return sqlErr(1231, "Variable '%s' can't be set to the value of '%s'", name, val.s)
			}
			if on {
				if (name == "super_read_only" && s.SuperRO) || (name == "read_only" && s.ReadOnly) {
					continue
				}
				s.roPending++
				_, dead := s.wait(time.Time{}, func() bool {
					if len(s.Pending) > 0 {
						return false
					}
					now := time.Now()
					for _, x := range s.Conns {
						if x.BusyUntil.After(now) {
							return false
						}
					}
					return true
				})
				if dead {
					return wire.ErrDrop
				}
				s.roPending--
				s.ReadOnly = true
				if name == "super_read_only" {
					s.SuperRO = true
				}
				s.event("readonly", name)
			} else {
				s.SuperRO = false
				if name == "read_only" {
					was := s.ReadOnly
					s.ReadOnly = false
					if was {
						s.event("writable", "")
					} else {
						s.event("writable-noop", "")
					}
				}
			}
		case "rpl_semi_sync_master_enabled":
			if !isBool {
				return sqlErr(1231, "bad value")
			}
			s.SSMaster = on
			if !on {
				s.stepAcks()
			}
		case "rpl_semi_sync_slave_enabled":
			if !isBool {
				return sqlErr(1231, "bad value")
			}
			s.SSSlave = on
		case "rpl_semi_sync_master_wait_for_slave_count":
			if numErr != nil || num < 1 {
				num = 1
			}
			s.SSWait = int(num)
			s.stepAcks()
		case "rpl_semi_sync_master_timeout":
			if numErr != nil {
				return sqlErr(1232, "Incorrect argument type")
			}
			s.SSTimeout = num
		case "local_infile":
			s.LocalInfile = on
		default:
			return s.unknown("SET " + name)
		}
	}
	return nil
}

func (s *Server) execChange(ts []token) error {
	if s.IORunning || s.SQLRun {
		return sqlErr(3021, "This operation cannot be performed with a running replica")
	}
	src := &Source{Port: 3306}
	if s.Src != nil {
		cp := *s.Src
		src = &cp
	}
	for len(ts) > 0 {
		if match(ts, ",") {
			ts = ts[1:]
			continue
		}
		if len(ts) < 3 || ts[1].key() != "=" {
			return s.unknown("CHANGE " + fmt.Sprint(ts))
		}
		k := strings.TrimPrefix(strings.TrimPrefix(ts[0].key(), "MASTER_"), "SOURCE_")
		v := ts[2]
		ts = ts[3:]
		switch k {
		case "HOST":
			src.Host = v.s
		case "PORT":
			n, err := strconv.Atoi(v.s)
			if err != nil {
				return sqlErr(1064, "bad port")
			}
			src.Port = n
		case "USER":
			src.User = v.s
		case "PASSWORD":
			src.Password = v.s
		case "AUTO_POSITION":
			src.Auto, _ = truthy(v)
		case "GET_MASTER_PUBLIC_KEY", "GET_SOURCE_PUBLIC_KEY":
			src.GetKey, _ = truthy(v)
		case "CONNECT_RETRY", "RETRY_COUNT", "SSL", "HEARTBEAT_PERIOD":
		default:
			return s.unknown("CHANGE " + k)
		}
	}
	if s.Src == nil || s.Src.Host != src.Host || s.Src.Port != src.Port {
		s.Relay = nil
		s.Retrieved = gtid.New()
	}
	s.Src = src
	s.event("change-source", src.Host)
	return nil
}

func (s *Server) execSelect(c *Conn, stmt string, ts []token) (*wire.Result, error) {
	up := strings.ToUpper(stmt)
	switch {
	case strings.Contains(up, "PERFORMANCE_SCHEMA.GLOBAL_STATUS"):
		if strings.Contains(up, "RPL_SEMI_SYNC_MASTER_WAIT_SESSIONS") || strings.Contains(up, "RPL_SEMI_SYNC_SOURCE_WAIT_SESSIONS") {
			return &wire.Result{Cols: []string{"VARIABLE_VALUE"}, Rows: [][]any{{s.WaitSessions()}}}, nil
		}
		return &wire.Result{Cols: []string{"VARIABLE_VALUE"}}, nil
	case strings.Contains(up, "PERFORMANCE_SCHEMA.CLONE_STATUS"):
		r := &wire.Result{Cols: []string{ts[0].s}}
		if s.Clone != "" {
			r.Rows = [][]any{{s.Clone}}
		}
		return r, nil
	case strings.Contains(up, "INFORMATION_SCHEMA.PROCESSLIST"), strings.Contains(up, "PERFORMANCE_SCHEMA.PROCESSLIST"):
		return s.processList(stmt, ts)
	case match(ts, "GTID_SUBSET|GTID_SUBTRACT", "(") && len(ts) == 6 && ts[3].key() == "," && ts[5].key() == ")":
		var set [2]gtid.Set
		for i, t := range []token{ts[2], ts[4]} {
			str := t.s
			if !t.str {
				v, ok := s.variable(t.s)
				if !ok {
					return nil, sqlErr(1193, "Unknown system variable '%s'", t.s)
				}
				str = fmt.Sprint(v)
			}
			x, err := gtid.Parse(str)
			if err != nil {
				return nil, sqlErr(1772, "%s", err.Error())
			}
			set[i] = x
		}
		if ts[0].key() == "GTID_SUBSET" {
			return one("x", b2i(set[0].SubsetOf(set[1]))), nil
		}
		return one("x", set[0].Minus(set[1]).String()), nil
	case match(ts, "WAIT_FOR_EXECUTED_GTID_SET", "(", "'"):
		set, err := gtid.Parse(ts[2].s)
		if err != nil {
			return nil, sqlErr(1772, "%s", err.Error())
		}
		var deadline time.Time
		if len(ts) > 4 && ts[3].key() == "," {
			sec, err := strconv.ParseFloat(ts[4].s, 64)
			if err != nil {
				return nil, sqlErr(1210, "bad timeout")
			}
			if sec > 0 {
				deadline = time.Now().Add(time.Duration(sec * float64(time.Second)))
			}
		}
		s.Waited = append(s.Waited, set.String())
		s.event("wait-gtid", set.String())
		ok, dead := s.wait(deadline, func() bool { return set.SubsetOf(s.Executed) })
		if dead {
			return nil, wire.ErrDrop
		}
		s.event("waited-gtid", fmt.Sprintf("%v %s", ok, set.String()))
		return one("x", b2i(!ok)), nil
	case match(ts, "SUBSTRING_INDEX", "(", "VERSION", "(", ")"):
		f := strings.Split(s.Ver, ".")
		return one("x", f[0]+"."+f[1]), nil
	case match(ts, "VERSION", "(", ")"):
		return one("x", s.Ver), nil
	case match(ts, "1"):
		return one("1", 1), nil
	}
	// SELECT @@a [AS x], @@b ...
	r := &wire.Result{Rows: [][]any{nil}}
	for len(ts) > 0 {
		if match(ts, ",") {
			ts = ts[1:]
			continue
		}
		if !strings.HasPrefix(ts[0].s, "@@") {
			return nil, s.unknown(stmt)
		}
		v, ok := s.variable(ts[0].s)
		if !ok {
			return nil, sqlErr(1193, "Unknown system variable '%s'", ts[0].s)
		}
		name := ts[0].s
		ts = ts[1:]
		if match(ts, "AS") {
			name = ts[1].s
			ts = ts[2:]
		}
		r.Cols = append(r.Cols, name)
		r.Rows[0] = append(r.Rows[0], v)
	}
	return r, nil
}

func one(col string, v any) *wire.Result {
	return &wire.Result{Cols: []string{col}, Rows: [][]any{{v}}}
}

// Processes is the process list.
func (s *Server) Processes() []Proc {
	var ps []Proc
	for _, c := range sortedConns(s.Conns) {
		ps = append(ps, Proc{c.ID, c.User, c.Host})
	}
	if s.IORunning {
		ps = append(ps, Proc{4000001, "system user", ""})
	}
	if s.SQLRun {
		ps = append(ps, Proc{4000002, "system user", ""})
	}
	ps = append(ps, Proc{5, "event_scheduler", "localhost"})
	return append(ps, s.ExtraProcs...)
}

func (s *Server) processList(stmt string, ts []token) (*wire.Result, error) {
	r := &wire.Result{}
	var get []func(Proc) any
	i := 0
	for ; i < len(ts) && ts[i].key() != "FROM"; i++ {
		if ts[i].key() == "," {
			continue
		}
		switch ts[i].key() {
		case "ID":
			get = append(get, func(p Proc) any { return p.ID })
		case "USER":
			get = append(get, func(p Proc) any { return p.User })
		case "HOST":
			get = append(get, func(p Proc) any { return p.Host })
		default:
			return nil, s.unknown(stmt)
		}
		r.Cols = append(r.Cols, ts[i].s)
	}
	if i+2 < len(ts) {
		return nil, s.unknown(stmt) // WHERE clauses are not supported
	}
	for _, p := range s.Processes() {
		var row []any
		for _, g := range get {
			row = append(row, g(p))
		}
		r.Rows = append(r.Rows, row)
	}
	return r, nil
}

func (s *Server) showReplicas() *wire.Result {
	r := &wire.Result{Cols: []string{"Server_Id", "Host", "Port", "Source_Id", "Replica_UUID"}}
	for _, x := range s.Connected() {
		if s.HideReplicas[x.ServerID] {
			continue
		}
		r.Rows = append(r.Rows, []any{x.ServerID, x.Host, 3306, s.ServerID, x.UUID})
	}
	for _, id := range s.ExtraReplicas {
		r.Rows = append(r.Rows, []any{id, "x", 3306, s.ServerID, "00000000-0000-0000-0000-000000000000"})
	}
	return r
}

func (s *Server) showReplicaStatus() *wire.Result {
	sqlState := "No"
	if s.SQLRun {
		sqlState = "Yes"
	}
	type cv struct {
		c string
		v any
	}
	src := s.Src
	if src == nil {
		src = &Source{}
	}
	cols := []cv{
		{"Replica_IO_State", ""}, {"Source_Host", src.Host}, {"Source_User", src.User}, {"Source_Port", src.Port},
		{"Connect_Retry", 60}, {"Source_Log_File", "binlog.000001"}, {"Read_Source_Log_Pos", 1}, {"Relay_Log_File", "relay.000001"},
		{"Relay_Log_Pos", 1}, {"Relay_Source_Log_File", "binlog.000001"}, {"Replica_IO_Running", s.IOState()}, {"Replica_SQL_Running", sqlState},
		{"Replicate_Do_DB", ""}, {"Replicate_Ignore_DB", ""}, {"Replicate_Do_Table", ""}, {"Replicate_Ignore_Table", ""},
		{"Replicate_Wild_Do_Table", ""}, {"Replicate_Wild_Ignore_Table", ""}, {"Last_Errno", 0}, {"Last_Error", ""}, {"Skip_Counter", 0},
		{"Exec_Source_Log_Pos", 1}, {"Relay_Log_Space", 1}, {"Until_Condition", "None"}, {"Until_Log_File", ""}, {"Until_Log_Pos", 0},
		{"Source_SSL_Allowed", "No"}, {"Source_SSL_CA_File", ""}, {"Source_SSL_CA_Path", ""}, {"Source_SSL_Cert", ""}, {"Source_SSL_Cipher", ""},
		{"Source_SSL_Key", ""}, {"Seconds_Behind_Source", s.SecondsBehind()}, {"Source_SSL_Verify_Server_Cert", "No"},
		{"Last_IO_Errno", s.LastIOErrno}, {"Last_IO_Error", s.LastIOError}, {"Last_SQL_Errno", 0}, {"Last_SQL_Error", ""},
		{"Replicate_Ignore_Server_Ids", ""}, {"Source_Server_Id", 0}, {"Source_UUID", ""}, {"Source_Info_File", "mysql.slave_master_info"},
		{"SQL_Delay", 0}, {"SQL_Remaining_Delay", nil}, {"Replica_SQL_Running_State", ""}, {"Source_Retry_Count", 86400}, {"Source_Bind", ""},
		{"Last_IO_Error_Timestamp", ""}, {"Last_SQL_Error_Timestamp", ""}, {"Source_SSL_Crl", ""}, {"Source_SSL_Crlpath", ""},
		{"Retrieved_Gtid_Set", s.Retrieved.String()}, {"Executed_Gtid_Set", s.Executed.String()}, {"Auto_Position", b2i(src.Auto)},
		{"Replicate_Rewrite_DB", ""}, {"Channel_Name", ""}, {"Source_TLS_Version", ""}, {"Source_public_key_path", ""},
		{"Get_Source_public_key", b2i(src.GetKey)}, {"Network_Namespace", ""},
	}
	r := &wire.Result{}
	var row []any
	for _, x := range cols {
		r.Cols = append(r.Cols, x.c)
		row = append(row, x.v)
	}
	if s.Src != nil {
		r.Rows = [][]any{row}
	}
	return r
}
