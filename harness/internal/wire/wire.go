// Package wire is a minimal MySQL server speaking the client/server protocol
// (handshake v10, COM_QUERY with the text protocol, COM_PING, COM_QUIT).
package wire

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"io"
	"net"
)

// SQLError is sent to the client as an ERR packet.
type SQLError struct {
	Code uint16
	Msg  string
}

func (e *SQLError) Error() string { return fmt.Sprintf("Error %d: %s", e.Code, e.Msg) }

// Result is the result of a query. Cols == nil means an OK packet.
type Result struct {
	Cols []string
	Rows [][]any // nil = NULL; everything else formatted with fmt.Sprint (bool as 0/1)
}

// Handler serves one connection.
type Handler interface {
	// Auth returns the password of user, false if the user is unknown.
	Password(user string) (string, bool)
	// Query executes one statement.  Returning errDrop closes the connection without an answer.
	Query(q string) (*Result, error)
	// BeforeReply is called before a reply is written. false: close the connection silently.
	BeforeReply() bool
	Version() string
	ConnID() uint32
	// Authenticated is called once the user logged in.
	Authenticated(user string)
}

// ErrDrop makes the server close the connection without answering.
var ErrDrop = fmt.Errorf("drop connection")

type conn struct {
	c   net.Conn
	seq byte
}

func (c *conn) read() ([]byte, error) {
	var out []byte
	for {
		var hdr [4]byte
		if _, err := io.ReadFull(c.c, hdr[:]); err != nil {
			return nil, err
		}
		n := int(hdr[0]) | int(hdr[1])<<8 | int(hdr[2])<<16
		c.seq = hdr[3] + 1
		buf := make([]byte, n)
		if _, err := io.ReadFull(c.c, buf); err != nil {
			return nil, err
		}
		out = append(out, buf...)
		if n < 0xffffff {
			return out, nil
		}
	}
}

type packetBuf struct {
	c   *conn
	out []byte
}

func (p *packetBuf) add(b []byte) {
	n := len(b)
	p.out = append(p.out, byte(n), byte(n>>8), byte(n>>16), p.c.seq)
	p.out = append(p.out, b...)
	p.c.seq++
}

func (p *packetBuf) flush() error {
	_, err := p.c.c.Write(p.out)
	return err
}

func lenenc(b []byte, n int) []byte {
	switch {
	case n < 251:
		return append(b, byte(n))
	case n < 1<<16:
		return append(b, 0xfc, byte(n), byte(n>>8))
	case n < 1<<24:
		return append(b, 0xfd, byte(n), byte(n>>8), byte(n>>16))
	}
	b = append(b, 0xfe)
	return binary.LittleEndian.AppendUint64(b, uint64(n))
}

func lenencStr(b []byte, s string) []byte { return append(lenenc(b, len(s)), s...) }

const caps = 0x00000001 | 0x00000002 | 0x00000004 | 0x00000008 | // long pw, found rows, long flag, connect with db
	0x00000200 | 0x00002000 | 0x00008000 | // protocol41, transactions, secure conn
	0x00080000 // plugin auth

func scramble(salt []byte, pw string) []byte {
	if pw == "" {
		return nil
	}
	h1 := sha1.Sum([]byte(pw))
	h2 := sha1.Sum(h1[:])
	h := sha1.New()
	h.Write(salt)
	h.Write(h2[:])
	h3 := h.Sum(nil)
	for i := range h3 {
		h3[i] ^= h1[i]
	}
	return h3
}

func okPacket() []byte  { return []byte{0, 0, 0, 2, 0, 0, 0} }
func eofPacket() []byte { return []byte{0xfe, 0, 0, 2, 0} }
func errPacket(e *SQLError) []byte {
	b := []byte{0xff, byte(e.Code), byte(e.Code >> 8), '#'}
	b = append(b, "HY000"...)
	return append(b, e.Msg...)
}

// Serve runs the protocol until the connection ends.
func Serve(nc net.Conn, h Handler) {
	defer nc.Close()
	c := &conn{c: nc}
	salt := []byte("abcdefgh12345678ijkl")
	b := []byte{10}
	b = append(b, h.Version()...)
	b = append(b, 0)
	b = binary.LittleEndian.AppendUint32(b, h.ConnID())
	b = append(b, salt[:8]...)
	b = append(b, 0, byte(caps&0xff), byte(caps>>8&0xff), 45, 2, 0, byte(caps>>16&0xff), byte(caps>>24&0xff), 21)
	b = append(b, make([]byte, 10)...)
	b = append(b, salt[8:]...)
	b = append(b, 0)
	b = append(b, "mysql_native_password"...)
	b = append(b, 0)
	if !h.BeforeReply() {
		return
	}
	p := &packetBuf{c: c}
	p.add(b)
	if p.flush() != nil {
		return
	}
	resp, err := c.read()
	if err != nil || len(resp) < 33 {
		return
	}
	rest := resp[32:]
	i := 0
	for i < len(rest) && rest[i] != 0 {
		i++
	}
	user := string(rest[:i])
	rest = rest[i+1:]
	var auth []byte
	if len(rest) > 0 {
		n := int(rest[0])
		auth = rest[1 : 1+n]
	}
	pw, ok := h.Password(user)
	if !h.BeforeReply() {
		return
	}
	p = &packetBuf{c: c}
	if !ok || string(auth) != string(scramble(salt, pw)) {
		p.add(errPacket(&SQLError{1045, fmt.Sprintf("Access denied for user '%s'", user)}))
		_ = p.flush()
		return
	}
	h.Authenticated(user)
	p.add(okPacket())
	if p.flush() != nil {
		return
	}
	for {
		pkt, err := c.read()
		if err != nil || len(pkt) == 0 {
			return
		}
		p := &packetBuf{c: c}
		switch pkt[0] {
		case 1: // quit
			return
		case 14: // ping
			p.add(okPacket())
		case 3:
			res, err := h.Query(string(pkt[1:]))
			if err == ErrDrop {
				return
			}
			if err != nil {
				se, ok := err.(*SQLError)
				if !ok {
					se = &SQLError{1105, err.Error()}
				}
				p.add(errPacket(se))
				break
			}
			if res == nil || res.Cols == nil {
				p.add(okPacket())
				break
			}
			p.add(lenenc(nil, len(res.Cols)))
			for _, col := range res.Cols {
				d := lenencStr(nil, "def")
				d = lenencStr(d, "")
				d = lenencStr(d, "")
				d = lenencStr(d, "")
				d = lenencStr(d, col)
				d = lenencStr(d, col)
				d = append(d, 0x0c, 45, 0, 0, 1, 0, 0, 0xfd, 0, 0, 0, 0, 0)
				p.add(d)
			}
			p.add(eofPacket())
			for _, row := range res.Rows {
				var d []byte
				for _, v := range row {
					switch x := v.(type) {
					case nil:
						d = append(d, 0xfb)
					case bool:
						if x {
							d = lenencStr(d, "1")
						} else {
							d = lenencStr(d, "0")
						}
					default:
						d = lenencStr(d, fmt.Sprint(x))
					}
				}
				p.add(d)
			}
			p.add(eofPacket())
		default:
			p.add(errPacket(&SQLError{1047, fmt.Sprintf("Unknown command %d", pkt[0])}))
		}
		if !h.BeforeReply() {
			return
		}
		if p.flush() != nil {
			return
		}
	}
}
