package fakemongo

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"

	"go.mongodb.org/mongo-driver/bson"
)

// Action tells the server what to do with a command.
type Action struct {
	Fail int    // answer with this error code instead of executing the command
	Name string // the name of the code
	Late bool   // ... after executing it
	Drop int    // 1: close the connection before executing the command, 2: after
}

// Server listens for the connections of one client.
type Server struct {
	DB *DB
	// Hook is called before a command is executed ("op", with the name of the
	// command) and, if the command affects several documents, before each of
	// them ("doc"). It may block.
	Hook func(kind, name string) Action
	// Seen is told about every command that arrives.
	Seen func(cmd bson.D)

	l     net.Listener
	mux   sync.Mutex
	conns map[net.Conn]bool
	down  bool
}

// NewServer starts a server for a database at a socket.
func NewServer(db *DB, network, addr string) (*Server, error) {
	l, err := net.Listen(network, addr)
	if err != nil {
		return nil, err
	}
	s := &Server{DB: db, l: l, conns: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mux.Lock()
			if s.down {
				s.mux.Unlock()
				c.Close()
				continue
			}
			s.conns[c] = true
			s.mux.Unlock()
			go s.serve(c)
		}
	}()
	return s, nil
}

// Close stops the server.
func (s *Server) Close() {
	s.l.Close()
	s.Down(true)
}

// Down makes the server refuse and close connections.
func (s *Server) Down(down bool) {
	s.mux.Lock()
	s.down = down
	if down {
		for c := range s.conns {
			c.Close()
		}
		s.conns = map[net.Conn]bool{}
	}
	s.mux.Unlock()
}

func (s *Server) serve(c net.Conn) {
	defer func() {
		c.Close()
		s.mux.Lock()
		delete(s.conns, c)
		s.mux.Unlock()
	}()
	for {
		if err := s.message(c); err != nil {
			return
		}
	}
}

func u32(b []byte) int { return int(int32(binary.LittleEndian.Uint32(b))) }

func p32(b []byte, v int) []byte { return binary.LittleEndian.AppendUint32(b, uint32(int32(v))) }

var errDrop = errors.New("connection dropped")

func (s *Server) message(c net.Conn) error {
	var h [16]byte
	if _, err := io.ReadFull(c, h[:]); err != nil {
		return err
	}
	n := u32(h[:]) - 16
	if n < 0 || n > 64<<20 {
		return errors.New("bad length")
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(c, b); err != nil {
		return err
	}
	id := u32(h[4:])
	switch op := u32(h[12:]); op {
	case 2004: // OP_QUERY, used by the first hello
		i := bytes.IndexByte(b[4:], 0)
		if i < 0 {
			return errors.New("bad query")
		}
		var cmd bson.D
		if err := bson.Unmarshal(b[4+i+1+8:], &cmd); err != nil {
			return err
		}
		r, err := s.command(cmd)
		if err != nil {
			return err
		}
		d, err := bson.Marshal(r)
		if err != nil {
			return err
		}
		m := p32(nil, 16+20+len(d))
		m = p32(p32(p32(m, 1), id), 1)
		m = p32(m, 8) // await capable
		m = append(m, make([]byte, 12)...)
		m = p32(m, 1)
		_, err = c.Write(append(m, d...))
		return err
	case 2013: // OP_MSG
		flags := u32(b)
		b = b[4:]
		if flags&1 != 0 {
			b = b[:len(b)-4]
		}
		var cmd bson.D
		seq := bson.D{}
		for len(b) > 0 {
			kind := b[0]
			b = b[1:]
			size := u32(b)
			if size < 5 || size > len(b) {
				return errors.New("bad section")
			}
			sec := b[:size]
			b = b[size:]
			if kind == 0 {
				if err := bson.Unmarshal(sec, &cmd); err != nil {
					return err
				}
				continue
			}
			i := bytes.IndexByte(sec[4:], 0)
			name := string(sec[4 : 4+i])
			sec = sec[4+i+1:]
			var l bson.A
			for len(sec) > 0 {
				k := u32(sec)
				var d bson.D
				if err := bson.Unmarshal(sec[:k], &d); err != nil {
					return err
				}
				l = append(l, d)
				sec = sec[k:]
			}
			seq = append(seq, bson.E{Key: name, Value: l})
		}
		r, err := s.command(append(cmd, seq...))
		if err != nil {
			return err
		}
		if flags&2 != 0 {
			return nil
		}
		d, err := bson.Marshal(r)
		if err != nil {
			return err
		}
		m := p32(nil, 16+4+1+len(d))
		m = p32(p32(p32(m, 1), id), 2013)
		m = p32(m, 0)
		m = append(m, 0)
		_, err = c.Write(append(m, d...))
		return err
	default:
		return fmt.Errorf("unknown opcode %d", op)
	}
}

func failed(f *failure) bson.D {
	return bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: f.msg}, {Key: "code", Value: int32(f.code)}, {Key: "codeName", Value: f.name}}
}

func ok(d ...bson.E) bson.D { return append(bson.D(d), bson.E{Key: "ok", Value: 1.0}) }

// quiet commands are answered without asking the hook.
var quiet = map[string]bool{"hello": true, "isMaster": true, "ismaster": true, "ping": false, "endSessions": true,
	"buildInfo": true, "saslStart": true, "killCursors": true}

func (s *Server) command(cmd bson.D) (r bson.D, err error) {
	name := cmd[0].Key
	act := Action{}
	doc := func() {}
	if !quiet[name] && name != "ping" && s.Seen != nil {
		s.Seen(cmd)
	}
	if !quiet[name] && s.Hook != nil {
		act = s.Hook("op", name)
		doc = func() { s.Hook("doc", name) }
	}
	if act.Drop == 1 {
		return nil, errDrop
	}
	if act.Fail != 0 && !act.Late {
		return failed(fail(act.Fail, act.Name, "injected failure")), nil
	}
	r = s.DB.execute(name, cmd, doc)
	if act.Drop == 2 {
		return nil, errDrop
	}
	if act.Fail != 0 {
		return failed(fail(act.Fail, act.Name, "injected failure")), nil
	}
	return r, nil
}
