package redis

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"io"
	"math"
	"net"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache/redis/intset"
	"github.com/liujiangwei/xxcache/redis/rdb"
	"github.com/liujiangwei/xxcache/redis/ziplist"
	"github.com/liujiangwei/xxcache/redis/zipmap"
)

func rd(b ...byte) *bufio.Reader { return bufio.NewReader(bytes.NewReader(b)) }

type trickle struct{ r io.Reader }

func (t trickle) Read(p []byte) (int, error) {
	if len(p) > 3 {
		p = p[:3]
	}
	return t.r.Read(p)
}

func TestD01Len32(t *testing.T) {
	if n, _, err := rdb.LoadLen(rd(0x80, 0, 1, 0, 0)); n != 65536 || err != nil {
		t.Fatal(n, err)
	}
}
func TestD01Len14Short(t *testing.T) { rdb.LoadLen(rd(0x40)) }
func TestD01Int16(t *testing.T) {
	if s, _ := rdb.LoadString(rd(0xc1, 0xff, 0xff)); s != "-1" {
		t.Fatal(s)
	}
}
func TestD01Double(t *testing.T) {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, math.Float64bits(1.5))
	if f, _ := rdb.LoadBinaryDouble(rd(b...)); f != 1.5 {
		t.Fatal(f)
	}
	if f, _ := rdb.LoadDouble(rd(254)); !math.IsInf(f, 1) {
		t.Fatal(f)
	}
}
func TestD02Trickle(t *testing.T) {
	r := bufio.NewReader(trickle{strings.NewReader("\x0ahelloworld")})
	if s, err := rdb.LoadString(r); s != "helloworld" || err != nil {
		t.Fatalf("%q %v", s, err)
	}
}
func TestD02Conn(t *testing.T) {
	c := &Conn{Reader: bufio.NewReader(trickle{strings.NewReader("$10\r\nhelloworld\r\n")})}
	if m, err := c.Recv(); err != nil || m.String() != "helloworld" {
		t.Fatal(m, err)
	}
}
func TestD03(t *testing.T) {
	if s := intset.Load("\x02\x00\x00\x00\x01\x00\x00\x00\xff\xff"); s[0] != -1 {
		t.Fatal(s)
	}
}
func TestD04(t *testing.T) {
	if s := ziplist.Load("\x0e\x00\x00\x00\x0a\x00\x00\x00\x01\x00\x00\xc0\x39\x30\xff"); s[0] != "12345" {
		t.Fatalf("%q", s)
	}
	long := strings.Repeat("x", 300)
	if s := ziplist.Load("\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x41\x2c" + long + "\xff"); s[0] != long {
		t.Fatalf("%q", s)
	}
}
func TestD05(t *testing.T) {
	m := zipmap.Load("\x02\x03foo\x03\x00bar\x05hello\x05\x00world\xff")
	if len(m) != 2 || m["hello"] != "world" {
		t.Fatalf("%q", m)
	}
}
func load(t *testing.T, body string) ([]string, error) {
	f := t.TempDir() + "/d.rdb"
	os.WriteFile(f, []byte("REDIS0009"+body), 0600)
	r := &Replication{RdbFile: f, Messages: make(chan ReplicationMessage, 100), Err: make(chan error, 10)}
	err := r.Load()
	var out []string
	for len(r.Messages) > 0 {
		out = append(out, (<-r.Messages).Message.String())
	}
	return out, err
}
func TestR01List(t *testing.T) {
	if m, _ := load(t, "\x01\x01l\x02\x01a\x01b\xff"); strings.ToLower(m[0]) != "rpush l a b" {
		t.Fatal(m)
	}
}
func TestR01Hash(t *testing.T) {
	if m, _ := load(t, "\x04\x01h\x01\x01f\x01v\xff"); strings.ToLower(m[0]) != "hmset h f v" {
		t.Fatal(m)
	}
}
func TestR01ZSet(t *testing.T) {
	if m, _ := load(t, "\x03\x01z\x01\x01m\x011\xff"); strings.ToLower(m[0]) != "zadd z 1 m" {
		t.Fatal(m)
	}
}
func TestR02(t *testing.T) {
	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, 2000000000)
	m, _ := load(t, "\xfd"+string(b)+"\x00\x01k\x01v\xff")
	if m[1] != "pExpireAt k 2000000000000" {
		t.Fatal(m)
	}
}
func TestR03Unknown(t *testing.T) {
	if m, err := load(t, "\x12\x01k\xff"); err == nil {
		t.Fatal("unknown type accepted", m)
	}
}
func TestR03Stream(t *testing.T) {
	if _, err := load(t, "\x0f\x01k\x00\x00\x01z\x01v\xff"); err == nil {
		t.Fatal("unsupported type reported as success")
	}
}
func TestR04(t *testing.T) {
	load(t, "\x0a\x01k\x05abcde\xff")
}
func TestR06(t *testing.T) {
	a, b := net.Pipe()
	r := &Replication{conn: NewConn(a), Messages: make(chan ReplicationMessage, 10), Err: make(chan error, 10)}
	go r.WaitForMessage()
	b.Write([]byte("*2\r\n$6\r\nSELECT\r\n$1\r\n3\r\n*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$1\r\nv\r\n"))
	if m := <-r.Messages; m.Database != 3 {
		t.Fatal(m)
	}
}
func TestR08(t *testing.T) {
	a, b := net.Pipe()
	go func() { buf := make([]byte, 100); b.Read(buf); b.Write([]byte("-ERR no\r\n")) }()
	r := &Replication{conn: NewConn(a), RdbFile: t.TempDir() + "/x"}
	if r.sync() == nil {
		t.Fatal("an error reply was saved as a snapshot")
	}
}
func TestN01(t *testing.T) {
	var p Pool
	p.Init(1, "127.0.0.1:1")
	p.Get(context.Background())
	done := make(chan int)
	go func() { p.Get(context.Background()); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Second):
		t.Fatal("pool locked for ever after a failed dial")
	}
}
func server(t *testing.T, reply func(req string, n int) string) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	n := 0
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				buf := make([]byte, 4096)
				for {
					k, err := c.Read(buf)
					if err != nil {
						return
					}
					n++
					s := reply(string(buf[:k]), n)
					if s == "" {
						c.Close()
						return
					}
					c.Write([]byte(s))
				}
			}()
		}
	}()
	return l.Addr().String()
}
func TestN02(t *testing.T) {
	c := NewClient(Option{PoolSize: 1, Addr: server(t, func(r string, n int) string {
		if n == 1 {
			return "?bad\r\n"
		}
		return "$1\r\nv\r\n"
	})})
	c.Get("a")
	c.connPool.addr = server(t, func(r string, n int) string { return "$1\r\nw\r\n" })
	if v, err := c.Get("b"); v != "w" {
		t.Fatal("connection reused after a failed exchange", v, err)
	}
}
func TestN03(t *testing.T) {
	c := NewClient(Option{Addr: server(t, func(r string, n int) string { return "$3\r\n1.5\r\n" })})
	if f, err := c.IncrByFloat("k", 1); f != 1.5 || err != nil {
		t.Error(f, err)
	}
	if n, err := c.StrLen("k"); err == nil {
		t.Error("wrong kind of reply accepted", n)
	}
	c = NewClient(Option{Addr: server(t, func(r string, n int) string { return ":1\r\n" })})
	if _, err := c.SetNX("k", "v"); err != nil {
		t.Error(err)
	}
}
func TestN04(t *testing.T) {
	var got string
	c := NewClient(Option{Addr: server(t, func(r string, n int) string { got = r; return "+OK\r\n" })})
	c.SetEX("k", "v", 7)
	if !strings.EqualFold(got, "*4\r\n$5\r\nsetex\r\n$1\r\nk\r\n$1\r\n7\r\n$1\r\nv\r\n") {
		t.Fatalf("%q", got)
	}
}
func TestN06(t *testing.T) {
	c := &Conn{Reader: rd([]byte("$-2\r\n")...)}
	if _, err := c.Recv(); err == nil {
		t.Fatal("accepted")
	}
}
func TestN06Long(t *testing.T) {
	s := strings.Repeat("x", 5000)
	c := &Conn{Reader: rd([]byte("+" + s + "\r\n")...)}
	if m, _ := c.Recv(); m.String() != s {
		t.Fatal(len(m.String()))
	}
}

var _ = strconv.Itoa

// a number cut short by the end of the stream must not be taken for a reply
func TestN06Truncated(t *testing.T) {
	c := Conn{Reader: bufio.NewReader(strings.NewReader(":12"))} // of ":123\r\n"
	if m, err := c.Recv(); err == nil {
		t.Fatal(m, err)
	}
}

// the free length of a zipmap value is one byte, even 254
func TestD05Free(t *testing.T) {
	s := "\x02\x01k\x01\xfev" + strings.Repeat("x", 254) + "\x01l\x01\x00w\xff"
	if h := zipmap.Load(s); len(h) != 2 || h["k"] != "v" || h["l"] != "w" {
		t.Fatalf("%q", h)
	}
}

// a stream entry announcing 2^63 elements must not spin
func TestR04Stream(t *testing.T) {
	_, err := load(t, "\x0f\x01k\x81\x7f\xff\xff\xff\xff\xff\xff\xff")
	if err == nil {
		t.Fatal("a stream is unsupported")
	}
}

// A reply that could not be streamed to its writer leaves the connection out
// of step; the pool must not hand it out again.
func TestN02StreamedReply(t *testing.T) {
	client, server := net.Pipe()
	go func() {
		_, _ = server.Write([]byte("$3\r\nab"))
		_ = server.Close()
	}()
	c := NewConn(client)
	if _, _, err := c.ReadWithWriter(io.Discard); err == nil {
		t.Fatal("no error for a truncated reply")
	}
	pool := &Pool{}
	pool.Init(1, "127.0.0.1:1")
	pool.Put(c)
	pool.size = 1
	if got, err := pool.Get(context.Background()); err == nil {
		t.Fatalf("handed out the connection %p again", got)
	}
}

func TestR03IntSetWidth(t *testing.T) {
	if m, err := load(t, "\x0b\x01s\x09\x03\x00\x00\x00\x01\x00\x00\x00\x07\xff"); err == nil {
		t.Fatal(m)
	}
}

func TestR03OddPairs(t *testing.T) {
	for _, op := range []string{"\x0c", "\x0d"} {
		z := "\x0e\x00\x00\x00\x0a\x00\x00\x00\x01\x00\x00\x01a\xff"
		if m, err := load(t, op+"\x01z"+string(rune(len(z)))+z+"\xff"); err == nil {
			t.Fatal(m)
		}
	}
}

func TestT01PoolClose(t *testing.T) {
	var p Pool
	p.Init(2, server(t, func(r string, n int) string { return "+OK\r\n" }))
	c, err := p.Get(context.Background())
	if err != nil {
		t.Fatal(err)
	}
	p.Put(c)
	done := make(chan error, 1)
	go func() { done <- p.Close() }()
	select {
	case err = <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("Close does not return")
	}
	if c, err = p.Get(context.Background()); err != nil || c == nil {
		t.Fatal("no connection after Close")
	}
}

// run with -race: one goroutine sends (the acknowledgements) while another
// receives (the replication stream), and the connection breaks under both
func TestS01BrokenTwice(t *testing.T) {
	for i := 0; i < 20; i++ {
		a, b := net.Pipe()
		c := NewConn(a)
		done := make(chan bool, 2)
		go func() { _, _ = c.Recv(); done <- true }()
		go func() { _ = c.Send(SimpleStringMessage("x")); done <- true }()
		_ = b.Close()
		<-done
		<-done
	}
}
