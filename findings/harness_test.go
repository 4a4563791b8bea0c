package server

// Shared harness of the defect demonstrations (and of the seeded-bug demos):
// runs a real server on loopback with its files in a scratch directory.

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/IfanTsai/metis/config"
	"github.com/IfanTsai/metis/log"
)

type vh struct {
	t    *testing.T
	srv  *Server
	port uint16
	dir  string
	cfg  *config.Config
}

func vhConfig(t *testing.T) *config.Config {
	dir := t.TempDir()
	return &config.Config{
		Host: "127.0.0.1", LogFilepath: filepath.Join(dir, "log"), LogLevel: config.LogLevelError,
		DatabaseNum: 4, AofEnable: true, AofFilename: filepath.Join(dir, "a.aof"),
		AofFsync: config.TypeAppendFsyncNever,
	}
}

func vhStart(t *testing.T, cfg *config.Config) *vh {
	log.InitLogger(cfg)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	cfg.Port = uint16(l.Addr().(*net.TCPAddr).Port)
	l.Close()
	h := &vh{t: t, srv: NewServer(cfg), port: cfg.Port, cfg: cfg, dir: filepath.Dir(cfg.AofFilename)}
	go h.srv.Run()
	for i := 0; i < 200; i++ {
		c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", cfg.Port))
		if err == nil {
			c.Close()
			return h
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("server does not listen")
	return nil
}

type vconn struct {
	t *testing.T
	net.Conn
	r *bufio.Reader
}

func (h *vh) dial() *vconn {
	c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", h.port))
	if err != nil {
		h.t.Fatal(err)
	}
	return &vconn{h.t, c, bufio.NewReader(c)}
}

func enc(args ...string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "*%d\r\n", len(args))
	for _, a := range args {
		fmt.Fprintf(&sb, "$%d\r\n%s\r\n", len(a), a)
	}
	return sb.String()
}

func (c *vconn) send(s string) {
	if _, err := c.Write([]byte(s)); err != nil {
		c.t.Fatalf("send: %v", err)
	}
}

// reply reads one reply and renders it: strings as they are, nil as "(nil)",
// arrays as "[a b c]".
func (c *vconn) reply() string {
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	line, err := c.r.ReadString('\n')
	if err != nil {
		c.t.Fatalf("no reply: %v", err)
	}
	if !strings.HasSuffix(line, "\r\n") || len(line) < 3 {
		c.t.Fatalf("malformed reply line %q", line)
	}
	line = line[:len(line)-2]
	switch line[0] {
	case '+', '-', ':':
		return line
	case '$':
		n, err := strconv.Atoi(line[1:])
		if err != nil {
			c.t.Fatalf("malformed reply %q", line)
		}
		if n < 0 {
			return "(nil)"
		}
		b := make([]byte, n+2)
		if _, err := io.ReadFull(c.r, b); err != nil {
			c.t.Fatalf("short bulk: %v", err)
		}
		if string(b[n:]) != "\r\n" {
			c.t.Fatalf("bulk not terminated: %q", b)
		}
		return string(b[:n])
	case '*':
		n, err := strconv.Atoi(line[1:])
		if err != nil {
			c.t.Fatalf("malformed reply %q", line)
		}
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, c.reply())
		}
		return "[" + strings.Join(parts, " ") + "]"
	}
	c.t.Fatalf("malformed reply %q", line)
	return ""
}

func (c *vconn) do(args ...string) string {
	c.send(enc(args...))
	return c.reply()
}

func (c *vconn) want(want string, args ...string) {
	c.t.Helper()
	if got := c.do(args...); got != want {
		c.t.Fatalf("%v: got %q, want %q", args, got, want)
	}
}

func (h *vh) aof() string {
	b, err := os.ReadFile(h.cfg.AofFilename)
	if err != nil {
		h.t.Fatal(err)
	}
	return string(b)
}

// restart starts a second server on a copy of the current log.
func (h *vh) restart() *vh {
	time.Sleep(50 * time.Millisecond)
	cfg := *h.cfg
	cfg.AofFilename = filepath.Join(h.t.TempDir(), "b.aof")
	if err := os.WriteFile(cfg.AofFilename, []byte(h.aof()), 0o644); err != nil {
		h.t.Fatal(err)
	}
	return vhStart(h.t, &cfg)
}

func (h *vh) rewrite(c *vconn) {
	old, _ := os.Stat(h.cfg.AofFilename)
	c.do("bgrewriteaof")
	for i := 0; i < 300; i++ {
		time.Sleep(10 * time.Millisecond)
		now, err := os.Stat(h.cfg.AofFilename)
		if err == nil && !os.SameFile(old, now) {
			time.Sleep(30 * time.Millisecond)
			return
		}
	}
	h.t.Fatal("rewrite did not finish")
}
