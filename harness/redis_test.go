package zzverif

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/redis/go-redis/v9"

	"github.com/go-oidfed/lib/cache"
)

// fakeRedis is the part of a redis server that the module needs; it uses the clock of the bubble
type fakeRedis struct {
	mu    sync.Mutex
	data  map[string]redisEntry
	conns []net.Conn
}
type redisEntry struct {
	val string
	exp time.Time
}

func (f *fakeRedis) dial(context.Context, string, string) (net.Conn, error) {
	a, b := net.Pipe()
	f.mu.Lock()
	f.conns = append(f.conns, a, b)
	f.mu.Unlock()
	go f.serve(b)
	return a, nil
}

func (f *fakeRedis) close() {
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, c := range f.conns {
		_ = c.Close()
	}
}

func readRESP(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	if line[0] != '*' {
		return nil, fmt.Errorf("unexpected %q", line)
	}
	n, _ := strconv.Atoi(strings.TrimSpace(line[1:]))
	out := make([]string, 0, n)
	for i := 0; i < n; i++ {
		if line, err = r.ReadString('\n'); err != nil {
			return nil, err
		}
		l, _ := strconv.Atoi(strings.TrimSpace(line[1:]))
		buf := make([]byte, l+2)
		if _, err = io.ReadFull(r, buf); err != nil {
			return nil, err
		}
		out = append(out, string(buf[:l]))
	}
	return out, nil
}

func (f *fakeRedis) serve(c net.Conn) {
	r := bufio.NewReader(c)
	for {
		cmd, err := readRESP(r)
		if err != nil {
			return
		}
		if _, err = c.Write([]byte(f.exec(cmd))); err != nil {
			return
		}
	}
}

func (f *fakeRedis) exec(cmd []string) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	switch strings.ToUpper(cmd[0]) {
	case "PING":
		return "+PONG\r\n"
	case "GET":
		e, ok := f.data[cmd[1]]
		if !ok || (!e.exp.IsZero() && !time.Now().Before(e.exp)) {
			return "$-1\r\n"
		}
		return fmt.Sprintf("$%d\r\n%s\r\n", len(e.val), e.val)
	case "SET":
		e := redisEntry{val: cmd[2]}
		for i := 3; i+1 < len(cmd); i += 2 {
			n, err := strconv.ParseInt(cmd[i+1], 10, 64)
			if err != nil || n <= 0 {
				return "-ERR invalid expire time in 'set' command\r\n"
			}
			switch strings.ToUpper(cmd[i]) {
			case "EX":
				e.exp = time.Now().Add(time.Duration(n) * time.Second)
			case "PX":
				e.exp = time.Now().Add(time.Duration(n) * time.Millisecond)
			default:
				return "-ERR syntax error\r\n"
			}
		}
		f.data[cmd[1]] = e
		return "+OK\r\n"
	case "CLIENT", "SELECT":
		return "+OK\r\n"
	}
	return "-ERR unknown command '" + cmd[0] + "'\r\n"
}

// useRedis makes the module use a new fake redis server as its cache
func useRedis(t *testing.T) *fakeRedis {
	f := &fakeRedis{data: map[string]redisEntry{}}
	if err := cache.UseRedisCache(&redis.Options{Addr: "redis.test:6379", Dialer: f.dial}); err != nil {
		t.Fatal(err)
	}
	return f
}
