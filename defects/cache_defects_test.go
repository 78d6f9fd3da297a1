package cache

import (
	"sync"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache/redis"
)

func expiredKey(t *testing.T, c *Cache, k, v string) {
	c.PSetEX(k, v, 5)
	time.Sleep(15 * time.Millisecond)
}

func TestK01HashRace(t *testing.T) { // run with -race
	c := New()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				c.HSet("h", string(rune('a'+i%26)), "v")
				c.HDel("h", string(rune('a'+i%26)))
			}
		}()
	}
	wg.Wait()
	n, _ := c.HLen("h")
	if n != 0 {
		t.Fatal("length after all fields are gone:", n)
	}
}
func TestK02SetNXExpired(t *testing.T) {
	c := New()
	expiredKey(t, c, "k", "v")
	if n, _ := c.SetNX("k", "w"); n != 1 {
		t.Fatal("SETNX refused on an expired key")
	}
}
func TestK02IncrExpired(t *testing.T) {
	c := New()
	expiredKey(t, c, "k", "10")
	if n, err := c.Incr("k"); n != 1 || err != nil {
		t.Fatal(n, err)
	}
}
func TestK02ExistsExpired(t *testing.T) {
	c := New()
	expiredKey(t, c, "k", "10")
	if n := c.Exists("k"); n != 0 {
		t.Fatal(n)
	}
}
func TestK03SetKeepsDeadline(t *testing.T) {
	c := New()
	c.PSetEX("k", "v", 5)
	c.Set("k", "w")
	time.Sleep(15 * time.Millisecond)
	if v, err := c.Get("k"); err != nil {
		t.Fatal(v, err)
	}
}
func TestK04Sweep(t *testing.T) {
	c := New()
	c.Set("k", "v")
	go c.cronExpire(5 * time.Millisecond)
	time.Sleep(30 * time.Millisecond)
	if _, err := c.Get("k"); err != nil {
		t.Fatal("the sweep removed a key without a deadline")
	}
}
func TestK05(t *testing.T) {
	c := New()
	for _, s := range []string{"007", "+5", "1e3", "0x10", "1.50", "-0", " 1", "nan", "1_000"} {
		c.Set("k", s)
		if v, _ := c.Get("k"); v != s {
			t.Errorf("stored %q, read %q", s, v)
		}
	}
}
func TestK06GetSet(t *testing.T) {
	c := New()
	c.HSet("h", "f", "v")
	c.GetSet("h", "x")
	if _, err := c.HGet("h", "f"); err != nil {
		t.Fatal("the refused GETSET replaced the hash")
	}
}
func TestK06Type(t *testing.T) {
	c := New()
	c.HSet("h", "f", "v")
	if c.Type("h") != "hash" {
		t.Fatal(c.Type("h"))
	}
}
func TestK07(t *testing.T) {
	c := New()
	c.HSet("h", "f", "v")
	c.HExists("h", "f")
	if n, _ := c.HLen("h"); n != 1 {
		t.Fatal(n)
	}
}
func TestK08(t *testing.T) {
	c := New()
	c.HSet("h", "f", "5")
	c.HIncrBy("h", "f", 2)
	if v, _ := c.HGet("h", "f"); v != "7" {
		t.Fatal(v)
	}
}
func TestK08Float(t *testing.T) {
	c := New()
	c.Incr("k")
	if f, err := c.IncrByFloat("k", 1); f != 2 || err != nil {
		t.Fatal(f, err)
	}
}
func TestK11(t *testing.T) {
	c := New()
	c.HSet("h", "f", "1")
	if v, _ := c.HVals("h"); len(v) != 1 {
		t.Error(v)
	}
	if v, _ := c.HGetAll("h"); len(v) != 1 {
		t.Error(v)
	}
}
func TestK11Absent(t *testing.T) { New().HKeys("none") }
func TestK12(t *testing.T)       { New().SetRange("k", 1<<62, "x") }
func msg(a ...string) redis.Message { return redis.ConvertToMessage(a...) }
func TestR05Short(t *testing.T) {
	if HandleMessage(New(), msg("set", "k")) == nil {
		t.Fatal("accepted")
	}
}
func TestR05Hmset(t *testing.T) {
	c := New()
	err := HandleMessage(c, msg("hmset", "h", "f", "v"))
	if v, _ := c.HGet("h", "f"); err == nil && v != "v" {
		t.Fatal("accepted without effect")
	}
}
func TestR05Rpush(t *testing.T) { HandleMessage(New(), msg("rpush", "l", "a")) }

func TestR05SetOptions(t *testing.T) {
	c := New()
	if err := HandleMessage(c, msg("set", "k", "v", "NX", "PX", "20")); err != nil {
		t.Fatal(err)
	}
	time.Sleep(40 * time.Millisecond)
	if v, err := c.Get("k"); err == nil {
		t.Fatalf("the deadline of a replicated set is lost, %q is still there", v)
	}
	if HandleMessage(c, msg("set", "k", "v", "keepttl")) == nil {
		t.Fatal("an unknown option is accepted")
	}
}
