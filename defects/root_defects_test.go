package xxcache

import (
	"testing"
	"time"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/redis"
)

func TestR07(t *testing.T) {
	c := &Client{cache: cache.New()}
	r := redis.Replication{Messages: make(chan redis.ReplicationMessage, 10), Err: make(chan error, 1)}
	go c.handleReplication(r)
	for i := 0; i < 4; i++ { // four unsupported commands
		r.Messages <- redis.ReplicationMessage{Message: redis.ConvertToMessage("nope")}
	}
	r.Messages <- redis.ReplicationMessage{Message: redis.ConvertToMessage("set", "k", "v")}
	time.Sleep(200 * time.Millisecond)
	if v, _ := c.cache.Get("k"); v != "v" {
		t.Fatal("the consumer is stuck on its own error channel")
	}
}
func TestX01(t *testing.T) {
	c := Client{cache: cache.New(), redis: redis.NewClient(redis.Option{Addr: "127.0.0.1:1"})}
	if _, err := c.Get("k"); err == cache.ErrKeyNil {
		t.Fatal("the server was not asked")
	}
}
