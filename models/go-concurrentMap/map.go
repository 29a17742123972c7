// Package concurrent models the sharded concurrent map: every operation is atomic.
package concurrent

import (
	"errors"
	"sync"
)

var NilKeyError = errors.New("Key is nil")
var NilValueError = errors.New("Value is nil")

type ConcurrentMap struct {
	mu sync.Mutex
	m  map[interface{}]interface{}
}

func NewConcurrentMap(paras ...interface{}) *ConcurrentMap {
	return &ConcurrentMap{m: map[interface{}]interface{}{}}
}
func isNil(v interface{}) bool { return v == nil }
func (c *ConcurrentMap) Get(key interface{}) (interface{}, error) {
	if isNil(key) {
		return nil, NilKeyError
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.m[key], nil
}
func (c *ConcurrentMap) ContainsKey(key interface{}) (bool, error) {
	if isNil(key) {
		return false, NilKeyError
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	_, ok := c.m[key]
	return ok, nil
}
func (c *ConcurrentMap) Put(key interface{}, value interface{}) (interface{}, error) {
	if isNil(key) {
		return nil, NilKeyError
	}
	if isNil(value) {
		return nil, NilValueError
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	old := c.m[key]
	c.m[key] = value
	return old, nil
}
func (c *ConcurrentMap) PutIfAbsent(key interface{}, value interface{}) (interface{}, error) {
	if isNil(key) {
		return nil, NilKeyError
	}
	if isNil(value) {
		return nil, NilValueError
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	old, ok := c.m[key]
	if !ok {
		c.m[key] = value
	}
	return old, nil
}
func (c *ConcurrentMap) Remove(key interface{}) (interface{}, error) {
	if isNil(key) {
		return nil, NilKeyError
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	old := c.m[key]
	delete(c.m, key)
	return old, nil
}
func (c *ConcurrentMap) Replace(key interface{}, value interface{}) (interface{}, error) {
	if isNil(key) {
		return nil, NilKeyError
	}
	if isNil(value) {
		return nil, NilValueError
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	old, ok := c.m[key]
	if ok {
		c.m[key] = value
	}
	return old, nil
}
func (c *ConcurrentMap) Size() int32 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return int32(len(c.m))
}
func (c *ConcurrentMap) IsEmpty() bool { return c.Size() == 0 }
func (c *ConcurrentMap) Clear() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.m = map[interface{}]interface{}{}
}
