//go:build go1.24

// Package fakes holds the scriptable chain, mempool and storage given to the
// node. It is instrumented like node code, so that unsynchronised use of the
// chain by the node shows up as a data race.
package fakes

import (
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/zzsim/zmark"
	sync "github.com/dblokhin/gringo/zzsim/zsync"
	"github.com/dblokhin/gringo/zzsim/zzrt"
)

// Chain implements p2p.Blockchain. Height and total difficulty change under
// the write lock, in two steps, as a chain that applies blocks would do it.
type Chain struct {
	sync.RWMutex
	height uint64
	td     uint64
	Gen    consensus.Block

	OnHeaders    func(hs []consensus.BlockHeader) error
	OnBlock      func(b *consensus.Block) error // called with the lock held
	OnGetBlock   func(h consensus.Hash) *consensus.Block
	OnGetHeaders func(l consensus.Locator) []consensus.BlockHeader
	OnState      func(phase int, height, td uint64) // 0 before, 1 after a change
}

// Genesis returns the genesis block.
func (c *Chain) Genesis() consensus.Block { return c.Gen }

// TotalDifficulty reads it; callers lock.
func (c *Chain) TotalDifficulty() consensus.Difficulty {
	v := c.td
	zzrt.Point(70)
	return consensus.Difficulty(v)
}

// Height reads it; callers lock.
func (c *Chain) Height() uint64 {
	v := c.height
	zzrt.Point(71)
	return v
}

// Set changes the state; the caller holds the write lock.
func (c *Chain) Set(height, td uint64) {
	zmark.Do(func() { c.OnState(0, height, td) })
	c.height = height
	zzrt.Point(72)
	c.td = td
	zmark.Do(func() { c.OnState(1, height, td) })
}

// Advance changes the state under the lock.
func (c *Chain) Advance(height, td uint64) {
	c.Lock()
	c.Set(height, td)
	c.Unlock()
}

// Peek reads without synchronisation, for oracles.
//
//go:norace
func (c *Chain) Peek() (height, td uint64) { return c.height, c.td }

// GetBlockHeaders answers a locator.
func (c *Chain) GetBlockHeaders(l consensus.Locator) (hs []consensus.BlockHeader) {
	c.RLock()
	defer c.RUnlock()
	zmark.Do(func() { hs = c.OnGetHeaders(l) })
	return hs
}

// GetBlock answers a hash.
func (c *Chain) GetBlock(h consensus.Hash) (b *consensus.Block) {
	zmark.Do(func() { b = c.OnGetBlock(h) })
	return b
}

// ProcessHeaders judges headers.
func (c *Chain) ProcessHeaders(hs []consensus.BlockHeader) (err error) {
	zmark.Do(func() { err = c.OnHeaders(hs) })
	return err
}

// ProcessBlock judges a block under the lock.
func (c *Chain) ProcessBlock(b *consensus.Block) (err error) {
	c.Lock()
	defer c.Unlock()
	zmark.Do(func() { err = c.OnBlock(b) })
	return err
}

// Mempool implements p2p.Mempool.
type Mempool struct {
	OnTx func(t *consensus.Transaction) error
}

// ProcessTx judges a transaction.
func (m *Mempool) ProcessTx(t *consensus.Transaction) (err error) {
	zmark.Do(func() { err = m.OnTx(t) })
	return err
}
