package data

// What the iterations of the index database do, in terms of what it has. The
// functions that panic here have contracts in index.spec; the others stand
// for the methods named in their comments (the text of those is checked by
// C04, whose harness runs histories of both databases).

import "github.com/skycoin/skycoin/src/cipher"

// the feeds there are, the heads of a feed, and the roots of a head
func verifFeeds(fs Feeds) (m map[cipher.PubKey]struct{}, err error) { panic("") }
func verifHeads(hs Heads) (m map[uint64]struct{}, err error)        { panic("") }
func verifRoots(rs Roots) (m map[uint64]struct{}, err error)        { panic("") }
func verifLast(rs Roots) (r *Root, err error)                       { panic("") }
func verifRoot(rs Roots, seq uint64) (r *Root)                      { panic("") }

// Feeds.Iterate
func verifIterateFeeds(fs Feeds, f IterateFeedsFunc) (err error) {
	var m map[cipher.PubKey]struct{}
	if m, err = verifFeeds(fs); err != nil {
		return
	}
	for pk := range m {
		if err = f(pk); err == ErrStopIteration {
			return nil
		} else if err != nil {
			return
		}
	}
	return
}

// Heads.Iterate
func verifIterateHeads(hs Heads, f IterateHeadsFunc) (err error) {
	var m map[uint64]struct{}
	if m, err = verifHeads(hs); err != nil {
		return
	}
	for nonce := range m {
		if err = f(nonce); err == ErrStopIteration {
			return nil
		} else if err != nil {
			return
		}
	}
	return
}

// Roots.Ascend, in any order
func verifAscend(rs Roots, f IterateRootsFunc) (err error) {
	var m map[uint64]struct{}
	if m, err = verifRoots(rs); err != nil {
		return
	}
	for seq := range m {
		if err = f(verifRoot(rs, seq)); err == ErrStopIteration {
			return nil
		} else if err != nil {
			return
		}
	}
	return
}

// Roots.Descend, the last one first and the others in any order
func verifDescend(rs Roots, f IterateRootsFunc) (err error) {
	var last *Root
	if last, err = verifLast(rs); err != nil || last == nil {
		return
	}
	if err = f(last); err == ErrStopIteration {
		return nil
	} else if err != nil {
		return
	}
	var m map[uint64]struct{}
	if m, err = verifRoots(rs); err != nil {
		return
	}
	for seq := range m {
		if seq == last.Seq {
			continue
		}
		if err = f(verifRoot(rs, seq)); err == ErrStopIteration {
			return nil
		} else if err != nil {
			return
		}
	}
	return
}
