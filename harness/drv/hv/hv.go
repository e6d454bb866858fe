// Package hv has file digests in increasing order: by size, then by digest.
package hv

import (
	"github.com/vipally/gx/fs"
	"gxverif/drv"
)

var hashes = []string{"", "a", "ab"}

// Val is the digest of rank r (0..1000).
func Val(r int) fs.FileHash {
	if r < 0 || r > 1000 {
		drv.Fail("rank %d", r)
	}
	n := uint64(r/3) * 12345678901
	if r/3 == 333 {
		n = 1<<64 - 1
	}
	return fs.FileHash{Path: "any", Hash: hashes[r%3], Size: fs.FileSize(n), IsDir: r%2 == 0}
}

var ranks = map[fs.FileHash]int{}

func init() {
	for r := 0; r <= 1000; r++ {
		ranks[Val(r)] = r
	}
}

// Rank is the inverse of Val; -999 if unknown.
func Rank(v fs.FileHash) int {
	if r, ok := ranks[v]; ok {
		return r
	}
	return -999
}
