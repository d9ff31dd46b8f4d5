package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"unicode/utf8"

	nsp "github.com/nlpodyssey/gotokenizers/normalizedstring"
)

func newReal(s string) *NS { return nsp.FromString(s) }

var (
	tmpMu   sync.Mutex
	tmpDirs []string
)

// tmpFile returns a path in a scratch directory private to the worker.
func (c *C) tmpFile(name string) string {
	if c.tmp == "" {
		d, err := os.MkdirTemp("", "gtmc")
		if err != nil {
			fatalf("%v", err)
		}
		tmpMu.Lock()
		tmpDirs = append(tmpDirs, d)
		tmpMu.Unlock()
		c.tmp = d
	}
	return filepath.Join(c.tmp, name)
}

func (c *C) writeFile(name, content string) string {
	p := c.tmpFile(name)
	if err := os.WriteFile(p, []byte(content), 0o600); err != nil {
		fatalf("%v", err)
	}
	return p
}

func cleanupTmp() {
	tmpMu.Lock()
	defer tmpMu.Unlock()
	for _, d := range tmpDirs {
		os.RemoveAll(d)
	}
	tmpDirs = nil
}

var errScripted = errors.New("scripted failure")

// widthRunes are distinct characters by UTF-8 width (index 0 = 1 byte), by position.
var widthRunes = [4][]rune{
	[]rune("abcdefgh"),
	[]rune("éñüßøæþð"),
	[]rune("京東日本語中文字"),
	[]rune("𝔾𝕋𝓐😀𐍈𝒳𠀀🎉"),
}

// chooseWidths picks a text of n distinct characters with every combination of widths.
func (c *C) chooseWidths(n int) []rune {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = widthRunes[c.Choose(4)][i%8]
	}
	return rs
}

// sizes are repetition counts around the boundaries a size-dependent path would use.
func sizes(thorough bool) []int {
	var out []int
	for i := 1; i <= 34; i++ {
		out = append(out, i)
	}
	out = append(out, 42, 43, 49, 50, 51, 63, 64, 65, 66, 85, 86, 99, 100, 101, 127, 128, 129, 130, 170, 171, 199, 200, 201,
		254, 255, 256, 257, 258, 300, 341, 342, 499, 500, 501, 511, 512, 513, 514)
	if thorough {
		for i := 35; i < 140; i++ {
			out = append(out, i)
		}
		out = append(out, 682, 683, 1000, 1001, 1022, 1023, 1024, 1025, 1026, 1365, 1366, 2047, 2048, 2049, 2050, 3000, 4095, 4096, 4097, 4098)
	} else {
		out = append(out, 1000, 1023, 1024, 1025, 1366, 2048, 2049, 4096, 4097)
	}
	return out
}

// longText builds pre + u^n + post.
func longText(pre, u string, n int, post string) string { return pre + strings.Repeat(u, n) + post }

func runeCount(s string) int { return utf8.RuneCountInString(s) }

// charStarts lists the byte offsets of all character boundaries of s, including len(s).
func charStarts(s string) []int {
	out := []int{}
	for i := range s {
		out = append(out, i)
	}
	return append(out, len(s))
}

func validRune(r rune) bool { return r >= 0 && r <= 0x10ffff && !(r >= 0xd800 && r <= 0xdfff) }

// blocks of code points for per-character sweeps
const nBlocks = 0x110000 / 0x100

func quoteTrunc(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%q...(%d bytes)", s[:80], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// fewSizes is a thinner list for checks whose work grows with the square of the length.
func fewSizes(thorough bool) []int {
	if thorough {
		return sizes(false)
	}
	return []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 21, 22, 31, 32, 33, 43, 63, 64, 65, 86, 100, 127, 128, 129, 171, 255, 256, 257, 342, 512, 513, 1024, 1025}
}
