package main

import (
	"bytes"
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"verif/mc/eng"
	"verif/mc/vs"
)

// ---- the figures of a scan ----

// counting is an index that counts what it is asked.
type counting struct {
	comparer.Index
	asked, known int64
}

func (c *counting) FindWeakChecksum2(w []byte) interface{} {
	r := c.Index.FindWeakChecksum2(w)
	c.asked++
	if r != nil {
		c.known++
	}
	return r
}

func (c *counting) FindStrongChecksum2(h []byte, weak interface{}) []chunks.ChunkChecksum {
	return c.Index.FindStrongChecksum2(h, weak)
}

// countScans makes scans one after another with one comparer and checks its figures after each.
func countScans(what string, ref []byte, bs int, ix comparer.Index, readers ...*script) bool {
	cmp := &comparer.Comparer{}
	ci := &counting{Index: ix}
	places := 0
	for i, r := range readers {
		vs.Budget(20_000_000 + 2000*int64(len(r.data)))
		base := int64(i) << 33
		res := drain(cmp.StartFindMatchingBlocks(r, base, filechecksum.NewFileChecksumGenerator(uint(bs)), ci))
		vs.Quiesce()
		seen := map[int64]bool{}
		for _, m := range res.got {
			seen[m.off] = true
		}
		places += len(seen)
		eng.Eval(1)
		if cmp.Comparisons != ci.asked || cmp.WeakHashHits != ci.known || cmp.StrongHashHits != int64(places) {
			eng.Failf("%s, reference %s, scan %d of %s, block size %d: counted %s; looked up %d windows, of which the index knew %d, and reported matches at %d places",
				what, show(ref), i, show(r.data), bs, stats(cmp), ci.asked, ci.known, places)
			return false
		}
	}
	eng.State([]byte(fmt.Sprint(what, bs, cmp.Comparisons, cmp.WeakHashHits, cmp.StrongHashHits)))
	return true
}

var figureRe = regexp.MustCompile(`(?m)^([A-Za-z ]+): *([0-9.]+)%?`)

// figures are the numbers in the output of diff.
func figures(out string) map[string]float64 {
	m := map[string]float64{}
	for _, x := range figureRe.FindAllStringSubmatch(out, -1) {
		f, err := strconv.ParseFloat(x[2], 64)
		if err == nil {
			m[x[1]] = f
		}
	}
	return m
}

// checkFigures runs diff and compares everything it prints.
func checkFigures(what string, ref, local []byte, bs, streams int) bool {
	put("local", local)
	put("ref.gosync", indexFile(ref, bs))
	r := gosyncCmd("diff", "-p", fmt.Sprint(streams), "local", "ref.gosync")
	eng.Eval(1)
	bad := func(f string, a ...any) bool {
		eng.Failf("%s, block size %d, %d streams: %s; the output: %s", what, bs, streams, fmt.Sprintf(f, a...), r)
		return false
	}
	if r.crashed() || r.hang || r.code != 0 {
		return bad("no result")
	}
	f := figures(r.out)
	nb := nblocks(len(ref), bs)
	want := map[string]float64{
		"Blocksize":                 float64(bs),
		"Index blocks":              float64(nb),
		"Total matched bytes":       f["Total matched blocks"] * float64(bs),
		"Approximate missing bytes": (float64(nb) - f["Total matched blocks"]) * float64(bs),
	}
	if c := f["Comparisons"]; c > 0 {
		want["Weak hit rate"] = 100 * f["Weak hash hits"] / c
	}
	if w := f["Weak hash hits"]; w > 0 {
		want["Weak hash error rate"] = 100 * (w - f["Strong hash hits"]) / w
	}
	for k, v := range want {
		g, ok := f[k]
		if !ok {
			return bad("%q is missing", k)
		}
		if d := g - v; d > 0.0051 || d < -0.0051 {
			return bad("%q is %v instead of %v", k, g, v)
		}
	}
	for _, k := range []string{"Comparisons", "Weak hash hits", "Strong hash hits", "Total matched blocks"} {
		if _, ok := f[k]; !ok {
			return bad("%q is missing", k)
		}
	}
	if f["Strong hash hits"] > f["Weak hash hits"] || f["Weak hash hits"] > f["Comparisons"] || f["Total matched blocks"] > float64(nb) {
		return bad("more hits than comparisons")
	}
	eng.Outcome(fmt.Sprint(streams, bs, len(ref), len(local), f["Comparisons"], f["Weak hash hits"], f["Strong hash hits"]))
	// one stream: the same as the library
	if streams == 1 {
		cmp := &comparer.Comparer{}
		drain(cmp.StartFindMatchingBlocks(newReader(local), 0, filechecksum.NewFileChecksumGenerator(uint(bs)), indexOf(ref, bs)))
		if float64(cmp.Comparisons) != f["Comparisons"] || float64(cmp.WeakHashHits) != f["Weak hash hits"] || float64(cmp.StrongHashHits) != f["Strong hash hits"] {
			return bad("a scan counts %s", stats(cmp))
		}
	}
	if !strings.Contains(r.out, "Matched:") {
		return bad("no result")
	}
	return true
}

func c33(tier string, emit func(eng.Case)) {
	type cfg struct {
		alpha        string
		bs, ref, loc int
	}
	for _, c := range pick(tier, []cfg{{"ab", 1, 3, 6}, {"ab", 2, 5, 7}, {"ab", 3, 6, 7}, {"\x00\x01\x02", 2, 4, 5}, {"\x00\x01\x02", 3, 4, 6}},
		[]cfg{{"ab", 1, 4, 8}, {"ab", 2, 7, 9}, {"ab", 3, 7, 9}, {"ab", 4, 8, 9}, {"\x00\x01\x02", 2, 5, 6}, {"\x00\x01\x02", 3, 5, 7}}) {
		words(c.alpha, 0, c.ref, func(w []byte) {
			ref := append([]byte(nil), w...)
			batch(emit, fmt.Sprintf("words-%x-bs%d-%x", c.alpha, c.bs, ref), func() {
				ix, ea := indexOf(ref, c.bs), eagerOf(ref, c.bs)
				n := 0
				words(c.alpha, 0, c.loc, func(local []byte) {
					if n > 2 {
						return
					}
					l := append([]byte(nil), local...)
					if !countScans("one scan", ref, c.bs, ix, newReader(l)) || !countScans("every weak checksum present", ref, c.bs, ea, newReader(l)) {
						n++
					}
					if len(l) <= c.loc-2 {
						for at := 0; at <= len(l); at++ {
							for _, with := range []bool{false, true} {
								if !countScans(fmt.Sprintf("reading fails at byte %d", at), ref, c.bs, ix, &script{data: l[:at], err: errBroken, with: with}) {
									n++
								}
							}
						}
						rev := append([]byte(nil), l...)
						for a, b := 0, len(rev)-1; a < b; a, b = a+1, b-1 {
							rev[a], rev[b] = rev[b], rev[a]
						}
						if !countScans("three scans", ref, c.bs, ix, newReader(l), newReader(ref), newReader(rev)) {
							n++
						}
					}
				})
			})
		})
	}
	for _, bs := range []int{4, 16, 33} {
		for _, nb := range []int{1, 3, 5} {
			for _, cut := range []int{0, 1, bs - 1} {
				batch(emit, fmt.Sprintf("edits-bs%d-n%d-cut%d", bs, nb, cut), func() {
					ref := filler(uint32(bs*nb), nb*bs-cut)
					rep := append(append(append([]byte(nil), ref...), ref...), ref[:len(ref)/2]...)
					good := true
					edits(ref, bs, func(name string, local []byte) {
						good = good && countScans("edited "+name, ref, bs, indexOf(ref, bs), newReader(local)) &&
							countScans("edited "+name, rep, bs, indexOf(rep, bs), newReader(local), newReader(ref))
					})
				})
			}
		}
	}
	// the command
	for _, c := range pick(tier, []cfg{{"ab", 2, 4, 4}, {"ab", 1, 2, 3}, {"ab", 3, 3, 4}}, []cfg{{"ab", 2, 5, 6}, {"ab", 1, 4, 4}, {"ab", 3, 6, 5}}) {
		words(c.alpha, 0, c.ref, func(w []byte) {
			ref := append([]byte(nil), w...)
			batch(emit, fmt.Sprintf("command bs%d %q", c.bs, ref), func() {
				inScratch(func(string) {
					good := true
					words(c.alpha, 0, c.loc, func(l []byte) {
						good = good && checkFigures(fmt.Sprintf("reference %q, local file %q", ref, l), ref, l, c.bs, 1)
					})
				})
			})
		})
	}
	// blocks whose weak checksums are those of other data: the rates are no round numbers
	batch(emit, "command collisions", func() {
		inScratch(func(string) {
			same := func(b []byte, i int) []byte { // another block with the same weak checksum
				b = append([]byte(nil), b...)
				b[i]++
				b[i+1] -= 2
				b[i+2]++
				return b
			}
			for _, bs := range []int{3, 4, 7} {
				for n := 1; n <= 4; n++ {
					ref := bytes.Repeat([]byte{100}, 0)
					for i := 0; i < n*bs; i++ {
						ref = append(ref, byte(40+i*i%50))
					}
					for hits := 0; hits < 1<<uint(n); hits++ {
						var l []byte
						for b := 0; b < n; b++ {
							x := blockOf(ref, bs, b)
							if hits>>uint(b)&1 == 0 {
								x = same(x, b%(bs-2))
							}
							l = append(l, x...)
							if b%2 == 1 {
								l = append(l, "some more"...)
							}
						}
						if !checkFigures(fmt.Sprintf("reference %x, local file %x", ref, l), ref, l, bs, 1) {
							return
						}
					}
				}
			}
		})
	})
	// blocks of a gigabyte: the sizes do not fit in 32 bits
	batch(emit, "command gigabytes", func() {
		inScratch(func(string) {
			for _, bs := range []int{1 << 28, 1<<30 - 1, 1 << 30} {
				for _, nb := range []int{1, 4, 5, 17} {
					for _, last := range []int{1, 100} {
						local := filler(uint32(last), last)
						size := int64(nb-1)*int64(bs) + int64(last)
						ix := indexHeader(size, bs)
						for b := 0; b < nb; b++ {
							c := []byte("nothing")
							if b == nb-1 {
								c = local
							}
							ix = append(append(ix, weakOf(c)...), strongOf(c)...)
						}
						put("local", local)
						put("ref.gosync", ix)
						r := gosyncCmd("diff", "local", "ref.gosync")
						eng.Eval(1)
						f := figures(r.out)
						if r.code != 0 || f["Index blocks"] != float64(nb) || f["Total matched blocks"] != 1 || f["Total matched bytes"] != float64(bs) || f["Approximate missing bytes"] != float64(nb-1)*float64(bs) {
							eng.Failf("%d blocks of %d bytes, the last with %d bytes and there: %s", nb, bs, last, r)
						}
						eng.Outcome(fmt.Sprint(nb, bs, last))
					}
				}
			}
		})
	})
	if tier != "quick" {
		// more than 4 GiB that match
		batch(emit, "command sparse", func() {
			inScratch(func(string) {
				const bs, nb = 1 << 26, 65
				block := make([]byte, bs)
				ix := indexHeader(nb*bs, bs)
				for b := 0; b < nb; b++ {
					if b == nb-1 {
						// what follows the first byte has no weak checksum that the index knows
						block[0], block[bs-1] = 1, 1
					}
					ix = append(append(ix, weakOf(block)...), strongOf(block)...)
				}
				put("local", nil)
				defer setLimit(nb * bs)()
				must(os.Truncate("local", nb*bs))
				file, err := os.OpenFile("local", os.O_WRONLY, 0)
				must(err)
				file.WriteAt([]byte{1}, (nb-1)*bs)
				file.WriteAt([]byte{1}, nb*bs-1)
				file.Close()
				put("ref.gosync", ix)
				r := gosyncCmd("diff", "-p", "1", "local", "ref.gosync")
				eng.Eval(1)
				f := figures(r.out)
				if r.code != 0 || f["Index blocks"] != nb || f["Total matched blocks"] != nb || f["Total matched bytes"] != nb*bs || f["Approximate missing bytes"] != 0 {
					eng.Failf("a file of %d blocks of %d bytes and its own index: %s", nb, bs, r)
				}
				eng.Outcome(fmt.Sprint(nb, bs))
			})
		})
	}
	const mib = 1 << 20
	for _, bs := range pick(tier, []int{500, 8192}, []int{100, 500, 8192, 65536}) {
		for _, size := range []int{mib - 1, mib + 1, 3*mib + 17} {
			for p := 1; p <= pick(tier, 3, 9); p++ {
				batch(emit, fmt.Sprintf("command bs%d size%d p%d", bs, size, p), func() {
					ref := filler(uint32(size), size)
					cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
					inScratch(func(string) {
						for i, l := range [][]byte{ref, cat([]byte("x"), ref), ref[:size/2], cat(ref[size/3:], ref[:size/3])} {
							if !checkFigures(fmt.Sprintf("file of %d bytes, variant %d", size, i), ref, l, bs, p) {
								return
							}
						}
					})
				})
			}
		}
	}
}

func init() {
	eng.Register(&eng.Prop{ID: "C33", Gen: c33, Setup: setupCLI,
		Rule: "input: reference, stream or list of streams, block size, failure of reading; or what diff is run on and the number of streams; distinct: by the figures",
		Bounds: func(tier string) string {
			return "all pairs of words of up to " + pick(tier, "6 and 7", "8 and 9") + " letters, one to three scans with one comparer, failures at every byte; one-place edits of up to 5 blocks; diff for all pairs of words of up to " + pick(tier, "4", "6") + " letters and files of 1 to 3 MB in 1-" + pick(tier, "3", "9") + " streams; colliding weak checksums; gigabytes read" + pick(tier, "", ", over 4 GiB matched")
		},
		Assume: []string{"the output format of diff: a name, a colon and a number per line"}})
}
