package props

import (
	"bytes"
	"encoding/binary"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"

	"verif/mc/kit"
)

// bnode is a box that can be edited.
type bnode struct {
	typ   string
	pre   []byte // what precedes the children, or everything
	kids  []*bnode
	large bool    // 64-bit size
	size  *uint64 // declared size, if wrong
}

func bnodes(l []*mbox) []*bnode {
	var out []*bnode
	for _, m := range l {
		n := &bnode{typ: m.typ, pre: clone(m.data)}
		if k, ok := mboxSkip[m.typ]; ok {
			n.pre = n.pre[:k:k]
			n.kids = bnodes(m.kids)
		}
		out = append(out, n)
	}
	return out
}

func (n *bnode) copyTree() *bnode {
	m := *n
	m.pre = clone(n.pre)
	m.kids = make([]*bnode, len(n.kids))
	for i, k := range n.kids {
		m.kids[i] = k.copyTree()
	}
	return &m
}

func (n *bnode) bytes() []byte {
	body := clone(n.pre)
	for _, k := range n.kids {
		body = append(body, k.bytes()...)
	}
	var h []byte
	hs := 8
	if n.large {
		hs = 16
	}
	sz := uint64(hs + len(body))
	if n.size != nil {
		sz = *n.size
	}
	if n.large {
		h = append(binary.BigEndian.AppendUint32(nil, 1), n.typ...)
		h = binary.BigEndian.AppendUint64(h, sz)
	} else {
		h = append(binary.BigEndian.AppendUint32(nil, uint32(sz)), n.typ...)
	}
	return append(h, body...)
}

// bfile is a file as a tree: the root has no header.
type bfile struct{ root *bnode }

func (f bfile) bytes() []byte {
	var b []byte
	for _, k := range f.root.kids {
		b = append(b, k.bytes()...)
	}
	return b
}

// list gives the boxes in file order, each with its parent and index.
type bpos struct {
	n, parent *bnode
	i         int
	path      string
}

func (f bfile) list() []bpos {
	var out []bpos
	var walk func(p *bnode, path string)
	walk = func(p *bnode, path string) {
		for i, k := range p.kids {
			out = append(out, bpos{k, p, i, path + "/" + k.typ})
			walk(k, path+"/"+k.typ)
		}
	}
	walk(f.root, "")
	return out
}

func (f bfile) copyTree() bfile { return bfile{f.root.copyTree()} }

// rFile is a valid file.
type rFile struct {
	name string
	b    []byte
	tree bfile
	// ranges of bytes that differ from those of the files that precede it
	lo, hi int
}

func rFiles() []*rFile {
	var out []*rFile
	seen := map[string]bool{}
	for _, f := range faultFiles() {
		ws := &faultWS{f: &ioFault{}}
		if err := f.write(ws); err != nil {
			panic(f.name + ": " + err.Error())
		}
		l, err := mboxParse(ws.b, 0)
		if err != nil {
			panic(f.name + ": " + err.Error())
		}
		x := &rFile{name: f.name, b: ws.b, tree: bfile{&bnode{kids: bnodes(l)}}, hi: len(ws.b)}
		kind := f.name[:4]
		if seen[kind] && kind != "part" && f.name != "init-two" {
			if d := mfind(l, "moov", "trak", "mdia", "minf", "stbl", "stsd"); len(d) == 1 {
				x.lo, x.hi = d[0].off, d[0].off+d[0].size
			}
		}
		seen[kind] = true
		out = append(out, x)
	}
	return out
}

var bTypes = []string{
	"ftyp", "moov", "mvhd", "trak", "tkhd", "edts", "elst", "mdia", "mdhd", "hdlr", "minf", "vmhd", "smhd", "dinf", "dref", "url ", "stbl", "stsd", "stts", "stss", "ctts", "stsc", "stsz", "stco", "co64",
	"mvex", "trex", "udta", "free", "mdat", "moof", "mfhd", "traf", "tfhd", "tfdt", "trun", "sidx", "emsg", "meta", "ilst", "keys", "wave", "uuid", "cprt", "titl", "data", "loci", "skip", "zzzz", "\xa9nam", "----",
	"av01", "av1C", "vp09", "vpcC", "hvc1", "hev1", "hvcC", "avc1", "avcC", "mp4v", "esds", "mp4a", "Opus", "dOps", "fLaC", "dfLa", "ac-3", "dac3", "ec-3", "dec3", "ipcm", "pcmC", "c608", "btrt", "colr", "pasp", "encv", "enca", "sinf", "stpp", "sbtl", "wvtt",
}

var u32Menu = []uint32{0, 1, 2, 3, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0x10000, 19200, 1 << 24}

// bEdits gives edits of the box structure of a file.
func bEdits(t bfile, part func(path string) bool, f func(b []byte)) {
	all := t.list()
	edit := func(i int, g func(p bpos)) {
		c := t.copyTree()
		g(c.list()[i])
		f(c.bytes())
	}
	insert := func(p *bnode, i int, n ...*bnode) {
		p.kids = append(append(append([]*bnode{}, p.kids[:i]...), n...), p.kids[i:]...)
	}
	copies := func(n *bnode, k int) []*bnode {
		var l []*bnode
		for range k {
			l = append(l, n.copyTree())
		}
		return l
	}
	for i, x := range all {
		if !part(x.path) {
			continue
		}
		edit(i, func(p bpos) { p.parent.kids = append(p.parent.kids[:p.i], p.parent.kids[p.i+1:]...) })
		for _, k := range []int{1, 2, 40} {
			edit(i, func(p bpos) { insert(p.parent, p.i, copies(p.n, k)...) })
			edit(i, func(p bpos) { insert(p.parent, len(p.parent.kids), copies(p.n, k)...) })
		}
		if x.i+1 < len(x.parent.kids) {
			edit(i, func(p bpos) { p.parent.kids[p.i], p.parent.kids[p.i+1] = p.parent.kids[p.i+1], p.parent.kids[p.i] })
			edit(i, func(p bpos) { // moved to the end
				p.parent.kids = append(append(p.parent.kids[:p.i:p.i], p.parent.kids[p.i+1:]...), p.n)
			})
		}
		if x.i > 0 {
			edit(i, func(p bpos) { // moved to the beginning
				p.parent.kids = append([]*bnode{p.n}, append(p.parent.kids[:p.i:p.i], p.parent.kids[p.i+1:]...)...)
			})
		}
		edit(i, func(p bpos) { // flattened
			k := p.n.kids
			p.n.kids = nil
			insert(p.parent, p.i+1, k...)
		})
		// grafted into, or put in place of, every other box
		for j, y := range all {
			if i != j {
				c := t.copyTree()
				l := c.list()
				n := l[i].n.copyTree()
				insert(l[j].n, len(l[j].n.kids), n)
				f(c.bytes())
				if y.typLeaf() {
					c = t.copyTree()
					l = c.list()
					l[j].parent.kids[l[j].i] = l[i].n.copyTree()
					f(c.bytes())
				}
			}
		}
		// sizes
		sz := uint64(len(x.n.bytes()))
		edit(i, func(p bpos) { p.n.large = true })
		for _, v := range []uint64{0, 1, 2, 7, 8, 9, 15, 16, sz - 8, sz - 4, sz - 1, sz + 1, sz + 4, sz + 8, sz + 16, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFF8} {
			edit(i, func(p bpos) { p.n.size = &v })
			edit(i, func(p bpos) { p.n.large = true; p.n.size = &v })
		}
		for _, v := range []uint64{1 << 32, 1<<32 + sz + 8, 1<<63 - 1, 1 << 63, 1<<63 + 16, 1<<64 - 1, 1<<64 - 8, 1<<64 - 16, 1<<64 - 17} {
			edit(i, func(p bpos) { p.n.large = true; p.n.size = &v })
		}
		// types
		for _, ty := range bTypes {
			edit(i, func(p bpos) { p.n.typ = ty })
		}
		// contents
		for _, k := range []int{0, 1, 2, 4, 8, len(x.n.pre) / 2, len(x.n.pre) - 4, len(x.n.pre) - 2, len(x.n.pre) - 1} {
			if k >= 0 && k < len(x.n.pre) {
				edit(i, func(p bpos) { p.n.pre = p.n.pre[:k] })
				edit(i, func(p bpos) { p.n.pre = p.n.pre[:k]; p.n.kids = nil })
			}
		}
		for _, k := range []int{1, 4, 8, 4096} {
			for _, v := range []byte{0, 0xFF, 1} {
				edit(i, func(p bpos) { p.n.pre = append(p.n.pre, bytes.Repeat([]byte{v}, k)...) })
			}
		}
		// counts, with and without what is counted, and repeated
		for o := 0; o+4 <= min(len(x.n.pre), 24); o++ {
			for _, v := range []uint32{0xFFFFFFFF, 19200, 5_000_000, 1 << 30, 1024, 512, 341, 256, 204, 170, 128} {
				for _, m := range []int{0, 1, 2} {
					if m == 2 && v < 19200 {
						continue
					}
					edit(i, func(p bpos) {
						binary.BigEndian.PutUint32(p.n.pre[o:], v)
						switch m {
						case 1:
							p.n.pre = append(p.n.pre, make([]byte, 4096)...)
						case 2:
							insert(p.parent, p.i, copies(p.n, 40)...)
						}
					})
				}
			}
		}
	}
}

func (p bpos) typLeaf() bool { return len(p.n.kids) == 0 }

// bBytes gives mutations of the bytes lo to hi of a file.
func bBytes(s []byte, lo, hi int, f func(b []byte)) {
	for n := lo; n < hi; n++ {
		f(clone(s[:n]))
	}
	with := func(g func(x []byte)) {
		x := clone(s)
		g(x)
		f(x)
	}
	for i := lo; i < hi; i++ {
		for _, v := range rMenu {
			with(func(x []byte) { x[i] = v })
		}
		for k := range 8 {
			with(func(x []byte) { x[i] ^= 1 << k })
		}
		with(func(x []byte) { x[i]++ })
		with(func(x []byte) { x[i]-- })
		if i+4 <= hi {
			for _, v := range u32Menu {
				with(func(x []byte) { binary.BigEndian.PutUint32(x[i:], v) })
			}
		}
		if i+8 <= hi {
			for _, v := range []uint64{0, 1<<64 - 1, 1 << 63, 1<<63 - 1} {
				with(func(x []byte) { binary.BigEndian.PutUint64(x[i:], v) })
			}
		}
		if i+2 <= hi {
			for _, v := range []uint16{0, 1, 0x7FFF, 0x8000, 0xFFFF} {
				with(func(x []byte) { binary.BigEndian.PutUint16(x[i:], v) })
			}
		}
		for n := 1; n <= 4 && i+n <= hi; n++ {
			f(append(clone(s[:i]), s[i+n:]...))
		}
		for _, v := range rMenu[:7] {
			f(append(append(clone(s[:i]), v), s[i:]...))
		}
	}
}

// bPairs gives every pair of boundary values of the 32-bit words of tables and headers.
func bPairs(menu []uint32, t bfile, part, parts uint64, f func(b []byte)) {
	n := uint64(0)
	var pos [][2]int
	for i, x := range t.list() {
		switch x.n.typ {
		case "stts", "stss", "ctts", "stsc", "stsz", "stco", "mdhd", "trun", "tfhd", "tfdt", "elst":
			for o := 0; o+4 <= len(x.n.pre); o += 4 {
				pos = append(pos, [2]int{i, o})
			}
		}
	}
	for a := range pos {
		for b := range a {
			for _, v := range menu {
				for _, u := range menu {
					if n++; n%parts != part {
						continue
					}
					c := t.copyTree()
					l := c.list()
					binary.BigEndian.PutUint32(l[pos[a][0]].n.pre[pos[a][1]:], v)
					binary.BigEndian.PutUint32(l[pos[b][0]].n.pre[pos[b][1]:], u)
					f(c.bytes())
				}
			}
		}
	}
}

// kinds gives the readers of a file: of initializations, fragments, presentations.
func (f *rFile) kinds(all bool) string {
	switch k := f.name[:4]; {
	case k == "part":
		return "f"
	case all:
		return "ip"
	case k == "init":
		return "i"
	}
	return "p"
}

// rMP4 runs f on all mutations of the files, divided into work items.
func rMP4(c *kit.Ctx, ff func(w *kit.W, kinds string, b [][]byte)) {
	// files are given in groups
	group := func(w *kit.W, kinds string, g func(f func(b []byte))) {
		var l [][]byte
		g(func(b []byte) {
			l = append(l, b)
			if len(l) == 16 {
				ff(w, kinds, l)
				l = l[:0]
			}
		})
		if len(l) > 0 {
			ff(w, kinds, l)
		}
	}
	files := rFiles()
	full := c.Thorough()
	c.Range("valid", uint64(len(files)), "the valid files", func(w *kit.W) { ff(w, "ifp", [][]byte{files[w.Index].b}) })
	type item struct {
		f      *rFile
		lo, hi int
		path   string
	}
	var items []item
	for _, x := range files {
		lo, hi := x.lo, x.hi
		if full {
			lo, hi = 0, len(x.b)
		}
		for ; lo < hi; lo += 16 {
			items = append(items, item{f: x, lo: lo, hi: min(lo+16, hi)})
		}
	}
	c.Range("bytes", uint64(len(items)), "files of every codec and layout (in the quick tier, only the sample description of those that differ in the codec alone): every truncation, boundary values and bits of every byte, boundary values of 2, 4 and 8 bytes at every offset, every deletion of up to 4 bytes and insertion of a byte", func(w *kit.W) {
		it := items[w.Index]
		w.Trace("%s, bytes %d to %d", it.f.name, it.lo, it.hi)
		// the mutations of a range of 16 bytes may involve the bytes after it
		group(w, it.f.kinds(full), func(f func(b []byte)) { bBytes(it.f.b, it.lo, it.hi, f) })
	})
	items = nil
	for _, x := range files {
		seen := map[string]bool{}
		for _, p := range x.tree.list() {
			if !seen[p.path] && (full || x.lo == 0 || bytes.Contains([]byte(p.path), []byte("/stsd"))) {
				items = append(items, item{f: x, path: p.path})
			}
			seen[p.path] = true
		}
	}
	c.Range("boxes", uint64(len(items)), "the same files: every removal, repetition, move, graft and replacement of boxes, every box with other sizes (32 and 64 bits), types, shorter and longer contents, large counts with and without what is counted", func(w *kit.W) {
		it := items[w.Index]
		w.Trace("%s, %s", it.f.name, it.path)
		group(w, it.f.kinds(full || it.f.lo == 0), func(f func(b []byte)) {
			bEdits(it.f.tree, func(p string) bool { return p == it.path }, f)
		})
	})
	var pf []*rFile
	for _, x := range files {
		if full && x.name[:4] != "init" || x.name == "presentation-0" || x.name == "parts-1" {
			pf = append(pf, x)
		}
	}
	const nPart = 64
	c.Range("tables", uint64(len(pf)*nPart), "pairs of boundary values of all 32-bit words of sample tables and fragment headers", func(w *kit.W) {
		group(w, pf[w.Index/nPart].kinds(full), func(f func(b []byte)) {
			bPairs(kit.T(c, []uint32{0, 1, 0xFFFFFFFF}, []uint32{0, 1, 2, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}), pf[w.Index/nPart].tree, w.Index%nPart, nPart, f)
		})
	})
}

func rMP4Limit(n int) uint64 { return 2<<20 + uint64(n)*2000 }

// rMP4Read reads some files.
func rMP4Read(w *kit.W, kinds string, files [][]byte) {
	w.Alive()
	nk := len(kinds)
	res := make([]string, len(files))
	var fetch []func()
	w.BoundedBatch(len(files)*nk, 40000, func(i int) uint64 { return rMP4Limit(len(files[i/nk])) }, rTime, func(i int) {
		b := files[i/nk]
		b = b[:len(b):len(b)]
		w.Input = b
		var err error
		switch kinds[i%nk] {
		case 'i':
			var ini fmp4.Init
			err = ini.Unmarshal(bytes.NewReader(b))
		case 'f':
			var parts fmp4.Parts
			err = parts.Unmarshal(b)
			n := 0
			for _, p := range parts {
				for _, t := range p.Tracks {
					for _, s := range t.Samples {
						if n++; n < 100 && s != nil {
							s.GetAV1()  //nolint:errcheck
							s.GetH264() //nolint:errcheck
							s.GetH265() //nolint:errcheck
						}
					}
				}
			}
		case 'p':
			var pres pmp4.Presentation
			err = pres.Unmarshal(bytes.NewReader(b))
			if err != nil {
				break
			}
			n := 0
			for _, t := range pres.Tracks {
				for _, s := range t.Samples {
					if n++; n < 12 {
						fetch = append(fetch, func() { w.Input = b; s.GetPayload() }) //nolint:errcheck
					}
				}
			}
		}
		if err != nil {
			res[i/nk] += err.Error()
		}
		res[i/nk] += "|"
	})
	w.BoundedBatch(len(fetch), 2048, func(i int) uint64 { return rMP4Limit(1000) }, rTime, func(i int) { fetch[i]() })
	w.Ops(int64(len(files)*nk + len(fetch)))
	for _, r := range res {
		w.Step(kit.H(r))
	}
}

// rMP4Amplified reads files with long tables and many boxes, each entry of which counts as much as the file may allow once.
func rMP4Amplified(c *kit.Ctx) {
	var tf []*rFile
	for _, x := range rFiles() {
		if x.name == "presentation-0" || x.name == "parts-1" {
			tf = append(tf, x)
		}
	}
	type table struct {
		typ       string
		pre, word int // bytes before the entries, of which the last 4 are the count; words of an entry
	}
	tables := []table{{"stts", 8, 2}, {"ctts", 8, 2}, {"stsc", 8, 3}, {"stss", 8, 1}, {"stsz", 12, 1}, {"stco", 8, 1}, {"elst", 8, 3}, {"trun", 8, 1}}
	counts := kit.T(c, []int{16, 400, 3000}, []int{4, 16, 64, 400, 1000, 3000, 20000})
	repeats := kit.T(c, []int{16, 300, 1500}, []int{4, 16, 60, 300, 1500, 4000})
	values := func(n int, size int) []uint32 {
		return []uint32{1, 2, uint32(size / (8 * n)), uint32(size / (4 * n)), uint32(size / n), uint32(size / 64), uint32(size / 16), uint32(size / 8), uint32(size/4 - 1), uint32(size / 4), uint32(size), 19199, 19200, 65535, 1 << 20, 5_000_000}
	}
	const nv = 16
	c.Range("amplified", uint64(len(tf)*len(tables)*nv), "long tables and many tables, fragments and tracks, each entry of which counts as many samples as the whole file could hold, or its share", func(w *kit.W) {
		f := tf[w.Index/nv/uint64(len(tables))]
		t := tables[w.Index/nv%uint64(len(tables))]
		vi := int(w.Index % nv)
		run := func(c bfile) { rMP4Read(w, f.kinds(false), [][]byte{c.bytes()}) }
		kids := func(c bfile, typ string, g func(p bpos)) {
			for _, p := range c.list() {
				if p.n.typ == typ {
					g(p)
					return
				}
			}
		}
		for _, n := range counts {
			v := values(n, len(f.b)+4*t.word*n)[vi]
			for o := range t.word {
				c := f.tree.copyTree()
				kids(c, t.typ, func(p bpos) {
					if len(p.n.pre) < t.pre {
						return
					}
					p.n.pre = p.n.pre[:t.pre:t.pre]
					binary.BigEndian.PutUint32(p.n.pre[t.pre-4:], uint32(n))
					for i := range n {
						for k := range t.word {
							x := uint32(1)
							if k == o {
								x = v
							} else if t.typ == "stsc" && k == 0 {
								x = uint32(i + 1)
							}
							p.n.pre = binary.BigEndian.AppendUint32(p.n.pre, x)
						}
					}
					run(c)
				})
			}
		}
		// the count itself, in a box, a fragment or a track that is repeated
		for _, n := range repeats {
			for _, typ := range []string{t.typ, "traf", "moof", "trak"} {
				for _, keep := range []bool{true, false} {
					c := f.tree.copyTree()
					kids(c, t.typ, func(p bpos) {
						if len(p.n.pre) < t.pre {
							return
						}
						o := t.pre - 4
						switch {
						case t.typ == "stts":
							// one entry
							p.n.pre = append(p.n.pre[:8:8], 0, 0, 0, 0, 0, 0, 0, 1)
							binary.BigEndian.PutUint32(p.n.pre[4:], 1)
							o = 8
						case t.typ == "trun" && !keep:
							// nothing is stored about each sample
							binary.BigEndian.PutUint32(p.n.pre, 1)
							p.n.pre = append(p.n.pre[:8:8], 0, 0, 0, 0)
						}
						kids(c, typ, func(r bpos) {
							v := values(n, len(f.b)+n*len(r.n.bytes()))[vi]
							binary.BigEndian.PutUint32(p.n.pre[o:], v)
							l := r.parent.kids[:r.i:r.i]
							for range n {
								l = append(l, r.n)
							}
							r.parent.kids = append(l, r.parent.kids[r.i+1:]...)
							run(c)
						})
					})
				}
			}
		}
	})
}

func init() {
	kit.Register(&kit.Check{
		ID: "R02",
		Assumptions: []string{
			"allocations are bounded by 2 MiB plus 2000 bytes per byte of input, a call by 3 seconds (measured again alone before reporting)",
			"accessors of the result (access units of samples, payloads of the first samples) are called on what was read",
		},
		Run: func(c *kit.Ctx) {
			rMP4(c, rMP4Read)
			rMP4Amplified(c)
		},
	})
}
