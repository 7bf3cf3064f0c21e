package props

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"

	"verif/mc/kit"
)

// errKey is an error without its numbers.
func errKey(err error) string {
	if err == nil {
		return ""
	}
	return strings.Map(func(r rune) rune {
		switch {
		case r == ' ' || r == ':':
			return '-'
		case r >= '0' && r <= '9':
			return -1
		}
		return r
	}, err.Error())
}

type presVal struct {
	tracks string
	data   [][]byte
}

// rUnwritable tells whether a codec is one that the writer declares not to support.
func rUnwritable(c codecs.Codec) bool {
	switch c := c.(type) {
	case *codecs.MPEG4Audio:
		return c.Config.ChannelConfig == 0 // the number of channels is not known
	case *codecs.EAC3:
		return c.SampleRate != 48000 && c.SampleRate != 44100 && c.SampleRate != 32000
	}
	return false
}

// presUnwritable tells whether a presentation has durations in milliseconds that do not fit in 32 bits.
func presUnwritable(p *pmp4.Presentation) bool {
	for _, t := range p.Tracks {
		x := &presTrack{ts: t.TimeScale, off: t.TimeOffset}
		for _, s := range t.Samples {
			x.ss = append(x.ss, presSample{dur: s.Duration})
		}
		if rUnwritable(t.Codec) || t.TimeOffset == math.MinInt32 || x.tooLong() {
			return true
		}
	}
	return false
}

// presValue describes a presentation with its payloads; false if some cannot be read.
func presValue(p *pmp4.Presentation) (presVal, bool) {
	var v presVal
	var sb strings.Builder
	for _, t := range p.Tracks {
		fmt.Fprintf(&sb, "track %d %d %d %s\n", t.ID, t.TimeScale, t.TimeOffset, deepText(t.Codec))
		for _, s := range t.Samples {
			fmt.Fprintf(&sb, "%d %d %v %d\n", s.Duration, s.PTSOffset, s.IsNonSyncSample, s.PayloadSize)
			d, err := s.GetPayload()
			if err != nil {
				return v, false
			}
			v.data = append(v.data, d)
		}
	}
	v.tracks = sb.String()
	return v, true
}

// rMP4Fix checks that what is read can be written and read again.
func rMP4Fix(w *kit.W, kinds string, files [][]byte) {
	w.Alive()
	for _, b := range files {
		for _, k := range kinds {
			w.Input = b
			rMP4FixOne(w, k, b)
			w.Ops(1)
		}
	}
}

func rMP4FixOne(w *kit.W, k rune, b []byte) {
	switch k {
	case 'i':
		var x fmp4.Init
		if x.Unmarshal(bytes.NewReader(b)) != nil {
			return
		}
		before := deepText(x)
		var buf, buf2 seekablebuffer.Buffer
		err := x.Marshal(&buf)
		for _, t := range x.Tracks {
			if err != nil && rUnwritable(t.Codec) {
				return
			}
		}
		w.Check(err == nil, "init-encode-"+errKey(err), "%s cannot be encoded: %v; from %x", before, err, b)
		w.Check(deepText(x) == before, "init-changed", "encoding changed the value from %s to %s", before, deepText(x))
		var y fmp4.Init
		err = y.Unmarshal(bytes.NewReader(buf.Bytes()))
		w.Check(err == nil && deepText(y) == before, "init-again-"+errKey(err), "%s is encoded and decoded as %s (%v)", before, deepText(y), err)
		err = y.Marshal(&buf2)
		w.Check(err == nil && eq(buf.Bytes(), buf2.Bytes()), "init-stable", "%s: encoded as %x, then as %x (%v)", before, buf.Bytes(), buf2.Bytes(), err)
		w.Step(kit.H(before))
	case 'f':
		var x fmp4.Parts
		if x.Unmarshal(b) != nil {
			return
		}
		before := partsDump(x)
		var buf, buf2 seekablebuffer.Buffer
		err := x.Marshal(&buf)
		w.Check(err == nil, "parts-encode-"+errKey(err), "%s cannot be encoded: %v", before, err)
		w.Check(partsDump(x) == before, "parts-changed", "encoding changed the value from %s to %s", before, partsDump(x))
		var y fmp4.Parts
		err = y.Unmarshal(buf.Bytes())
		w.Check(err == nil && partsDump(y) == before, "parts-again-"+errKey(err), "%s is encoded and decoded as %s (%v); from %x", before, partsDump(y), err, b)
		err = y.Marshal(&buf2)
		w.Check(err == nil && eq(buf.Bytes(), buf2.Bytes()), "parts-stable", "%s: encoded as %x, then as %x (%v)", before, buf.Bytes(), buf2.Bytes(), err)
		w.Step(kit.H(before))
	case 'p':
		var x pmp4.Presentation
		if x.Unmarshal(bytes.NewReader(b)) != nil {
			return
		}
		before, ok := presValue(&x)
		if !ok {
			return
		}
		var buf, buf2 bytes.Buffer
		err := x.Marshal(&buf)
		if err != nil && presUnwritable(&x) {
			return
		}
		w.Check(err == nil, "presentation-encode-"+errKey(err), "%s cannot be encoded: %v; from %x", before.tracks, err, b)
		after, _ := presValue(&x)
		w.Check(deepEq(before, after), "presentation-changed", "encoding changed the value from %v to %v", before, after)
		var y pmp4.Presentation
		err = y.Unmarshal(bytes.NewReader(buf.Bytes()))
		w.Check(err == nil, "presentation-again-"+errKey(err), "%s is encoded but not decoded again: %v; from %x", before.tracks, err, b)
		after, ok = presValue(&y)
		w.Check(ok && deepEq(before, after), "presentation-again", "%v is encoded and decoded as %v; from %x", before, after, b)
		err = y.Marshal(&buf2)
		w.Check(err == nil && eq(buf.Bytes(), buf2.Bytes()), "presentation-stable", "%s: encoded as %x, then as %x (%v)", before.tracks, buf.Bytes(), buf2.Bytes(), err)
		w.Step(kit.H(before.tracks))
	}
}
