package bodyh

import (
	"slices"

	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// profile steers the generators of one target.
type profile struct {
	ctors    []string // weights by repetition
	needSeek bool     // only sources whose bodies promise Seek and ReadAt
	ops      []string // operation mix, weights by repetition
	minOps   int
	maxOps   int
	declared []string // none, exact, under, over (for readerlen)
	faults   []string // "", pos, read, seek
	huge     bool
	small    bool // small contents mostly
	closable bool // prefer closable sources
	lib      bool // sources of the standard library
	bulk     bool // contents and buffers of megabytes
	crowd    int  // up to so many copies
}

var allCtors = []string{"bytes", "string", "empty", "reader", "reader", "reader", "readerlen", "readerlen"}

var boundary = []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 98304, 131071, 131072, 131073, 196608}

func genLen(t *rapid.T, p *profile) int64 {
	if p.bulk {
		return core.Pick(t, []int64{1 << 18, 1 << 20, 1 << 20, 1 << 21, 1 << 22, 3 << 20, 5 << 20}) + rapid.Int64Range(-2, 70000).Draw(t, "delta")
	}
	if p.crowd > 1000 {
		return rapid.Int64Range(0, 100).Draw(t, "len")
	}
	mode := core.Uniform(t, 20)
	if p.crowd > 0 && !core.Chance(t, 30) {
		mode %= 9
	}
	switch {
	case mode < 5 || (p.small && mode < 13):
		return rapid.Int64Range(0, 12).Draw(t, "len")
	case mode < 9:
		return rapid.Int64Range(0, 600).Draw(t, "len")
	case mode < 13:
		return core.Pick(t, boundary)
	case mode < 16:
		return rapid.Int64Range(0, 70000).Draw(t, "len")
	case mode < 19:
		k := rapid.Int64Range(0, 4).Draw(t, "blocks")
		return max(0, k*65536+rapid.Int64Range(-3, 3).Draw(t, "delta"))
	default:
		return rapid.Int64Range(0, 600000).Draw(t, "len")
	}
}

var hugeLens = []int64{1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 5, 1<<33 + 70000, 1 << 40, 1 << 50}

func genSrc(t *rapid.T, p *profile) Src {
	ctors := p.ctors
	if ctors == nil {
		ctors = allCtors
	}
	s := Src{Ctor: core.Pick(t, ctors), Pat: rapid.Uint64Range(0, 5).Draw(t, "pat")}
	s.Len = genLen(t, p)
	if s.Ctor == "empty" {
		s.Len = 0
	}
	if s.Ctor != "reader" && s.Ctor != "readerlen" {
		return s
	}
	s.Caps = core.Uniform(t, 16)
	if p.lib {
		genLib(t, &s)
	}
	if p.crowd > 1000 {
		s.Caps = core.Pick(t, []int{CapClose, CapClose | CapSeek, CapClose | CapSeek | CapAt, CapClose | CapStat | CapAt})
	}
	if s.Caps&CapStat != 0 {
		s.Caps |= CapClose
	}
	if p.closable && !p.lib && core.Uniform(t, 10) < 8 {
		s.Caps |= CapClose
	}
	if p.needSeek && !s.seekable() && !p.lib {
		s.Caps |= core.Pick(t, []int{CapSeek, CapSeek, CapSeek | CapAt, CapStat | CapAt | CapClose})
	}
	if p.huge && (s.seekable() || s.Ctor == "readerlen") && core.Uniform(t, 6) == 0 {
		s.Len = core.Pick(t, hugeLens)
	}
	if s.Ctor == "readerlen" {
		modes := p.declared
		if modes == nil {
			modes = []string{"exact", "exact", "exact", "none", "under"}
		}
		switch core.Pick(t, modes) {
		case "exact":
			s.Declared = s.Len
		case "none":
			s.Declared = -core.Pick(t, []int64{1, 1, 2, 65536, 1 << 40})
		case "under":
			s.Declared = rapid.OneOf(
				rapid.Int64Range(0, s.Len),
				rapid.Just(max(s.Len-1, 0)),
				rapid.Just(s.Len/2),
				rapid.Just(min(s.Len, 65536)),
				rapid.Just(int64(0)),
			).Draw(t, "dec")
		case "over":
			s.Declared = s.Len + core.Pick(t, []int64{1, 2, 3, 100, 65535, 65536, 65537, 200000, 1 << 40})
		}
		if s.knownLen() > s.Len && s.kind() == "stream" && s.Declared > s.Len+300000 {
			s.Declared = s.Len + 200000 // keeps read-ahead affordable
		}
	}
	if core.Uniform(t, 3) > 0 {
		pool := []int{1, 2, 3, 7, 100, 512, 4096, 65535, 65536, 65537}
		if s.Len > 20000 {
			pool = []int{100, 511, 4096, 5000, 32768, 65535, 65536, 65537}
		}
		zeros := []int{1, 1, 2, 3, 8, 20}
		if s.Len > 1<<18 { // a trickle from a source this long takes minutes
			pool, zeros = []int{4096, 32768, 65535, 65536, 65537, 1 << 18}, []int{1, 1, 2}
		}
		s.Chunks = rapid.SliceOfN(rapid.SampledFrom(pool), 1, 4).Draw(t, "chunks")
		if core.Uniform(t, 5) == 0 {
			for range core.Pick(t, zeros) {
				s.Chunks = append(s.Chunks, 0)
			}
		}
	}
	s.EOFWith = rapid.Bool().Draw(t, "eofwith")
	s.AtEOF = rapid.Bool().Draw(t, "ateof")
	s.CloseErr = core.Uniform(t, 3) == 0
	if s.CloseErr {
		s.CErr = core.GenErr(t, true)
	}
	if p.lib {
		s.CloseErr, s.Chunks = false, nil
	}
	if p.faults != nil {
		s.Fault = genFault(t, p, &s)
	}
	return s
}

func genFault(t *rapid.T, p *profile, s *Src) Fault {
	f := Fault{Kind: core.Pick(t, p.faults)}
	if f.Kind == "" {
		return f
	}
	if f.Kind == "seek" && s.Caps&CapSeek == 0 {
		f.Kind = "pos"
	}
	switch f.Kind {
	case "pos":
		hi := max(s.visible()-1, 0)
		if s.visible() == s.Len && core.Chance(t, 4) {
			hi = s.Len // fails where the end should be
		}
		f.Pos = rapid.OneOf(
			rapid.Int64Range(0, hi),
			rapid.Int64Range(max(0, hi-3), hi),
			rapid.Just(int64(0)),
			rapid.Just(min(hi, 65535)),
			rapid.Just(min(hi, 65536)),
		).Draw(t, "fpos")
	default:
		f.Nth = core.Uniform(t, 9)
	}
	if rapid.Bool().Draw(t, "transient") {
		f.Times = rapid.IntRange(1, 3).Draw(t, "ftimes")
	}
	f.With = rapid.Bool().Draw(t, "fwith")
	f.Err = core.Pick(t, []int{0, 0, 0, 1, 2, 3, 4, 5, 6, 7})
	if e := core.GenErr(t, false); e > 0 && core.Chance(t, 3) {
		f.Err = 7 + e
	}
	return f
}

var sizes = []int64{0, 1, 1, 2, 3, 4, 5, 7, 8, 16, 100, 511, 512, 513, 4096, 32768, 65535, 65536, 65537, 131072, 200000}

func genSize(t *rapid.T, p *profile) (n int64, rel bool) {
	if p.bulk && core.Uniform(t, 3) > 0 {
		return core.Pick(t, []int64{1 << 18, 1 << 20, 1 << 20, 2 << 20, 3 << 20, 4 << 20, 6 << 20}) + rapid.Int64Range(-2, 2).Draw(t, "delta"), false
	}
	small := p.small
	switch core.Uniform(t, 10) {
	case 0, 1, 2:
		return rapid.Int64Range(0, 12).Draw(t, "size"), false
	case 3, 4:
		return rapid.Int64Range(-3, 3).Draw(t, "relsize"), true
	case 5:
		return rapid.Int64Range(0, 3000).Draw(t, "size"), false
	default:
		if small {
			return rapid.Int64Range(0, 20).Draw(t, "size"), false
		}
		return core.Pick(t, sizes), false
	}
}

var farOffsets = []int64{1 << 31, 1 << 32, 1 << 50, 1<<62 - 1, 1<<63 - 1}

func genOp(t *rapid.T, p *profile, s *Src) Op {
	op := Op{K: core.Pick(t, p.ops)}
	op.B = core.Uniform(t, 8)
	if p.crowd > 0 {
		op.B = rapid.IntRange(0, p.crowd).Draw(t, "body")
	}
	switch op.K {
	case "read", "all":
		op.N, op.Rel = genSize(t, p)
	case "toend":
		op.N, _ = genSize(t, p)
	case "readat":
		op.N, op.Rel = genSize(t, p)
		switch core.Uniform(t, 10) {
		case 0, 1:
			op.Off, op.End = rapid.Int64Range(-5, 5).Draw(t, "off"), true
		case 2:
			op.Off = core.Pick(t, farOffsets)
		case 3:
			op.Off = core.Pick(t, []int64{-1, -2, -65536, -1 << 50, -1 << 63})
		case 4, 5:
			op.Off = rapid.Int64Range(0, 12).Draw(t, "off")
		default:
			op.Off = rapid.Int64Range(0, min(s.Len, 1<<51)+3).Draw(t, "off")
		}
	case "seek":
		op.W = core.Pick(t, []int{0, 0, 0, 1, 1, 1, 2, 2, 2, 3, -1, 100})
		l := min(s.Len, 1<<51)
		switch core.Uniform(t, 10) {
		case 0:
			op.Off = core.Pick(t, farOffsets[:3])
			if op.W == 0 {
				op.Off = core.Pick(t, farOffsets)
			}
		case 1:
			op.Off = core.Pick(t, []int64{-1, -2, -65536, -1 << 50, -1 << 62, -1 << 63})
		case 2:
			op.Off, op.End = rapid.Int64Range(-5, 5).Draw(t, "off"), true
		default:
			switch op.W {
			case 0:
				op.Off = rapid.Int64Range(0, l+3).Draw(t, "off")
			case 1:
				if rapid.Bool().Draw(t, "near") {
					op.Off = rapid.Int64Range(-6, 6).Draw(t, "off")
				} else {
					op.Off = rapid.Int64Range(-l-3, l+3).Draw(t, "off")
				}
			default:
				op.Off = rapid.Int64Range(-l-3, 3).Draw(t, "off")
			}
		}
	case "drain":
		op.N, op.Rel = genSize(t, p)
		op.W = core.Uniform(t, 8)
		op.Off = int64(core.GenErr(t, true))
	}
	return op
}

func genHist(p *profile) func(*rapid.T) Hist {
	return func(t *rapid.T) Hist {
		h := Hist{Src: genSrc(t, p)}
		maxOps := p.maxOps
		if !p.bulk && p.crowd == 0 && core.Chance(t, 60) {
			maxOps *= 10
		}
		if p.crowd > 0 {
			h.Crowd.N = rapid.IntRange(p.crowd/8, p.crowd).Draw(t, "crowd")
			h.Crowd.Stride = rapid.IntRange(0, 40).Draw(t, "stride")
			h.Crowd.Adv = rapid.SliceOfN(rapid.IntRange(0, 6), 0, 4).Draw(t, "adv")
		}
		minOps, shape := p.minOps, 0
		if !p.bulk && p.crowd == 0 {
			shape = core.Uniform(t, 12)
		}
		if shape == 1 || shape == 2 { // a long story about few bodies
			minOps, maxOps = minOps*2, max(maxOps*2, 60)
			if shape == 1 && maxOps < 200 {
				minOps = 30
			}
		}
		h.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
			op := genOp(t, p, &h.Src)
			if shape == 2 {
				switch core.Uniform(t, 12) {
				case 0, 1:
					op = Op{K: "copy", B: op.B}
				case 2:
					if slices.Contains(p.ops, "close") {
						op = Op{K: "close", B: op.B}
					}
				}
				h.More = 24
			}
			switch shape {
			case 1:
				op.B &= 1
			case 2: // copies of copies: mostly about the latest ones
				if op.K != "close" || op.B == 0 {
					op.B = -1 - op.B/4
				}
			}
			return op
		}), minOps, maxOps).Draw(t, "ops")
		h.Final = rapid.SliceOfN(rapid.IntRange(0, 7), 0, 8).Draw(t, "final")
		h.Buf = core.Pick(t, []int64{1, 3, 512, 4096, 32768, 65536, 100000})
		if p.bulk {
			h.Buf = core.Pick(t, []int64{32768, 100000, 1 << 20, 1<<20 + 1, 2 << 20, 8 << 20})
		}
		if p.crowd > 1000 {
			h.Buf = 512
		}
		h.Quiet = core.Uniform(t, 3) == 0
		return h
	}
}
