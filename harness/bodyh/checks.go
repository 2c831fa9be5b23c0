package bodyh

import (
	"github.com/chronos-tachyon/morehttp/zverif/core"
)

const sameContents = "contents of sources are a hash of the position, so swapped, repeated or misplaced bytes are seen"

func has(h *Hist, kinds ...string) bool {
	for _, op := range h.Ops {
		for _, k := range kinds {
			if op.K == k {
				return true
			}
		}
	}
	return false
}

func count(h *Hist, kind string) (n int) {
	for _, op := range h.Ops {
		if op.K == kind {
			n++
		}
	}
	return
}

// hist makes a target running histories of a profile under some aspects.
func hist(name string, quick int, p profile, aspects []string, nontrivial func(h *Hist, m *machine) bool) *core.Target {
	set := aspectSet(aspects...)
	return core.New(name, quick, genHist(&p), func(h Hist, o *core.Obs) error {
		m := runHist(h, o, set)
		if nontrivial(&h, m) {
			o.NonTrivial()
		}
		return nil
	})
}

func ops(spec ...any) (out []string) {
	for i := 0; i+1 < len(spec); i += 2 {
		for n := 0; n < spec[i+1].(int); n++ {
			out = append(out, spec[i].(string))
		}
	}
	return
}

func init() {
	mixed := ops("read", 8, "copy", 4, "seek", 4, "readat", 3, "drain", 2, "toend", 1, "close", 2, "remain", 2, "unwrap", 1)

	core.Register(&core.Check{
		ID:          "C01",
		Rule:        "a case is a source (how it is constructed, its capabilities, length, short-read pattern, EOF style) and a sequence of read sizes, followed by reading to the end; non-trivial if the body is longer than the first buffer, i.e. at least two reads delivered or could deliver data, or if the source splits its reads" + consumersRule,
		Assumptions: []string{sameContents, "sources return at least one byte in every few calls"},
		Findings:    []core.Finding{{Key: "pipe-stat-size", Probe: probePipe}},
		Targets: []*core.Target{
			libraryTarget(ops("read", 8, "toend", 1, "drain", 1, "copy", 1), "data", "eof", "drain"),
			consumersTarget(6000),
			hist("reads", 28800, profile{ops: ops("read", 9, "drain", 1, "toend", 1, "remain", 1, "unwrap", 1), minOps: 0, maxOps: 14}, []string{"data", "eof", "drain"},
				func(h *Hist, m *machine) bool { return m.V > 0 && (has(h, "read") || len(h.Src.Chunks) > 0) }),
			hist("small", 28800, profile{ops: ops("read", 9, "copy", 1, "toend", 1, "remain", 1, "unwrap", 1), maxOps: 14, small: true}, []string{"data", "eof"},
				func(h *Hist, m *machine) bool { return m.V > 0 && (has(h, "read") || len(h.Src.Chunks) > 0) }),
			longTarget(),
			hist("bulk", 240, profile{ops: ops("read", 6, "seek", 2, "readat", 2, "copy", 3, "drain", 1, "close", 1), minOps: 1, maxOps: 10, bulk: true}, []string{"data", "eof", "drain"},
				func(h *Hist, m *machine) bool { return m.V > 0 && has(h, "read", "readat", "drain") }),
		},
	})

	core.Register(&core.Check{
		ID:          "C02",
		Rule:        "a case is a source and a history of copy/read/seek/readat/drain/close over up to eight bodies, all survivors being drained at the end; non-trivial if at least one copy of an open body was made and at least two bodies delivered data" + consumersRule,
		Assumptions: []string{sameContents},
		Targets: []*core.Target{
			libraryTarget(mixed, "data", "eof", "seek", "readat", "drain", "remain"),
			consumersTarget(4000, "dup", "dup", "dup", "multi", "copyn", "readfull", "limit", "seek", "copy", "writeto", "request", "response", "atleast"),
			hist("histories", 36000, profile{ops: mixed, minOps: 2, maxOps: 24, huge: true}, []string{"data", "eof", "seek", "readat", "drain", "remain"},
				func(h *Hist, m *machine) bool { return m.copies > 0 && m.V > 0 }),
			hist("streams", 36000, profile{ctors: []string{"reader", "readerlen"}, ops: ops("read", 8, "copy", 4, "toend", 1, "close", 3, "all", 1, "remain", 2, "unwrap", 1), minOps: 2, maxOps: 30}, []string{"data", "eof", "drain", "remain"},
				func(h *Hist, m *machine) bool { return m.copies > 0 && m.V > 0 }),
			hist("bulk", 240, profile{ops: ops("read", 6, "seek", 2, "readat", 2, "copy", 3, "drain", 1, "close", 1), minOps: 1, maxOps: 10, bulk: true}, []string{"data", "eof", "seek", "readat", "drain", "remain"},
				func(h *Hist, m *machine) bool { return m.V > 0 && has(h, "read", "readat", "drain") }),
			hist("crowd", 600, profile{ops: ops("read", 6, "seek", 1, "readat", 1, "copy", 3, "drain", 1, "close", 4, "toend", 1, "all", 3, "remain", 1, "unwrap", 1), minOps: 1, maxOps: 40, crowd: 400, small: true, closable: true}, []string{"data", "eof", "seek", "readat", "drain", "remain"},
				func(h *Hist, m *machine) bool { return m.copies > 16 }),
			hist("multitude", 16, profile{ctors: []string{"reader"}, ops: ops("read", 6, "copy", 3, "close", 4), minOps: 1, maxOps: 10, crowd: 70000, closable: true}, []string{"data", "eof"},
				func(h *Hist, m *machine) bool { return m.copies > 16 }).WithFactor(10),
		},
	})

	core.Register(&core.Check{
		ID:          "C03",
		Rule:        "a case is a source (with truthful, or wrongly declared, length) and a history; BytesRemaining of every body is compared with the model after every step and with what reading to the end delivers; non-trivial if some body moved before a comparison (a read, seek, drain or copy took place) and the body is not empty",
		Assumptions: []string{sameContents},
		Targets: []*core.Target{
			libraryTarget(mixed, "remain", "eof"),
			hist("remain", 43200, profile{ops: mixed, minOps: 1, maxOps: 20, huge: true}, []string{"remain", "eof"},
				func(h *Hist, m *machine) bool { return m.V > 0 && has(h, "read", "seek", "drain", "copy", "toend") }),
			hist("remain-declared", 14400, profile{ctors: []string{"readerlen"}, ops: mixed, minOps: 1, maxOps: 16, declared: []string{"over", "under"}}, []string{"remain"},
				func(h *Hist, m *machine) bool { return m.V > 0 && has(h, "read", "seek", "drain", "copy", "toend") }),
			longTarget(),
			hist("crowd", 600, profile{ops: ops("read", 6, "seek", 2, "copy", 3, "drain", 1, "close", 4, "toend", 1, "all", 3, "remain", 1, "unwrap", 1), minOps: 1, maxOps: 30, crowd: 100, small: true, closable: true}, []string{"remain"},
				func(h *Hist, m *machine) bool { return m.copies > 4 }),
		},
	})

	core.Register(&core.Check{
		ID:          "C04",
		Rule:        "a case is a seekable source and a history of seeks (all whence values, in and out of range, typed errors) mixed with reads and copies; non-trivial if it contains a seek and the body is not empty.  seeks-faults: the source fails now and then, and seeks follow; non-trivial if it did" + consumersRule,
		Assumptions: []string{sameContents, "targets representable in 64 bits"},
		Targets: []*core.Target{
			libraryTarget(ops("seek", 8, "read", 6, "copy", 1), "seek", "data", "eof"),
			consumersTarget(4000, "seek", "seek", "iotest", "readfull", "copyn", "readall", "dup"),
			hist("seeks", 43200, profile{ops: ops("seek", 8, "read", 6, "copy", 1, "readat", 1, "drain", 1, "toend", 1, "close", 1, "remain", 1, "unwrap", 1), minOps: 1, maxOps: 20, needSeek: true, huge: true}, []string{"seek", "data", "eof"},
				func(h *Hist, m *machine) bool { return m.V > 0 && has(h, "seek") }),
			hist("seeks-faults", 14400, profile{ops: ops("seek", 8, "read", 8, "copy", 1, "readat", 1, "remain", 1), minOps: 2, maxOps: 14, needSeek: true, faults: []string{"pos", "read", "read", "seek"}}, []string{"seek", "data", "eof", "fail"},
				func(h *Hist, m *machine) bool { r, _ := m.snap(); return r > 0 && has(h, "seek") }),
			hist("seeks-small", 28800, profile{ops: ops("seek", 8, "read", 6, "copy", 1, "drain", 1, "toend", 1), minOps: 1, maxOps: 16, needSeek: true, small: true}, []string{"seek", "data", "eof"},
				func(h *Hist, m *machine) bool { return m.V > 0 && has(h, "seek") }),
		},
	})

	core.Register(&core.Check{
		ID:          "C05",
		Rule:        "a case is a source with positional reads (native or emulated) and a history of positional reads at all offsets mixed with cursor operations; non-trivial if it contains a positional read and the body is not empty.  readat-faults: the source fails now and then; non-trivial if it did" + consumersRule,
		Assumptions: []string{sameContents},
		Targets: []*core.Target{
			libraryTarget(ops("readat", 8, "read", 4, "seek", 2, "copy", 2), "readat", "data", "eof", "remain"),
			consumersTarget(4000, "section", "section", "iotest", "readfull", "copyn", "seek", "dup"),
			hist("readat", 43200, profile{ops: ops("readat", 8, "read", 4, "seek", 2, "copy", 2, "drain", 1, "close", 1, "remain", 1, "unwrap", 1), minOps: 1, maxOps: 18, needSeek: true, huge: true}, []string{"readat", "data", "eof", "remain"},
				func(h *Hist, m *machine) bool { return m.V > 0 && has(h, "readat") }),
			hist("readat-small", 28800, profile{ops: ops("readat", 8, "read", 4, "seek", 2, "copy", 1), minOps: 1, maxOps: 12, needSeek: true, small: true}, []string{"readat", "data", "eof", "remain"},
				func(h *Hist, m *machine) bool { return m.V > 0 && has(h, "readat") }),
			hist("readat-faults", 14400, profile{ops: ops("readat", 6, "read", 6, "seek", 2, "copy", 1, "remain", 1), minOps: 2, maxOps: 12, needSeek: true, faults: []string{"pos", "read", "read", "seek"}}, []string{"readat"},
				func(h *Hist, m *machine) bool { r, _ := m.snap(); return r > 0 && has(h, "readat") }),
			hist("bulk", 240, profile{ops: ops("read", 6, "seek", 2, "readat", 2, "copy", 3, "drain", 1, "close", 1), minOps: 1, maxOps: 10, bulk: true}, []string{"readat", "data", "eof", "remain"},
				func(h *Hist, m *machine) bool { return m.V > 0 && has(h, "read", "readat", "drain") }),
		},
	})

	core.Register(&core.Check{
		ID:          "C06",
		Rule:        "a case is a source and a history containing drains (io.Copy or WriteTo) from any position into writers that accept everything, fail after k bytes, accept short, or fail having accepted everything; non-trivial if it contains a drain and the body is not empty" + consumersRule,
		Assumptions: []string{sameContents},
		Targets: []*core.Target{
			libraryTarget(ops("drain", 6, "read", 4, "seek", 2, "copy", 2), "drain", "data", "eof"),
			consumersTarget(6000, "copy", "copy", "writeto", "writeto", "copyn", "copybuffer", "tee", "bufio", "multi", "dup", "seek", "limit", "request", "response"),
			hist("drains", 36000, profile{ops: ops("drain", 6, "read", 4, "seek", 3, "copy", 2, "toend", 1, "close", 1, "remain", 1, "unwrap", 1), minOps: 1, maxOps: 14}, []string{"drain", "data", "eof"},
				func(h *Hist, m *machine) bool { return m.V > 0 && has(h, "drain") }),
			hist("writeto", 36000, profile{ctors: []string{"bytes", "bytes", "string", "empty"}, ops: ops("drain", 6, "read", 3, "seek", 3, "copy", 1, "toend", 1), minOps: 1, maxOps: 12}, []string{"drain", "data", "eof"},
				func(h *Hist, m *machine) bool { return has(h, "drain") }),
			hist("bulk", 240, profile{ops: ops("read", 6, "seek", 2, "readat", 2, "copy", 3, "drain", 1, "close", 1), minOps: 1, maxOps: 10, bulk: true}, []string{"drain", "data", "eof"},
				func(h *Hist, m *machine) bool { return m.V > 0 && has(h, "read", "readat", "drain") }),
			hist("bulk-writeto", 200, profile{ctors: []string{"bytes", "bytes", "string"}, ops: ops("drain", 6, "read", 1, "seek", 2), minOps: 1, maxOps: 5, bulk: true}, []string{"drain", "data", "eof"},
				func(h *Hist, m *machine) bool { return has(h, "drain") }),
		},
	})

	core.Register(&core.Check{
		ID:          "C07",
		Rule:        "a case is a source (possibly failing) and a history in which bodies are closed in every state and used afterwards; non-trivial if a body was closed in the history and used after that",
		Assumptions: []string{sameContents},
		Targets: []*core.Target{
			libraryTarget(ops("close", 6, "read", 4, "copy", 4, "seek", 2, "readat", 2, "drain", 2, "remain", 2, "unwrap", 2), "closed", "data", "eof"),
			hist("closes", 50400, profile{ops: ops("close", 6, "read", 4, "copy", 4, "seek", 3, "readat", 3, "drain", 3, "remain", 3, "unwrap", 2, "toend", 1), minOps: 2, maxOps: 26, faults: []string{"", "", "pos", "read", "seek"}}, []string{"closed", "data", "eof"},
				func(h *Hist, m *machine) bool { return has(h, "close") && len(h.Ops) > 1 }),
			closedTarget(),
		},
	})

	core.Register(&core.Check{
		ID:          "C08",
		Rule:        "a case is a source, mostly closable, whose Close succeeds or fails, and a history of copies, reads and closes in any order; the number of closes the source saw is compared after every step; non-trivial if the source can be closed and at least one copy of an open body was made",
		Assumptions: []string{"sources that are Body values themselves are not wrapped again"},
		Targets: []*core.Target{
			libraryTarget(ops("copy", 6, "close", 5, "read", 5, "unwrap", 3, "toend", 1), "own"),
			hist("ownership", 60000, profile{ctors: []string{"reader", "readerlen"}, ops: ops("copy", 6, "close", 5, "read", 5, "unwrap", 3, "seek", 1, "readat", 1, "toend", 1, "drain", 1, "remain", 1), minOps: 1, maxOps: 26, closable: true, faults: []string{"", "", "", "pos", "read"}}, []string{"own"},
				func(h *Hist, m *machine) bool { return m.closable() && m.copies > 0 }),
			hist("crowd", 600, profile{ops: ops("read", 6, "seek", 1, "readat", 1, "copy", 3, "drain", 1, "close", 4, "toend", 1, "all", 3, "remain", 1, "unwrap", 1), minOps: 1, maxOps: 40, crowd: 400, small: true, closable: true}, []string{"own"},
				func(h *Hist, m *machine) bool { return m.copies > 16 }),
			hist("multitude", 16, profile{ctors: []string{"reader"}, ops: ops("read", 6, "copy", 3, "close", 4), minOps: 1, maxOps: 10, crowd: 70000, closable: true}, []string{"own"},
				func(h *Hist, m *machine) bool { return m.copies > 16 }).WithFactor(10),
		},
	})

	core.Register(&core.Check{
		ID:          "C09",
		Rule:        "a case is a source that fails permanently or a few times at a drawn position, read or seek call, with or without data alongside the error, and a history over up to eight bodies; non-trivial if the source really failed in the run",
		Assumptions: []string{sameContents, "a source whose Read returned an error may be read again (transient failures)"},
		Targets: []*core.Target{
			hist("faults", 50400, profile{ctors: []string{"reader", "readerlen"}, ops: ops("read", 8, "copy", 3, "seek", 4, "readat", 2, "toend", 2, "drain", 1, "close", 1, "remain", 1, "unwrap", 1), minOps: 1, maxOps: 22, faults: []string{"pos", "pos", "read", "seek"}}, []string{"fail", "data", "eof", "readat", "drain", "seek"},
				func(h *Hist, m *machine) bool { r, _ := m.snap(); return r > 0 }),
			hist("faults-stream", 28800, profile{ctors: []string{"reader", "readerlen"}, ops: ops("read", 8, "copy", 4, "toend", 2, "close", 1), minOps: 1, maxOps: 16, small: true, faults: []string{"pos", "pos", "read"}}, []string{"fail", "data", "eof", "drain"},
				func(h *Hist, m *machine) bool { r, _ := m.snap(); return r > 0 }),
		},
	})

	core.Register(&core.Check{
		ID:          "C11",
		Rule:        "a case is a source with a drawn set of optional interfaces and a history with copies taken in all states; every promised interface is looked for on the body and on every copy, and used; non-trivial if at least one copy was made or the body promises an interface",
		Assumptions: []string{},
		Targets: []*core.Target{
			libraryTarget(ops("copy", 6, "iface", 3, "read", 4, "seek", 3, "readat", 3, "toend", 1, "close", 2), "iface"),
			hist("interfaces", 43200, profile{ops: ops("copy", 6, "iface", 3, "read", 4, "seek", 3, "readat", 3, "toend", 1, "close", 2, "drain", 1), minOps: 0, maxOps: 20, faults: []string{"", "", "pos", "read"}}, []string{"iface"},
				func(h *Hist, m *machine) bool { return m.copies > 0 || m.spec.seekable() }),
			identityTarget(),
		},
	})

	core.Register(&core.Check{
		ID:          "C14",
		Rule:        "a case is a source with a declared (below, at, above the real one) or measured length and a history over up to eight bodies; the highest position ever asked for is compared with the length after every step; or a body made, with a length, from a reader that is a body already; non-trivial if a length is known and differs from the real one, or copies were made",
		Assumptions: []string{sameContents},
		Targets: []*core.Target{
			libraryTarget(mixed, "bound", "data", "eof", "readat", "remain", "drain"),
			hist("declared", 50400, profile{ctors: []string{"readerlen", "readerlen", "readerlen", "reader"}, ops: ops("read", 8, "copy", 3, "seek", 3, "readat", 3, "drain", 2, "toend", 2, "close", 1), minOps: 1, maxOps: 20, declared: []string{"under", "under", "over", "over", "exact"}}, []string{"bound", "data", "eof", "readat", "remain", "drain"},
				func(h *Hist, m *machine) bool { return m.K >= 0 && (m.K != m.spec.Len || m.copies > 0) }),
			hist("declared-small", 28800, profile{ctors: []string{"readerlen"}, ops: ops("read", 8, "copy", 2, "seek", 2, "readat", 2, "toend", 1), minOps: 1, maxOps: 14, small: true, declared: []string{"under", "under", "over", "over", "exact"}}, []string{"bound", "data", "eof", "readat", "remain", "drain"},
				func(h *Hist, m *machine) bool { return m.K >= 0 && (m.K != m.spec.Len || m.copies > 0) }),
			core.New("nested", 12000, genNested, runNested),
		},
	})
}
