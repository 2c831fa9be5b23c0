package bodyh

import (
	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// Opened is a body over a recording source, for the other packages.
type Opened struct {
	Body body.Body
	src  *source
}

// Open builds the body a source description leads to.
func (s *Src) Open() (*Opened, error) {
	b, src, _, err := s.open()
	if err != nil {
		return nil, err
	}
	return &Opened{b, src}, nil
}

// Recorded tells whether there is a source that records its calls.
func (o *Opened) Recorded() bool { return o.src != nil }

// Closes is the number of times the source was closed.
func (o *Opened) Closes() int {
	o.src.mu.Lock()
	defer o.src.mu.Unlock()
	return o.src.closes
}

// Raised is the number of errors other than EOF that the source returned.
func (o *Opened) Raised() int {
	if o.src == nil {
		return 0
	}
	o.src.mu.Lock()
	defer o.src.mu.Unlock()
	return o.src.raised
}

// Allow lets the source take so many more calls.
func (o *Opened) Allow(calls int) {
	if o.src != nil {
		o.src.mu.Lock()
		o.src.budget = calls
		o.src.mu.Unlock()
	}
}

// Content returns the bytes of the source from a position on.
func (s *Src) Content(from int64) []byte {
	n := s.Visible()
	if from >= n {
		return []byte{}
	}
	p := make([]byte, n-from)
	s.fill(p, from)
	return p
}

// Visible is the number of bytes a fresh body delivers when the source does not fail.
func (s *Src) Visible() int64 { return s.visible() }

// KnownLen is the length a fresh body knows, or -1.
func (s *Src) KnownLen() int64 { return s.knownLen() }

// Closable tells whether the source has a Close method.
func (s *Src) Closable() bool {
	switch s.Ctor {
	case "reader", "readerlen":
		return s.Caps&(CapClose|CapStat) != 0
	}
	return false
}

// Error is the error the source fails with.
func (f Fault) Error() error { return f.error() }

// CloseFailure is the error of the source when its Close fails.
func (s *Src) CloseFailure() error { return core.Err(s.CErr, errCloser) }

// GenOpts steers GenSource.
type GenOpts struct {
	Faults bool
	Small  bool
	Ctors  []string
	Bulk   bool // megabytes
}

// GenSource draws a source with a truthful or unknown length.
func GenSource(t *rapid.T, g GenOpts) Src {
	p := profile{ctors: g.Ctors, small: g.Small, bulk: g.Bulk, closable: true, declared: []string{"none", "exact"}}
	if g.Faults {
		p.faults = []string{"", "", "pos", "read"}
	}
	s := genSrc(t, &p)
	if s.Len > 150000 && !g.Bulk && core.Uniform(t, 4) > 0 {
		s.Len = 150000
		if s.Declared > s.Len {
			s.Declared = s.Len
		}
	}
	return s
}

// GenMessage draws a protobuf message description.
func GenMessage(t *rapid.T, depth int) Msg { return genMsg(t, depth) }

// Message builds the message.
func (m Msg) Message() any { return m.message() }

// GenValue draws a JSON value description.
func GenValue(t *rapid.T, depth int) Val { return genVal(t, depth) }

// Value builds the value.
func (v Val) Value() any { return v.value() }

// BadValues are the value kinds that cannot be encoded.
var BadValues = badVals

// ProtoOptions are the options texts are made with; the first is nil.
var ProtoOptions = protoOpts

// SpoilMessage changes a message in place.
func SpoilMessage(m proto.Message) { mutate(m) }
