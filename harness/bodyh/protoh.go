package bodyh

import (
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"
)

// Msg describes a message.
type Msg struct {
	Kind string   `json:"kind"`
	S    [][]byte `json:"s,omitempty"`
	I    []int64  `json:"i,omitempty"`
	L    []Msg    `json:"l,omitempty"`
	R    int      `json:"r,omitempty"` // how often strings are repeated
}

func (m Msg) str(i int) string {
	if len(m.S) == 0 {
		return ""
	}
	s := m.S[i%len(m.S)]
	if m.R > 1 && len(s) > 0 {
		return strings.Repeat(string(s), min(m.R, 300000/len(s)+1))
	}
	return string(s)
}

func (m Msg) num(i int) int64 {
	if len(m.I) == 0 {
		return 0
	}
	return m.I[i%len(m.I)]
}

func (m Msg) structValue(depth int) *structpb.Value {
	if len(m.L) > 0 && depth > 0 {
		if m.num(0)%2 == 0 {
			l := &structpb.ListValue{}
			for _, c := range m.L {
				l.Values = append(l.Values, c.structValue(depth-1))
			}
			return &structpb.Value{Kind: &structpb.Value_ListValue{ListValue: l}}
		}
		s := &structpb.Struct{Fields: map[string]*structpb.Value{}}
		for i, c := range m.L {
			s.Fields[m.str(i)+fmt.Sprint(i)] = c.structValue(depth - 1)
		}
		return &structpb.Value{Kind: &structpb.Value_StructValue{StructValue: s}}
	}
	switch m.num(0) & 3 {
	case 0:
		return structpb.NewNullValue()
	case 1:
		return structpb.NewBoolValue(true)
	case 2:
		return structpb.NewNumberValue(float64(m.num(1)) / 3)
	default:
		return &structpb.Value{Kind: &structpb.Value_StringValue{StringValue: m.str(0)}}
	}
}

func (m Msg) message() proto.Message {
	switch m.Kind {
	case "empty":
		return &emptypb.Empty{}
	case "value":
		return m.structValue(4)
	case "struct":
		s := &structpb.Struct{}
		for i, c := range m.L {
			if s.Fields == nil {
				s.Fields = map[string]*structpb.Value{}
			}
			s.Fields[m.str(i)+fmt.Sprint(i)] = c.structValue(3)
		}
		return s
	case "int64":
		return wrapperspb.Int64(m.num(0))
	case "double":
		return wrapperspb.Double(float64(m.num(0)) * math.Pi)
	case "string":
		return wrapperspb.String(m.str(0))
	case "bytes":
		return wrapperspb.Bytes([]byte(m.str(0)))
	case "timestamp":
		return &timestamppb.Timestamp{Seconds: m.num(0), Nanos: int32(m.num(1))}
	case "duration":
		return &durationpb.Duration{Seconds: m.num(0), Nanos: int32(m.num(1))}
	case "mask":
		f := &fieldmaskpb.FieldMask{}
		for i := range m.S {
			f.Paths = append(f.Paths, m.str(i))
		}
		return f
	case "any":
		var inner proto.Message = &emptypb.Empty{}
		if len(m.L) > 0 {
			inner = m.L[0].message()
		}
		a := &anypb.Any{TypeUrl: "example.com/unknown.Type", Value: []byte(m.str(0))}
		if m.num(0)%2 == 0 {
			a2 := &anypb.Any{}
			if anypb.MarshalFrom(a2, inner, proto.MarshalOptions{Deterministic: true}) == nil {
				a = a2
			}
		}
		return a
	case "file":
		f := &descriptorpb.FileDescriptorProto{}
		if len(m.S) > 0 {
			f.Name = proto.String(m.str(0))
			f.Package = proto.String(m.str(1))
		}
		for i := range m.S {
			f.Dependency = append(f.Dependency, m.str(i))
		}
		for _, v := range m.I {
			f.PublicDependency = append(f.PublicDependency, int32(v))
		}
		for i, c := range m.L {
			d := &descriptorpb.DescriptorProto{Name: proto.String(c.str(i))}
			d.Field = append(d.Field, &descriptorpb.FieldDescriptorProto{
				Name: proto.String(c.str(0)), Number: proto.Int32(int32(c.num(0))),
				Label: descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum(),
			})
			f.MessageType = append(f.MessageType, d)
		}
		return f
	case "missing": // a required field is not set
		return &descriptorpb.UninterpretedOption{
			IdentifierValue: proto.String("a value long enough to be written before the failure"),
			Name:            []*descriptorpb.UninterpretedOption_NamePart{{NamePart: proto.String(strings.Repeat("x", len(m.S)))}},
		}
	case "required":
		return &descriptorpb.UninterpretedOption{
			IdentifierValue: proto.String(m.str(0)),
			Name:            []*descriptorpb.UninterpretedOption_NamePart{{NamePart: proto.String(m.str(1)), IsExtension: proto.Bool(true)}},
		}
	case "badutf8":
		return wrapperspb.String("text before \xff\xfe the invalid bytes")
	}
	return &emptypb.Empty{}
}

// ProtoCase builds several bodies and reads them afterwards.
type ProtoCase struct {
	Msgs []ProtoDoc `json:"msgs"`
	Mut  bool       `json:"mut,omitempty"`
}

// ProtoDoc is one body.
type ProtoDoc struct {
	M    Msg  `json:"m"`
	Text bool `json:"text,omitempty"`
	Opt  int  `json:"opt,omitempty"` // 0: nil options
	// Unknown are bytes of fields the message does not know (binary only).
	Unknown []byte `json:"unknown,omitempty"`
	// Stale is merged into the message after it was encoded once.
	Stale *Msg `json:"stale,omitempty"`
}

var protoOpts = []*prototext.MarshalOptions{
	nil,
	{},
	{Multiline: true},
	{Multiline: true, Indent: "\t"},
	{EmitASCII: true},
	{Multiline: true, Indent: " ", EmitASCII: true},
	{EmitUnknown: true, Multiline: true},
	{AllowPartial: true},
	{Indent: "\t"},
	{Indent: "  ", EmitUnknown: true},
	{Multiline: true, Resolver: new(protoregistry.Types)}, // knows no type
	{Resolver: protoregistry.GlobalTypes},
}

var protoKinds = []string{"struct", "value", "file", "file", "empty", "int64", "double", "string", "bytes", "timestamp", "duration", "mask", "any", "required"}

func genMsg(t *rapid.T, depth int) Msg {
	m := Msg{Kind: core.Pick(t, protoKinds)}
	for n := core.Uniform(t, 4); n > 0; n-- {
		if m.Kind == "bytes" && rapid.Bool().Draw(t, "rawbytes") {
			m.S = append(m.S, rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "s"))
		} else {
			m.S = append(m.S, []byte(strings.ToValidUTF8(rapid.String().Draw(t, "s"), "?")))
		}
	}
	m.I = rapid.SliceOfN(rapid.Int64(), 0, 3).Draw(t, "i")
	if depth > 0 {
		for n := core.Uniform(t, 4); n > 0; n-- {
			m.L = append(m.L, genMsg(t, depth-1))
		}
	}
	return m
}

func genProto(t *rapid.T) ProtoCase {
	c := ProtoCase{Mut: rapid.Bool().Draw(t, "mut")}
	c.Msgs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ProtoDoc {
		d := ProtoDoc{Text: rapid.Bool().Draw(t, "text"), M: genMsg(t, 3)}
		if d.Text && core.Uniform(t, 2) == 1 {
			d.Opt = core.Uniform(t, len(protoOpts))
		}
		if core.Chance(t, 4) {
			d.Unknown = rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "unknown")
		}
		if core.Chance(t, 3) {
			m := genMsg(t, 3)
			m.Kind = d.M.Kind
			d.Stale = &m
		}
		if core.Uniform(t, 8) == 7 {
			d.M.Kind = core.Pick(t, []string{"missing", "badutf8"})
		}
		return d
	}), 1, 4).Draw(t, "msgs")
	return c
}

func genLargeProto(t *rapid.T) ProtoCase {
	c := genProto(t)
	for i := range c.Msgs {
		r := core.Pick(t, []int{1, 100, 3000, 70000})
		c.Msgs[i].M.R = r
		for j := range c.Msgs[i].M.L {
			c.Msgs[i].M.L[j].R = r
		}
	}
	return c
}

// checkIndent verifies that text is multi-line with two-space indents.
func checkIndent(text string) error {
	depth := 0
	for i, line := range strings.Split(strings.TrimRight(text, "\n"), "\n") {
		if line == "" && text == "" {
			return nil
		}
		trimmed := strings.TrimLeft(line, " ")
		if strings.HasPrefix(trimmed, "}") || strings.HasPrefix(trimmed, "]") || strings.HasPrefix(trimmed, ">") {
			depth--
		}
		if len(line)-len(trimmed) != 2*depth {
			return fmt.Errorf("line %d (%q) is not indented by %d spaces", i+1, line, 2*depth)
		}
		if depth > 0 && strings.Count(trimmed, ": ") > 0 && strings.Contains(trimmed, "{") && strings.HasSuffix(trimmed, "}") && !strings.Contains(trimmed, "\"") && !strings.HasSuffix(trimmed, "{}") {
			return fmt.Errorf("line %d (%q) holds a whole message", i+1, line)
		}
		if strings.HasSuffix(trimmed, "{") || strings.HasSuffix(trimmed, "[") {
			depth++
		}
	}
	if depth != 0 {
		return fmt.Errorf("unbalanced text")
	}
	return nil
}

func runProto(c ProtoCase, o *core.Obs) error {
	type built struct {
		b    body.Body
		want proto.Message
		doc  ProtoDoc
	}
	var all []built
	for i, d := range c.Msgs {
		msg := d.M.message()
		if d.Stale != nil {
			_, _ = proto.Marshal(msg) // leaves its sizes behind
			other := d.Stale.message()
			if d.M.Kind != "any" && other.ProtoReflect().Descriptor() == msg.ProtoReflect().Descriptor() {
				proto.Merge(msg, other)
				o.Label("changed after being encoded")
			}
		}
		if len(d.Unknown) > 0 && !d.Text {
			raw := protowire.AppendTag(nil, 3000, protowire.BytesType)
			msg.ProtoReflect().SetUnknown(protowire.AppendBytes(raw, d.Unknown))
			o.Label("unknown fields")
		}
		var opt *prototext.MarshalOptions
		if d.Text && d.Opt > 0 && d.Opt < len(protoOpts) {
			o2 := *protoOpts[d.Opt]
			opt = &o2
		}
		var refErr error
		if !d.Text {
			_, refErr = proto.Marshal(proto.Clone(msg))
		} else if opt == nil {
			_, refErr = prototext.MarshalOptions{Multiline: true, Indent: "  "}.Marshal(msg)
		} else {
			_, refErr = opt.Marshal(msg)
		}
		want := proto.Clone(msg)
		var b body.Body
		pv, panicked := core.Try(func() {
			if d.Text {
				b = body.FromProtoText(msg, opt)
			} else {
				b = body.FromProto(msg)
			}
		})
		if panicked != (refErr != nil) {
			return fmt.Errorf("message %d (%s, text %v, options %d): panicked: %v (%v), encoding error: %v", i, d.M.Kind, d.Text, d.Opt, panicked, pv, refErr)
		}
		if panicked {
			o.Label("rejected")
			continue
		}
		o.Label("text:%v options:%d", d.Text, d.Opt)
		o.Label("kind:%s", d.M.Kind)
		if c.Mut {
			mutate(msg)
		}
		if proto.Size(want) > 3 {
			o.NonTrivial()
		}
		all = append(all, built{b, want, d})
	}
	for i := len(all) - 1; i >= 0; i-- {
		x := all[i]
		rem := x.b.BytesRemaining()
		raw, err := io.ReadAll(x.b)
		if err != nil || int64(len(raw)) != rem {
			return fmt.Errorf("message %d: read %d of %d bytes, %v", i, len(raw), rem, err)
		}
		got := x.want.ProtoReflect().New().Interface()
		if x.doc.Text {
			err = prototext.UnmarshalOptions{AllowPartial: true, DiscardUnknown: x.doc.Opt == 6 || x.doc.Opt == 9}.Unmarshal(raw, got)
		} else {
			err = proto.Unmarshal(raw, got)
		}
		if err != nil {
			return fmt.Errorf("message %d (%s, text %v, options %d) does not parse: %v\n%q", i, x.doc.M.Kind, x.doc.Text, x.doc.Opt, err, clip(raw))
		}
		if !proto.Equal(got, x.want) {
			return fmt.Errorf("message %d (%s, text %v, options %d) parses to a different message: %q", i, x.doc.M.Kind, x.doc.Text, x.doc.Opt, clip(raw))
		}
		if x.doc.Text && (x.doc.Opt == 10 || x.doc.Opt == 11) {
			ref, _ := protoOpts[x.doc.Opt].Marshal(x.want)
			if strings.Count(string(raw), "type_url") != strings.Count(string(ref), "type_url") {
				return fmt.Errorf("message %d (%s): the Resolver option was not used: %q", i, x.doc.M.Kind, clip(raw))
			}
		}
		if x.doc.Text && x.doc.Opt == 0 {
			if err := checkIndent(string(raw)); err != nil {
				return fmt.Errorf("message %d (%s): %v", i, x.doc.M.Kind, err)
			}
			ref, _ := prototext.MarshalOptions{Multiline: true, Indent: "  "}.Marshal(x.want)
			if strings.Count(string(raw), "\n") != strings.Count(string(ref), "\n") {
				return fmt.Errorf("message %d (%s) is not multi-line: %q", i, x.doc.M.Kind, clip(raw))
			}
		}
		if x.doc.Text && x.doc.Opt == 4 {
			for _, ch := range raw {
				if ch >= 0x80 {
					return fmt.Errorf("message %d: the EmitASCII option was not used", i)
				}
			}
		}
		if x.doc.Text && (x.doc.Opt == 1 || x.doc.Opt == 4 || x.doc.Opt == 7) && strings.Contains(strings.TrimRight(string(raw), "\n"), "\n") {
			return fmt.Errorf("message %d: multi-line text although the options ask for a single line", i)
		}
		if x.doc.Text && x.doc.Opt == 3 && strings.Contains(string(raw), "\n ") {
			return fmt.Errorf("message %d: indented by spaces although the options ask for tabs", i)
		}
		if err := x.b.Close(); err != nil {
			return err
		}
	}
	return nil
}

// mutate changes a message in place, including the bytes of its bytes fields.
func mutate(m proto.Message) {
	switch x := m.(type) {
	case *wrapperspb.BytesValue:
		for i := range x.Value {
			x.Value[i] ^= 0xff
		}
	case *anypb.Any:
		for i := range x.Value {
			x.Value[i] ^= 0xff
		}
	case *structpb.Struct:
		for k := range x.Fields {
			x.Fields[k] = structpb.NewBoolValue(false)
		}
	case *fieldmaskpb.FieldMask:
		for i := range x.Paths {
			x.Paths[i] = "changed"
		}
	case *descriptorpb.FileDescriptorProto:
		for i := range x.Dependency {
			x.Dependency[i] = "changed"
		}
		for _, d := range x.MessageType {
			d.Name = proto.String("changed")
		}
	default:
		proto.Reset(m)
	}
}

func nilProtoTarget() *core.Target {
	type C struct {
		Text bool `json:"text"`
		Opt  int  `json:"opt"`
	}
	return core.New("nil-message", 40, func(t *rapid.T) C {
		return C{rapid.Bool().Draw(t, "text"), core.Uniform(t, len(protoOpts))}
	}, func(c C, o *core.Obs) error {
		_, panicked := core.Try(func() {
			if c.Text {
				body.FromProtoText(nil, protoOpts[max(c.Opt, 0)%len(protoOpts)])
			} else {
				body.FromProto(nil)
			}
		})
		if !panicked {
			return fmt.Errorf("a nil message was accepted")
		}
		return nil
	})
}

func init() {
	core.Register(&core.Check{
		ID:          "C13",
		Rule:        "a case is one to four messages (structpb trees, wrappers, timestamps, field masks, Any, proto2 descriptors, messages that cannot be encoded), as binary or text with nil or given options; bodies are built before any is read, and the messages changed in between; non-trivial if some encoding is longer than three bytes",
		Assumptions: []string{"proto.Marshal and prototext decide which messages cannot be encoded"},
		Targets:     []*core.Target{core.New("proto", 16000, genProto, runProto), core.New("proto-large", 300, genLargeProto, runProto), nilProtoTarget()},
	})
}
