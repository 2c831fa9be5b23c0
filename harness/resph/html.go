package resph

import (
	"fmt"
	"html"
	"strings"

	"github.com/chronos-tachyon/morehttp/response"
	"io"
)

// token is a piece of an HTML page.
type token struct {
	kind  string // tag, text
	name  string
	attrs [][2]string
	text  string
}

// tokenize splits a page the way a browser does, as far as needed: comments,
// declarations, tags with quoted and unquoted attributes, and text.
func tokenize(s string) (out []token) {
	for len(s) > 0 {
		i := strings.IndexByte(s, '<')
		if i != 0 {
			if i < 0 {
				i = len(s)
			}
			out = append(out, token{kind: "text", text: s[:i]})
			s = s[i:]
			continue
		}
		if strings.HasPrefix(s, "<!--") {
			out = append(out, token{kind: "comment"})
			if j := strings.Index(s, "-->"); j >= 0 {
				s = s[j+3:]
			} else {
				s = ""
			}
			continue
		}
		if len(s) > 1 && (s[1] == '!' || s[1] == '?') {
			j := strings.IndexByte(s, '>')
			if j < 0 {
				j = len(s) - 1
			}
			out = append(out, token{kind: "decl", name: s[:j+1]})
			s = s[j+1:]
			continue
		}
		rest := s[1:]
		slash := strings.HasPrefix(rest, "/")
		rest = strings.TrimPrefix(rest, "/")
		if rest == "" || !isLetter(rest[0]) {
			out = append(out, token{kind: "text", text: "<"})
			s = s[1:]
			continue
		}
		k := strings.IndexAny(rest, " \t\r\n\f/>")
		if k < 0 {
			k = len(rest)
		}
		tok := token{kind: "tag", name: strings.ToLower(rest[:k])}
		if slash {
			tok.name = "/" + tok.name
		}
		rest = rest[k:]
		for {
			rest = strings.TrimLeft(rest, " \t\r\n\f/")
			if rest == "" {
				break
			}
			if rest[0] == '>' {
				rest = rest[1:]
				break
			}
			k := strings.IndexAny(rest[1:], " \t\r\n\f/>=")
			if k < 0 {
				k = len(rest) - 1
			}
			name := strings.ToLower(rest[:k+1])
			rest = strings.TrimLeft(rest[k+1:], " \t\r\n\f")
			val := ""
			if strings.HasPrefix(rest, "=") {
				rest = strings.TrimLeft(rest[1:], " \t\r\n\f")
				if rest != "" && (rest[0] == '"' || rest[0] == '\'') {
					j := strings.IndexByte(rest[1:], rest[0])
					if j < 0 {
						val, rest = rest[1:], ""
					} else {
						val, rest = rest[1:1+j], rest[j+2:]
					}
				} else {
					j := strings.IndexAny(rest, " \t\r\n\f>")
					if j < 0 {
						j = len(rest)
					}
					val, rest = rest[:j], rest[j:]
				}
			}
			tok.attrs = append(tok.attrs, [2]string{name, val})
		}
		out = append(out, tok)
		s = rest
	}
	return
}

func isLetter(c byte) bool { return c|0x20 >= 'a' && c|0x20 <= 'z' }

// shape is the markup of a page without its texts and attribute values.
func shape(tokens []token) string {
	var sb strings.Builder
	for _, t := range tokens {
		switch t.kind {
		case "text":
			continue
		case "tag":
			fmt.Fprintf(&sb, "<%s", t.name)
			for _, a := range t.attrs {
				fmt.Fprintf(&sb, " %q", a[0])
			}
			sb.WriteString(">")
		default:
			fmt.Fprintf(&sb, "<%s %s>", t.kind, t.name)
		}
	}
	return sb.String()
}

// asRead is what a browser makes of NUL and of bytes that are not UTF-8.
func asRead(s string) string {
	return strings.ReplaceAll(string([]rune(s)), "\x00", "\ufffd")
}

// checkRedirectHTML compares the markup of a page with the one for a harmless
// location, and looks for the location in it.
func checkRedirectHTML(page, loc string) error {
	b := response.NewBuilder().RedirectPage(302, "/harmless").Body()
	raw, err := io.ReadAll(b)
	if err != nil {
		return err
	}
	b.Close()
	toks := tokenize(page)
	if got, want := shape(toks), shape(tokenize(string(raw))); got != want {
		return fmt.Errorf("location %q changes the markup of the page from %s to %s", loc, want, got)
	}
	if len(toks) == 0 || toks[0].kind != "decl" || !strings.EqualFold(toks[0].name, "<!DOCTYPE html>") {
		return fmt.Errorf("the page is no HTML document: %q", page)
	}
	found, links := false, 0
	var text strings.Builder
	for _, t := range toks {
		if t.name == "a" && t.kind == "tag" {
			links++
		}
		for _, a := range t.attrs {
			if a[0] == "href" {
				if asRead(html.UnescapeString(a[1])) != asRead(loc) {
					return fmt.Errorf("the page for location %q links to %q", loc, html.UnescapeString(a[1]))
				}
				found = true
			}
		}
		if t.kind == "text" {
			text.WriteString(t.text)
		}
	}
	if !found || links != 1 {
		return fmt.Errorf("the page for location %q does not link to it", loc)
	}
	if !strings.Contains(asRead(html.UnescapeString(text.String())), asRead(loc)) {
		return fmt.Errorf("the page for location %q does not show it", loc)
	}
	return nil
}
