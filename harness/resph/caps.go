// Code generated by hand-run script; one wrapper per capability set.

package resph

import (
	"io"
	"net/http"
)

// decoys are methods that response writers of other libraries have, which mean
// nothing to this one.
type decoys interface {
	Unwrap() http.ResponseWriter
	Status() int
	Size() int
	Written() bool
	SawError() bool
}

type decoy struct{}

func (decoy) Unwrap() http.ResponseWriter { return forbidden{} }
func (decoy) Status() int                 { return 599 }
func (decoy) Size() int                   { return 1234567 }
func (decoy) Written() bool               { return true }
func (decoy) SawError() bool              { return true }

// forbidden is a writer nobody may use.
type forbidden struct{}

func (forbidden) Header() http.Header       { panic("the writer below the connection was used") }
func (forbidden) WriteHeader(int)           { panic("the writer below the connection was used") }
func (forbidden) Write([]byte) (int, error) { panic("the writer below the connection was used") }

// W returns a ResponseWriter over the connection with its capabilities.
func (c *Conn) W() http.ResponseWriter {
	if c.spec.Decoy {
		return c.decoyed()
	}
	return c.plain()
}

// plain returns a ResponseWriter over the connection with exactly its capabilities.
func (c *Conn) plain() http.ResponseWriter {
	switch c.spec.Caps & 63 {
	case 0:
		return &struct {
			http.ResponseWriter
		}{c}
	case 1:
		return &struct {
			http.ResponseWriter
			http.Flusher
		}{c, c}
	case 2:
		return &struct {
			http.ResponseWriter
			http.Pusher
		}{c, c}
	case 3:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
		}{c, c, c}
	case 4:
		return &struct {
			http.ResponseWriter
			http.Hijacker
		}{c, c}
	case 5:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Hijacker
		}{c, c, c}
	case 6:
		return &struct {
			http.ResponseWriter
			http.Pusher
			http.Hijacker
		}{c, c, c}
	case 7:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
		}{c, c, c, c}
	case 8:
		return &struct {
			http.ResponseWriter
			http.CloseNotifier
		}{c, c}
	case 9:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.CloseNotifier
		}{c, c, c}
	case 10:
		return &struct {
			http.ResponseWriter
			http.Pusher
			http.CloseNotifier
		}{c, c, c}
	case 11:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.CloseNotifier
		}{c, c, c, c}
	case 12:
		return &struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
		}{c, c, c}
	case 13:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			http.CloseNotifier
		}{c, c, c, c}
	case 14:
		return &struct {
			http.ResponseWriter
			http.Pusher
			http.Hijacker
			http.CloseNotifier
		}{c, c, c, c}
	case 15:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
			http.CloseNotifier
		}{c, c, c, c, c}
	case 16:
		return &struct {
			http.ResponseWriter
			io.ReaderFrom
		}{c, c}
	case 17:
		return &struct {
			http.ResponseWriter
			http.Flusher
			io.ReaderFrom
		}{c, c, c}
	case 18:
		return &struct {
			http.ResponseWriter
			http.Pusher
			io.ReaderFrom
		}{c, c, c}
	case 19:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			io.ReaderFrom
		}{c, c, c, c}
	case 20:
		return &struct {
			http.ResponseWriter
			http.Hijacker
			io.ReaderFrom
		}{c, c, c}
	case 21:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			io.ReaderFrom
		}{c, c, c, c}
	case 22:
		return &struct {
			http.ResponseWriter
			http.Pusher
			http.Hijacker
			io.ReaderFrom
		}{c, c, c, c}
	case 23:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
			io.ReaderFrom
		}{c, c, c, c, c}
	case 24:
		return &struct {
			http.ResponseWriter
			http.CloseNotifier
			io.ReaderFrom
		}{c, c, c}
	case 25:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.CloseNotifier
			io.ReaderFrom
		}{c, c, c, c}
	case 26:
		return &struct {
			http.ResponseWriter
			http.Pusher
			http.CloseNotifier
			io.ReaderFrom
		}{c, c, c, c}
	case 27:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.CloseNotifier
			io.ReaderFrom
		}{c, c, c, c, c}
	case 28:
		return &struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
		}{c, c, c, c}
	case 29:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
		}{c, c, c, c, c}
	case 30:
		return &struct {
			http.ResponseWriter
			http.Pusher
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
		}{c, c, c, c, c}
	case 31:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
		}{c, c, c, c, c, c}
	case 32:
		return &struct {
			http.ResponseWriter
			io.StringWriter
		}{c, c}
	case 33:
		return &struct {
			http.ResponseWriter
			http.Flusher
			io.StringWriter
		}{c, c, c}
	case 34:
		return &struct {
			http.ResponseWriter
			http.Pusher
			io.StringWriter
		}{c, c, c}
	case 35:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			io.StringWriter
		}{c, c, c, c}
	case 36:
		return &struct {
			http.ResponseWriter
			http.Hijacker
			io.StringWriter
		}{c, c, c}
	case 37:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			io.StringWriter
		}{c, c, c, c}
	case 38:
		return &struct {
			http.ResponseWriter
			http.Pusher
			http.Hijacker
			io.StringWriter
		}{c, c, c, c}
	case 39:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
			io.StringWriter
		}{c, c, c, c, c}
	case 40:
		return &struct {
			http.ResponseWriter
			http.CloseNotifier
			io.StringWriter
		}{c, c, c}
	case 41:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.CloseNotifier
			io.StringWriter
		}{c, c, c, c}
	case 42:
		return &struct {
			http.ResponseWriter
			http.Pusher
			http.CloseNotifier
			io.StringWriter
		}{c, c, c, c}
	case 43:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.CloseNotifier
			io.StringWriter
		}{c, c, c, c, c}
	case 44:
		return &struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			io.StringWriter
		}{c, c, c, c}
	case 45:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			http.CloseNotifier
			io.StringWriter
		}{c, c, c, c, c}
	case 46:
		return &struct {
			http.ResponseWriter
			http.Pusher
			http.Hijacker
			http.CloseNotifier
			io.StringWriter
		}{c, c, c, c, c}
	case 47:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
			http.CloseNotifier
			io.StringWriter
		}{c, c, c, c, c, c}
	case 48:
		return &struct {
			http.ResponseWriter
			io.ReaderFrom
			io.StringWriter
		}{c, c, c}
	case 49:
		return &struct {
			http.ResponseWriter
			http.Flusher
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c}
	case 50:
		return &struct {
			http.ResponseWriter
			http.Pusher
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c}
	case 51:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c, c}
	case 52:
		return &struct {
			http.ResponseWriter
			http.Hijacker
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c}
	case 53:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c, c}
	case 54:
		return &struct {
			http.ResponseWriter
			http.Pusher
			http.Hijacker
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c, c}
	case 55:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c, c, c}
	case 56:
		return &struct {
			http.ResponseWriter
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c}
	case 57:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c, c}
	case 58:
		return &struct {
			http.ResponseWriter
			http.Pusher
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c, c}
	case 59:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c, c, c}
	case 60:
		return &struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c, c}
	case 61:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c, c, c}
	case 62:
		return &struct {
			http.ResponseWriter
			http.Pusher
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c, c, c}
	case 63:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{c, c, c, c, c, c, c}
	}
	return nil
}

// decoyed is plain with methods of other libraries added.
func (c *Conn) decoyed() http.ResponseWriter {
	switch c.spec.Caps & 63 {
	case 0:
		return &struct {
			decoys
			http.ResponseWriter
		}{decoy{}, c}
	case 1:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
		}{decoy{}, c, c}
	case 2:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
		}{decoy{}, c, c}
	case 3:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
		}{decoy{}, c, c, c}
	case 4:
		return &struct {
			decoys
			http.ResponseWriter
			http.Hijacker
		}{decoy{}, c, c}
	case 5:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Hijacker
		}{decoy{}, c, c, c}
	case 6:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			http.Hijacker
		}{decoy{}, c, c, c}
	case 7:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
		}{decoy{}, c, c, c, c}
	case 8:
		return &struct {
			decoys
			http.ResponseWriter
			http.CloseNotifier
		}{decoy{}, c, c}
	case 9:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.CloseNotifier
		}{decoy{}, c, c, c}
	case 10:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			http.CloseNotifier
		}{decoy{}, c, c, c}
	case 11:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.CloseNotifier
		}{decoy{}, c, c, c, c}
	case 12:
		return &struct {
			decoys
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
		}{decoy{}, c, c, c}
	case 13:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			http.CloseNotifier
		}{decoy{}, c, c, c, c}
	case 14:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			http.Hijacker
			http.CloseNotifier
		}{decoy{}, c, c, c, c}
	case 15:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
			http.CloseNotifier
		}{decoy{}, c, c, c, c, c}
	case 16:
		return &struct {
			decoys
			http.ResponseWriter
			io.ReaderFrom
		}{decoy{}, c, c}
	case 17:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			io.ReaderFrom
		}{decoy{}, c, c, c}
	case 18:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			io.ReaderFrom
		}{decoy{}, c, c, c}
	case 19:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			io.ReaderFrom
		}{decoy{}, c, c, c, c}
	case 20:
		return &struct {
			decoys
			http.ResponseWriter
			http.Hijacker
			io.ReaderFrom
		}{decoy{}, c, c, c}
	case 21:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			io.ReaderFrom
		}{decoy{}, c, c, c, c}
	case 22:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			http.Hijacker
			io.ReaderFrom
		}{decoy{}, c, c, c, c}
	case 23:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
			io.ReaderFrom
		}{decoy{}, c, c, c, c, c}
	case 24:
		return &struct {
			decoys
			http.ResponseWriter
			http.CloseNotifier
			io.ReaderFrom
		}{decoy{}, c, c, c}
	case 25:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.CloseNotifier
			io.ReaderFrom
		}{decoy{}, c, c, c, c}
	case 26:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			http.CloseNotifier
			io.ReaderFrom
		}{decoy{}, c, c, c, c}
	case 27:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.CloseNotifier
			io.ReaderFrom
		}{decoy{}, c, c, c, c, c}
	case 28:
		return &struct {
			decoys
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
		}{decoy{}, c, c, c, c}
	case 29:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
		}{decoy{}, c, c, c, c, c}
	case 30:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
		}{decoy{}, c, c, c, c, c}
	case 31:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
		}{decoy{}, c, c, c, c, c, c}
	case 32:
		return &struct {
			decoys
			http.ResponseWriter
			io.StringWriter
		}{decoy{}, c, c}
	case 33:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			io.StringWriter
		}{decoy{}, c, c, c}
	case 34:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			io.StringWriter
		}{decoy{}, c, c, c}
	case 35:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			io.StringWriter
		}{decoy{}, c, c, c, c}
	case 36:
		return &struct {
			decoys
			http.ResponseWriter
			http.Hijacker
			io.StringWriter
		}{decoy{}, c, c, c}
	case 37:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			io.StringWriter
		}{decoy{}, c, c, c, c}
	case 38:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			http.Hijacker
			io.StringWriter
		}{decoy{}, c, c, c, c}
	case 39:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
			io.StringWriter
		}{decoy{}, c, c, c, c, c}
	case 40:
		return &struct {
			decoys
			http.ResponseWriter
			http.CloseNotifier
			io.StringWriter
		}{decoy{}, c, c, c}
	case 41:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.CloseNotifier
			io.StringWriter
		}{decoy{}, c, c, c, c}
	case 42:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			http.CloseNotifier
			io.StringWriter
		}{decoy{}, c, c, c, c}
	case 43:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.CloseNotifier
			io.StringWriter
		}{decoy{}, c, c, c, c, c}
	case 44:
		return &struct {
			decoys
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			io.StringWriter
		}{decoy{}, c, c, c, c}
	case 45:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			http.CloseNotifier
			io.StringWriter
		}{decoy{}, c, c, c, c, c}
	case 46:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			http.Hijacker
			http.CloseNotifier
			io.StringWriter
		}{decoy{}, c, c, c, c, c}
	case 47:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
			http.CloseNotifier
			io.StringWriter
		}{decoy{}, c, c, c, c, c, c}
	case 48:
		return &struct {
			decoys
			http.ResponseWriter
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c}
	case 49:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c}
	case 50:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c}
	case 51:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c, c}
	case 52:
		return &struct {
			decoys
			http.ResponseWriter
			http.Hijacker
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c}
	case 53:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c, c}
	case 54:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			http.Hijacker
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c, c}
	case 55:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c, c, c}
	case 56:
		return &struct {
			decoys
			http.ResponseWriter
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c}
	case 57:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c, c}
	case 58:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c, c}
	case 59:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c, c, c}
	case 60:
		return &struct {
			decoys
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c, c}
	case 61:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c, c, c}
	case 62:
		return &struct {
			decoys
			http.ResponseWriter
			http.Pusher
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c, c, c}
	case 63:
		return &struct {
			decoys
			http.ResponseWriter
			http.Flusher
			http.Pusher
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
			io.StringWriter
		}{decoy{}, c, c, c, c, c, c, c}
	}
	return nil
}
