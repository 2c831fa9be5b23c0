package resph

import (
	"bytes"
	"fmt"
	"net/http"
	"slices"
	"sync"

	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zverif/bodyh"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// CServeCase serves copies of one response at the same time.
type CServeCase struct {
	Src   bodyh.Src `json:"src"`
	Pre   int64     `json:"pre,omitempty"`
	Hdrs  []KV      `json:"hdrs,omitempty"`
	Peers []CPeer   `json:"peers"`
}

// CPeer is one of them.
type CPeer struct {
	Conn    WSpec `json:"conn"`
	Wrap    bool  `json:"wrap,omitempty"`
	Builder bool  `json:"builder,omitempty"` // a copy of the builder instead, changed and built concurrently
	Limit   int64 `json:"limit"`             // fails after so many bytes
}

func genCServe(t *rapid.T) CServeCase {
	c := CServeCase{Src: bodyh.GenSource(t, bodyh.GenOpts{Small: rapid.Bool().Draw(t, "small")}), Hdrs: GenHeaders(t)}
	c.Src.CloseErr = false
	if core.Chance(t, 3) {
		c.Pre = rapid.Int64Range(0, c.Src.Visible()).Draw(t, "pre")
	}
	c.Src.Yield = core.Uniform(t, 7)
	n := 2 + core.Uniform(t, 4)
	for i := 0; i < n; i++ {
		p := CPeer{Conn: WSpec{Caps: core.Uniform(t, 64), Limit: -1, Chunk: core.Pick(t, []int{512, 4096, 65536}), Adds: rapid.Bool().Draw(t, "adds")}}
		p.Wrap = rapid.Bool().Draw(t, "wrap")
		p.Builder = core.Chance(t, 3)
		if core.Chance(t, 6) {
			p.Conn.Limit = rapid.Int64Range(0, c.Src.Len).Draw(t, "limit")
		}
		c.Peers = append(c.Peers, p)
	}
	return c
}

func runCServe(c CServeCase, o *core.Obs) error {
	opened, err := c.Src.Open()
	if err != nil {
		return nil
	}
	opened.Allow(50000000)
	want := c.Src.Content(0)
	bld := response.NewBuilder().WithBody(opened.Body).WithStatus(200)
	for _, kv := range c.Hdrs {
		for i, v := range kv.V {
			bld.WithHeader(kv.K, v, i > 0)
		}
	}
	if c.Pre > 0 {
		p := make([]byte, c.Pre)
		n, err := bld.Body().Read(p)
		if err != nil && n == 0 && len(want) > 0 {
			return fmt.Errorf("reading the body: %v", err)
		}
		want = want[n:]
	}
	builders := make([]*response.Builder, len(c.Peers))
	for i, p := range c.Peers {
		if p.Builder {
			if builders[i], err = bld.Copy(); err != nil {
				return fmt.Errorf("copying the builder: %v", err)
			}
		}
	}
	first := bld.Build()
	resps := make([]*response.Response, len(c.Peers))
	orig := false
	for i, p := range c.Peers {
		switch {
		case p.Builder:
		case i == len(c.Peers)-1:
			resps[i] = first
			orig = true
		default:
			if resps[i], err = first.Copy(); err != nil {
				return fmt.Errorf("copying the response: %v", err)
			}
		}
	}
	hdrs := first.Headers().Clone()
	errs := make([]error, len(c.Peers))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range c.Peers {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			p := &c.Peers[i]
			defer func() {
				if x := recover(); x != nil {
					errs[i] = fmt.Errorf("peer %d panicked: %v", i, x)
				}
			}()
			<-start
			r := resps[i]
			wantH := hdrs.Clone()
			if p.Builder {
				b := builders[i]
				b.WithHeader("X-Peer", fmt.Sprint(i), true)
				b.Headers().Add("X-A", "more")
				wantH.Set("X-Peer", fmt.Sprint(i))
				wantH.Add("X-A", "more")
				r = b.Build()
			}
			conn := p.Conn.Conn()
			var w http.ResponseWriter = conn.W()
			if p.Wrap {
				w = response.NewWriter(w, Request("GET"))
			}
			err := r.Serve(w)
			hs := conn.Events("header")
			if len(hs) != 1 || hs[0].Status != 200 {
				errs[i] = fmt.Errorf("peer %d got statuses %v", i, hs)
				return
			}
			for k, vs := range wantH {
				if !slices.Equal(vs, hs[0].Hdrs[k]) {
					errs[i] = fmt.Errorf("peer %d: header %s: %q was sent as %q", i, k, vs, hs[0].Hdrs[k])
					return
				}
			}
			if conn.Failed() > 0 {
				if err == nil || !bytes.HasPrefix(want, conn.Body()) {
					errs[i] = fmt.Errorf("peer %d: failed connection: %v, %d bytes", i, err, len(conn.Body()))
				}
				return
			}
			if err != nil || !bytes.Equal(conn.Body(), want) {
				errs[i] = fmt.Errorf("peer %d got %d of %d bytes, %v", i, len(conn.Body()), len(want), err)
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if !orig {
		first.Body().Close()
	}
	if !headersEqual(first.Headers(), hdrs) {
		return fmt.Errorf("serving copies changed the headers from %q to %q", hdrs, first.Headers())
	}
	if c.Src.Closable() && opened.Closes() != 1 {
		return fmt.Errorf("the source was closed %d times", opened.Closes())
	}
	o.NonTrivial()
	return nil
}

func concurrentServe() *core.Target {
	return core.New("concurrent", 2400, genCServe, runCServe).WithRace().WithFactor(15)
}
